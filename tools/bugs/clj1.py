CLJ = r'''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import clj, cljcore
D = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, D, True)


def write(name, text):
    p = os.path.join(D, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p


def start(env=None):
    """the application's own sources, run by the interpreter beside this"""
    clj.PATHS[:] = [os.path.abspath("clj/src"), D]
    cljcore.ENVIRON = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
    cljcore.ENVIRON["PATH"] = BIN + ":" + os.environ["PATH"]
    cljcore.ENVIRON.update(env or {})
    clj.load_ns("limabean.app")
    run("(require '[limabean.user :refer :all]) (require '[limabean.core.filters :as f])")


def run(text):
    old = clj.NS.v
    clj.NS.v = clj.NSS["user"]
    try:
        return clj.load_text(text)
    finally:
        clj.NS.v = old


def captured(f, which):
    var = getattr(cljcore, which)
    w, old = clj.Obj("java.io.StringWriter", parts=[]), var.v
    var.v = w
    try:
        f()
    finally:
        var.v = old
    return "".join(w.parts)


def printed(text):
    return captured(lambda: run(text), "OUT")


def load(bean):
    """what is told when this is loaded"""
    p = write("x.beancount", bean)
    return captured(lambda: run('(load-beanfile "%s")' % p), "ERR").replace(D + "/", "")


def shown(bean, query):
    load(bean)
    return printed("(prn %s)" % query).strip()
'''

bug("c29-hyphens", "C29",
    [("clj/src/limabean/adapter/plugins.clj", '(symbol (str/replace name #"_" "-"))', '(symbol (str/replace-first name "_" "-"))')],
    CLJ + r'''
write("my/own_plugin_here.clj", "(ns my.own-plugin-here) (defn raw-xf [_] (map (fn [d] (assoc d :metadata {:seen {:bool true}}))))")
start()
load('plugin "my.own_plugin_here"\n2020-01-01 open Assets:A\n')
expect(run("(count (filter :metadata *directives*))"), 1)
''', "a plugin named with two underscores", "it can't be resolved, and nothing is processed")

bug("c30-sold-lots", "C30",
    [("clj/src/limabean/core/inventory.clj", "(if (zero? (:units p))", "(if (and (zero? (:units p)) (not (:cost p)))")],
    CLJ + r'''
start()
bean = '2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n2020-01-02 * "x"\n  Assets:A 5 HOOL {10 USD}\n  Assets:B -50 USD\n2020-01-03 * "y"\n  Assets:A %d HOOL {10 USD}\n  Assets:B %d USD\n'
expect(shown(bean % (-4, 40), '(count (get (inventory) "Assets:A"))'), "1")
expect(shown(bean % (-5, 50), '(count (get (inventory) "Assets:A"))'), "0")
''', "a lot held at cost which was sold entirely", "a position of zero is listed for it")

bug("c31-beginning-of-another", "C31",
    [("clj/src/limabean/core/filters.clj", '(str/starts-with? acc (str target-acc ":"))', '(str/starts-with? acc target-acc)')],
    CLJ + r'''
start()
bean = '2020-01-01 open Assets:Bank\n2020-01-01 open Assets:Bank:Main\n2020-01-01 open Assets:BankTwo\n2020-01-02 * "x"\n  Assets:Bank 5 USD\n  Assets:Bank:Main 5 USD\n  Assets:BankTwo -10 USD\n'
expect(shown(bean, '(sort (keys (inventory (f/sub-acc "Assets:Bank"))))'), '("Assets:Bank" "Assets:Bank:Main")')
''', "an account whose name begins with the whole name of another which is not its parent", "it is taken for a sub-account")

bug("c32-deep-accounts", "C32",
    [("clj/src/limabean/core/rollup.clj", '(str/split acc #":"))]', '(str/split acc #":" 4))]')],
    CLJ + r'''
start()
bean = '2020-01-01 open Assets:A:B:C:D\n2020-01-01 open Assets:A:B:C:E\n2020-01-02 * "x"\n  Assets:A:B:C:D 5 USD\n  Assets:A:B:C:E 7 USD\n  Equity:O -12 USD\n2020-01-01 open Equity:O\n'
expect(shown(bean, '(get-in (rollup (inventory)) ["Assets:A:B:C" :total 0])'), "12M")
''', "accounts of five or more levels", "the sums of those of their parents which are below the third level are missing")

bug("c33-first-error-of-directive", "C33",
    [("clj/src/limabean/adapter/error.clj", "                   (:err dct)))", "                   (take 1 (:err dct))))")],
    CLJ + r'''
write("my/checker.clj", '(ns my.checker (:require [limabean.plugin :refer [dct-error!]])) (defn raw-xf [_] (map (fn [d] (-> d (dct-error! "first thing") (dct-error! "second thing")))))')
start()
told = load('plugin "my.checker"\n2020-01-01 open Assets:A\n')
expect(("first thing" in told, "second thing" in told), (True, True))
''', "two errors marked on one directive by plugins", "only the first of them is told")

bug("c34-booking-of-three-words", "C34",
    [("clj/src/limabean/core/format.clj", '(double-quote (str/replace (str/upper-case (name booking)) "-" "_"))', '(double-quote (str/replace-first (str/upper-case (name booking)) "-" "_"))')],
    CLJ + r'''
start()
load('2020-01-01 open Assets:A "STRICT_WITH_SIZE"\n')
text = printed("(pr (first *directives*))")
expect('"STRICT_WITH_SIZE"' in text, True)
''', "an account opened with the booking method STRICT_WITH_SIZE", "it is printed as a booking method which doesn't exist")

bug("c35-user-file-stops-others", "C35",
    [("clj/src/limabean/adapter/user_clj.clj", """    (run! (fn [clj]
            (try (load-file clj)
                 (catch Exception e
                   (binding [*out* *err*]
                     (println "Failed to load" clj "from $LIMABEAN_USER_CLJ")
                     (exception/handle-exception e)))))
          (str/split cljs #":"))))""", """    (let [current (volatile! nil)]
      (try (run! (fn [clj] (vreset! current clj) (load-file clj))
                 (str/split cljs #":"))
           (catch Exception e
             (binding [*out* *err*]
               (println "Failed to load" @current "from $LIMABEAN_USER_CLJ")
               (exception/handle-exception e)))))))""")],
    CLJ + r'''
a = write("a.clj", '(println "a")')
b = write("b.clj", '(throw (ex-info "broken" {}))')
c = write("c.clj", '(println "c")')
start({"LIMABEAN_USER_CLJ": ":".join([a, b, c])})
said = []
told = captured(lambda: said.append(printed("(limabean.adapter.user-clj/load-user-cljs)")), "ERR")
expect(said[0].split(), ["a", "c"])
expect("Failed to load %s from" % b in told, True)
''', "a user file which fails and is not the last", "the files after it are not loaded")

bug("c36-only-first-remembered", "C36",
    [("clj/src/beancount/plugins/auto_accounts.clj", "(apply conj @opened-accounts new-accs))", "(conj @opened-accounts (first new-accs)))")],
    CLJ + r'''
start()
told = load('plugin "beancount.plugins.auto_accounts"\n2020-01-01 * "x"\n  Assets:A 5 USD\n  Assets:B -5 USD\n2020-01-02 * "y"\n  Assets:A 5 USD\n  Assets:C -5 USD\n')
expect(run("(count (filter (fn [d] (= :open (:dct d))) *directives*))"), 3)
told = load('plugin "beancount.plugins.auto_accounts"\n2020-01-01 * "x"\n  Assets:A 5 USD\n  Assets:B -5 USD\n2020-01-02 * "y"\n  Assets:B 5 USD\n  Assets:C -5 USD\n')
expect(run("(count (filter (fn [d] (= :open (:dct d))) *directives*))"), 3)
''', "a transaction which opens several accounts, then another with one of them which is not the first by name", "it is opened again, which booking refuses")
