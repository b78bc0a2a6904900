"""tools/goldens.py: the repository's own expected outputs (test-cases/*.golden), which its Clojure tests
compare with, from the Clojure part as run by lib/clj.py: what validates that interpreter."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import clj, cljcore

R = os.environ.get("LIMA_REPO", "/repo")
clj.PATHS[:] = [R + "/clj/src", R + "/clj/test-plugins/src"]
cljcore.ENVIRON.update(os.environ)
cljcore.ENVIRON["PATH"] = R + "/rust/target/debug:" + os.environ["PATH"]
os.chdir(R + "/clj")
for ns in ("limabean.user", "limabean.app", "limabean.adapter.edn"):
    clj.load_ns(ns)
call = lambda ns, f, *a: clj.NSS[ns].vars[f].v(*a)
captured = clj.NSS["clojure.core"].vars["with-out-str*"].v
K = clj.Keyword
same = differ = 0
T = "../test-cases"


def compare(what, f, expected):
    global same, differ
    try:
        if f() == expected:
            same += 1
            return
    except BaseException:
        traceback.print_exc()
    differ += 1
    print("differs:", what)


for d in sorted(os.listdir(T)):
    if not d.endswith(".golden"):
        continue
    bean = "%s/%s.beancount" % (T, d[:-7])
    for q, expr in (("inventory", "(show (inventory))"), ("rollup", "(show (rollup (inventory)))"), ("journal", "(show (journal))")):
        e = "%s/%s/%s" % (T, d, q)
        if os.path.exists(e):
            compare(e, lambda: captured(lambda: call("limabean.app", "run", clj.hash_map(K("beanfile"), bean, K("eval"), expr))), open(e).read())
    for k in ("raw-xf-directives", "directives", "error"):
        e = "%s/%s/%s.edn" % (T, d, k)
        if os.path.exists(e):
            read = call("limabean.adapter.edn", "read-string", open(e).read())
            compare(e, lambda: clj.equiv(read, clj.get(call("limabean", "load-beanfile", bean), K(k))), True)
print("%d as expected, %d not" % (same, differ))
sys.exit(1 if differ else 0)
