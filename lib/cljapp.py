"""One run of the application by its -main, with what it prints and its exit status."""
import os, re
import clj, cljcore, cljrun

K = clj.Keyword


def code(f, at):
    """the text of a form of App.tla"""
    d, a = f["does"], f["arg"]
    if d == "say":
        return f.get("text") or "(println %s)" % cljrun.string(a)
    return {"count": "(println (count *directives*))",
            "mine": "(if-let [v (ns-resolve 'user 'mine)] (println @v) (throw (ex-info \"not mine\" {})))",
            "def": "(def mine %s)" % cljrun.string(a),
            "throw": "(throw (ex-info %s {:a 1}))" % cljrun.string(a),
            "exc": "(println (:cause *exception*))",
            "away": "(ns verif.away%s)" % re.sub("[^a-z0-9-]", "", at),
            "value": f["val"],
            "load": "(load-beanfile %s)" % cljrun.string(a),
            "unresolved": a or "nowhere",
            "unreadable": {"EOF while reading": "(", "Unmatched delimiter: )": ")"}.get(a)}[d]


def reset():
    u = clj.NSS["user"]
    # what they define may depend on the environment
    for n in ("limabean.adapter.user-clj", "limabean.app", "limabean.main"):
        clj.LOADED.discard(n)
    clj.load_ns("limabean.main")
    u.vars.clear(), u.refers.clear(), u.aliases.clear()
    for ns, name in (("limabean.user", "*beans*"), ("limabean.user", "*directives*"), ("limabean.user", "*options*"), ("limabean.user", "*registry*"),
                     ("limabean.adapter.exception", "*exception*")):
        v = clj.NSS[ns].vars.get(name)
        if v is not None:
            v.v = None


def prompt(session, n):
    """a stand-in for rebel-readline, which does as clojure.main/repl"""
    def repl(*a):
        o = {a[i].name: a[i + 1] for i in range(0, len(a), 2)}

        def guarded(f):
            try:
                return True, f()
            except clj.Unsupported:
                raise
            except Exception as e:
                o["caught"](clj.java_error(e))
                return False, None
        guarded(o["init"])
        for i, f in enumerate(session):
            ok, v = guarded(lambda: clj.evaluate(clj.Reader(code(f, "%s-%d" % (n, i)), clj.NS.v).read()))
            if ok:
                cljcore.write("=> " + clj.pr_str(v) + "\n")
    return repl


def run(c):
    w, n = c["world"], c["id"]
    os.makedirs(c["dir"], exist_ok=True)
    old, env = os.getcwd(), dict(cljcore.ENVIRON)
    os.chdir(c["dir"])
    try:
        for b in w["beans"]:
            if b["is"] == "file":
                open(b["path"], "w", encoding="utf8").write(b["text"])
            elif b["is"] == "dir":
                os.makedirs(b["path"], exist_ok=True)
        for f in w["ufiles"]:
            open(f["path"], "w", encoding="utf8").write("\n".join(code(x, "%s-%s-%d" % (n, f["path"], i)) for i, x in enumerate(f["forms"])) + "\n")
        for k, v in (("LIMABEAN_BEANFILE", w["env"]), ("LIMABEAN_USER_CLJ", w["user"])):
            cljcore.ENVIRON.pop(k, None)
            if v:
                cljcore.ENVIRON[k] = v[0]
        reset()
        clj.NSS["rebel-readline.clojure.main"].vars["repl"].v = prompt(w["session"], n)
        status = [None]
        # an expression means what its name means
        args = list(w["args"])

        def main():
            try:
                cljrun.run("limabean.main/-main")(*args)
            except cljcore.Exit as e:
                status[0] = e.args[0]
            except clj.Thrown as e:
                status[0] = "failed: %s" % e
        err = []

        def both():
            err.append(cljrun.capture(main, "ERR")[1])
        out = cljrun.capture(both, "OUT")[1]
        lines = lambda s: s[:-1].split("\n") if s.endswith("\n") else s.split("\n") if s else []
        ver = cljrun.run("(limabean/version)") if "limabean" in clj.NSS else "?"
        out = [("limabean.clj VERSION" if l == "limabean.clj %s" % ver else l) for l in lines(out)]
        return {"id": n, "obs": {"out": out, "err": lines(err[0]), "code": status[0] if type(status[0]) is int else 99, "odd": str(status[0])}}
    finally:
        os.chdir(old)
        cljcore.ENVIRON.clear()
        cljcore.ENVIRON.update(env)
        b = clj.NSS["limabean.user"].vars["*beans*"].v
        if b is not None and clj.get(b, K("pod")) is not None:
            cljrun.run("limabean.adapter.pod/stop")(clj.get(b, K("pod")))
