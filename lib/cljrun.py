"""Runs the application's Clojure sources, by the interpreter clj, on cases which
come as lines of JSON on standard input; what is observed goes to standard output.
  {"job": "query", ...}: a query of given directives, or of those of a beanfile
  {"job": "load", ...}: loading a beanfile with scripted plugins, see cljload
  {"job": "format", ...}: printing directives and reading them again, see cljformat
  {"job": "app", ...}: a run of the whole application, see cljapp
  {"job": "auto", ...}: what the plugin auto_accounts makes of a beanfile, see cljauto"""
import datetime, io, json, os, re, signal, sys
from decimal import Decimal
import clj, cljcore
from common import REPO, BIN

K = clj.Keyword


def boot(extra=()):
    clj.PATHS[:] = [os.path.join(REPO, "clj", "src")] + list(extra)
    cljcore.ENVIRON = dict(os.environ, PATH=BIN + ":" + os.environ["PATH"])
    for k in ("LIMABEAN_LOG", "LIMABEAN_USER_CLJ", "LIMABEAN_DEBUG_DIR", "LIMABEAN_BEANFILE"):
        cljcore.ENVIRON.pop(k, None)
    if os.environ.get("LIMA_DUMPS"):
        cljcore.ENVIRON["LIMABEAN_DEBUG_DIR"] = d = os.path.join(os.environ["LIMA_DUMPS"], str(os.getpid()))
        os.makedirs(d)
    clj.load_ns("limabean.app")
    run("(require '[limabean :refer [version]]) (require '[limabean.user :refer :all]) (require '[limabean.core.filters :as f])"
        "(require '[limabean.core.registry :as registry]) (require '[limabean.core.type :as type]) (require '[limabean.adapter.edn])")


def run(text):
    """evaluate in the namespace user, as the application does"""
    old = clj.NS.v
    clj.NS.v = clj.NSS["user"]
    try:
        return clj.load_text(text)
    finally:
        clj.NS.v = old


def capture(f, which="OUT"):
    """what f prints"""
    var = getattr(cljcore, which)
    w, old = clj.Obj("java.io.StringWriter", parts=[]), var.v
    var.v = w
    try:
        r = f()
    finally:
        var.v = old
    return r, "".join(w.parts)


# ---------------------------------------------------------------- to Clojure
def num(d):
    m, s = int(d["m"]), d["s"]
    return Decimal((m < 0, tuple(map(int, str(abs(m)))), -s)) if s else m


def date(d):
    return datetime.date(d["n"] // 10000, d["n"] // 100 % 100, d["n"] % 100)


def cmap(**kv):
    return clj.to_map({k.replace("_", "-"): v for k, v in kv.items() if v is not None})


def opt(x, f=lambda x: x):
    return f(x[0]) if x else None


def cost_in(c):
    return cmap(date=date(c["date"]), cur=c["cur"], per_unit=num(c["per"]), total=num(c["per"]), label=opt(c["label"]), merge=opt(c["merge"]))


def dct_in(d):
    if d["k"] == "open":
        return cmap(dct=K("open"), date=date(d["date"]), acc=d["acc"], booking=opt(d["booking"], K))
    if d["k"] != "txn":
        return cmap(dct=K(d["k"]), date=date(d["date"]), cur="XXX")
    return cmap(dct=K("txn"), date=date(d["date"]), flag="*", payee=opt(d["payee"]), narration=opt(d["narration"]),
                postings=clj.Vec([cmap(acc=p["acc"], flag=opt(p["flag"]), units=num(p["u"]), cur=p["cur"], cost=opt(p["cost"], cost_in))
                                  for p in d["ps"]]))


# ---------------------------------------------------------------- from Clojure
class Odd(Exception):
    pass


def get(m, k):
    return clj.get(m, K(k))


def num_out(x):
    if type(x) is int:
        return {"m": str(x), "s": 0}
    if type(x) is Decimal:
        sign, digits, e = x.as_tuple()
        if e > 0:
            raise Odd("exponent of %s" % x)
        m = int("".join(map(str, digits)))
        return {"m": str(-m if sign else m), "s": -e}
    raise Odd("not a number: %s" % clj.pr_str(x))


def date_out(d):
    if type(d) is not datetime.date:
        raise Odd("not a date: %s" % clj.pr_str(d))
    return {"n": d.year * 10000 + d.month * 100 + d.day, "s": d.isoformat()}


def some(x, f=lambda x: x):
    return [] if x is None else [f(x)]


def text(x):
    if type(x) is not str:
        raise Odd("not a string: %s" % clj.pr_str(x))
    return x


def cost_out(c):
    return {"date": date_out(get(c, "date")), "cur": text(get(c, "cur")), "per": num_out(get(c, "per-unit")),
            "label": some(get(c, "label"), text), "merge": some(get(c, "merge"))}


def dct_out(d):
    k = get(d, "dct").name
    if k == "open":
        return {"k": k, "acc": text(get(d, "acc")), "booking": some(get(d, "booking"), lambda x: x.name)}
    if k != "txn":
        return {"k": k}
    return {"k": k, "date": date_out(get(d, "date")), "payee": some(get(d, "payee"), text), "narration": some(get(d, "narration"), text),
            "ps": [{"acc": text(get(p, "acc")), "flag": some(get(p, "flag"), text), "u": num_out(get(p, "units")), "cur": text(get(p, "cur")),
                    "cost": some(get(p, "cost"), cost_out)} for p in clj.it(get(d, "postings"))]}


def position_out(p):
    return {"u": num_out(get(p, "units")), "cur": text(get(p, "cur")), "cost": some(get(p, "cost"), cost_out)}


def pairs(m):
    """a map, in order of its keys; nothing but what is marked as a cell beside"""
    return sorted(((text(clj.first(e)), e.l[1]) for e in clj.it(m)), key=lambda kv: kv[0])


def inventory_out(v):
    return [{"acc": a, "ps": [position_out(p) for p in clj.it(ps)]} for a, ps in pairs(v)]


def rollup_out(v):
    at = lambda x: {"u": num_out(x.l[0]), "at": x.l[1]}
    return [{"acc": a, "item": some(get(e, "item"), at), "total": some(get(e, "total"), at)} for a, e in pairs(v)]


def journal_out(v):
    return [{"date": date_out(get(e, "date")), "acc": text(get(e, "acc")), "payee": some(get(e, "payee"), text),
             "narration": some(get(e, "narration"), text), "flag": some(get(e, "flag"), text), "u": num_out(get(e, "units")),
             "cur": text(get(e, "cur")), "bal": [position_out(p) for p in clj.it(get(e, "bal"))]} for e in clj.it(v)]


def cell_out(c):
    """a cell as sent to be tabulated"""
    (t, v), = c.items()
    if t == "empty":
        return {"t": t}
    if t == "aligned":
        return {"t": t, "s": v[0], "al": v[1]}
    if t == "anchored":
        return {"t": t, "s": v[0], "at": v[1]}
    if t == "row":
        return {"t": t, "cells": [cell_out(x) for x in v[0]], "gut": v[1]}
    return {"t": t, "cells": [cell_out(x) for x in v]}


# ---------------------------------------------------------------- queries
KIND = {"inventory": "inventory", "balances": "inventory", "income-statement": "inventory", "journal": "journal", "rollup": "rollup"}
OUTS = {"inventory": inventory_out, "journal": journal_out, "rollup": rollup_out}


def string(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def regex(p):
    return '#"%s%s%s"' % ("^" if p["from"] else "", re.sub(r'([][\\.*+?(){}|^$])', r"\\\1", p["lit"]).replace('"', '\\"'), "$" if p["to"] else "")


def dates(f, a):
    return string("%04d-%02d-%02d" % tuple(a)) if f.get("text") and len(a) == 3 else " ".join(map(str, a))


def filter_text(f):
    n = f["f"]
    if n in ("date<", "date<=", "date>", "date>="):
        a = dates(f, f["a"])
    elif n == "date>=<":
        a = dates(f, f["a"]) + " " + dates(f, f["b"])
    elif n in ("acc", "sub-acc"):
        a = " ".join(map(string, f["names"]))
    elif n == "cur":
        a = string(f["name"])
    elif n in ("payee-match", "narration-match"):
        a = regex(f["re"])
    else:
        a = " ".join(map(filter_text, f["fs"]))
    return "(f/%s%s)" % (n, " " + a if a else "")


def query_text(q):
    fs = "".join(" " + filter_text(f) for f in q["fs"])
    if q["fn"] == "rollup":
        return "(rollup (%s%s))" % ("inventory", fs)
    return "(%s%s)" % (q["fn"], fs)


def beans_in(c):
    ds = run("type/directives")(clj.Vec([dct_in(d) for d in c["dirs"]]))
    n = c["opts"]["names"]
    o = cmap(booking_method=opt(c["opts"]["booking"], K), name_assets=n["assets"], name_liabilities=n["liabilities"], name_equity=n["equity"],
             name_income=n["income"], name_expenses=n["expenses"])
    reg = run("registry/build")(ds, o)
    return cmap(directives=ds, options=o, registry=reg), reg


def query(c):
    """-> the answer, the cell it is shown as, whether it prints as what it is"""
    r = {"id": c["id"]}
    if "file" in c:
        (_, said) = capture(lambda: run("(load-beanfile %s)" % string(c["file"])), "ERR")
        b = run("*beans*")
        if get(b, "pod") is not None:
            run("limabean.adapter.pod/stop")(get(b, "pod"))
            run("(alter-var-root #'limabean.user/*beans* dissoc :pod)")
        if get(b, "error") is not None:
            return {"id": c["id"], "skip": "error"}
        r["dirs"] = [dct_out(d) for d in clj.it(run("*directives*"))]
    else:
        b, reg = beans_in(c)
        run("(fn [b] (alter-var-root #'limabean.user/*beans* (constantly b)))")(b)
    q = query_text(c["query"])
    r["text"] = q
    kind = KIND[c["query"]["fn"]]
    try:
        try:
            v = run(q)
        except clj.Thrown:
            raise
        except Exception as e:
            raise clj.java_error(e)
        obs = {"kind": kind, "val": OUTS[kind](v)}
        seen = []

        def tabulate(args, given):
            if args == ["limabean-pod", "tabulate"]:
                seen.append(given)
                return 0, "printed\n", ""
        cljcore.SHELL = tabulate if not c.get("through") else None
        try:
            ok, said = capture(lambda: run("(show %s)" % q))
        finally:
            cljcore.SHELL = None
        if c.get("through"):
            obs["out"] = said
        else:
            if said != "printed\n" or len(seen) != 1 or ok is not K("ok"):
                raise Odd("shown as %r" % said)
            obs["cell"] = cell_out(json.loads(seen[0]))
        try:
            obs["prints"] = clj.equiv(run("limabean.adapter.edn/read-string")(clj.pr_str(v)), v)
        except clj.Thrown:
            obs["prints"] = False
    except clj.Thrown as e:
        msg = e.message or ""
        obs = {"kind": "bad date" if msg == "Bad date" else "unsupported booking" if msg.startswith("unsupported booking method") else "failed: %s %s" % (e.cls, msg[:200]),
               "val": [], "cell": {"t": "empty"}, "prints": True}
    except Odd as e:
        obs = {"kind": "odd: %s" % e, "val": [], "cell": {"t": "empty"}, "prints": True}
    r["obs"] = obs
    return r


def load(c):
    import cljload
    return cljload.load(c)


def printing(c):
    import cljformat
    return cljformat.job(c)


def application(c):
    import cljapp
    return cljapp.run(c)


def auto(c):
    import cljauto
    return cljauto.job(c)


JOBS_ = {"query": query, "load": load, "format": printing, "app": application, "auto": auto}


def late(*_):
    raise clj.Unsupported("no end in sight")


def main():
    signal.signal(signal.SIGALRM, late)
    boot(sys.argv[1:])
    out = os.fdopen(os.dup(1), "w", encoding="utf8")
    for line in io.TextIOWrapper(sys.stdin.buffer, encoding="utf8"):
        c = json.loads(line)
        try:
            signal.alarm(100)
            try:
                r = JOBS_[c["job"]](c)
            except clj.Thrown:
                raise
            except Exception as e:
                import traceback
                raise clj.Unsupported("".join(traceback.format_exception(e))[-1500:])
        except clj.Unsupported as e:
            r = {"id": c["id"], "unsupported": str(e)}
        signal.alarm(0)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
