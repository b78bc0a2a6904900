"""What the plugin beancount.plugins.auto_accounts makes of the directives of a beanfile."""
import clj, cljcore, cljrun
from cljload import J, sets, text

K = clj.Keyword
TAIL = ("provenance", "err", "idx", "span-p")


def view(d):
    """[kind, date, accs, auto, rest] of a directive; rest is all there is to it, unless it's what the plugin makes"""
    d = sets({k: v for k, v in J(d).items() if k not in TAIL})
    made = set(d) - {"span"} == {"dct", "date", "acc", "metadata"} and d["metadata"] == {"auto": None} and d["dct"] == "open"
    ps = d.get("postings") or []
    for p in ps:
        for k in TAIL:
            p.pop(k, None)
    accs = [p.get("acc") or "" for p in ps] if d["dct"] == "txn" else [d["acc"]] if d.get("acc") else []
    return {"kind": d["dct"], "date": d.get("date") or "", "accs": accs, "auto": made, "rest": "" if made else text(d)}


def job(c):
    r = {"id": c["id"]}
    try:
        cljrun.capture(lambda: cljrun.run("(load-beanfile %s)" % cljrun.string(c["file"])), "ERR")
        b = cljrun.run("*beans*")
        raw, made = (clj.get(b, K(k)) for k in ("raw-directives", "raw-xf-directives"))
        if raw is None:
            return {"id": c["id"], "skip": "not read"}
        r["given"] = [view(d) for d in clj.it(raw)]
        r["made"] = [view(d) for d in clj.it(made)] if made is not None else [{"kind": "nothing", "date": "", "accs": [], "auto": False, "rest": ""}]
        # those of the beanfile are what they are, whatever they look like
        spans = {text(J(clj.get(d, K("span")))) for d in clj.it(raw)}
        for ds, given in ((raw, r["given"]), (made or clj.Vec([]), r["made"])):
            for d, v in zip(clj.it(ds), given):
                s = clj.get(d, K("span"))
                if s is not None and text(J(s)) in spans and v["auto"]:
                    v["auto"], v["rest"] = False, "written"
    except clj.Thrown as e:
        r["given"], r["made"] = [], [{"kind": "failed: %s %s" % (e.cls, (e.message or "")[:200]), "date": "", "accs": [], "auto": False, "rest": ""}]
    finally:
        b = cljrun.run("*beans*")
        if b is not None and clj.get(b, K("pod")) is not None:
            cljrun.run("limabean.adapter.pod/stop")(clj.get(b, K("pod")))
        cljrun.run("(alter-var-root #'limabean.user/*beans* (constantly nil))")
    return r
