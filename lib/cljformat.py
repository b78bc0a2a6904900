"""Directives printed by the application, and what is printed read again."""
import datetime, os
from decimal import Decimal
import clj, cljcore, cljrun
from cljrun import K, cmap, get, opt, some, text, Odd

BOOLS = {True: "TRUE", False: "FALSE"}


# ---------------------------------------------------------------- to Clojure
def num(n):
    m, s = int(n["m"]), n["s"]
    return Decimal((m < 0, tuple(map(int, str(abs(m)))), -s)) if s else m


def day(s):
    return datetime.date.fromisoformat(s)


def names(xs):
    s = clj.PSet()
    for x in xs:
        s = clj.conj1(s, x)
    return s if xs else None


def value_in(v):
    t, s = v["t"], v["s"]
    if t == "null":
        return None
    if t == "amount":
        return cmap(units=num(v["n"][0]), cur=s)
    return clj.to_map({t: num(v["n"][0]) if t == "number" else day(s) if t == "date" else s == "TRUE" if t == "bool" else s})


def meta_in(m):
    return clj.to_map({e["k"]: value_in(e["v"]) for e in m}) if m else None


def price_in(p):
    return cmap(per_unit=opt(p["per"], num), total=opt(p["total"], num), cur=opt(p["cur"]))


def cost_in(c):
    return cmap(per_unit=opt(c["per"], num), total=opt(c["total"], num), cur=opt(c["cur"]), date=opt(c["date"], day), label=opt(c["label"]), merge=c["merge"] or None)


def posting_in(p, booked):
    cost, price = opt(p["cost"], cost_in), opt(p["price"], price_in)
    return cmap(flag=opt(p["flag"]), acc=p["acc"], units=opt(p["n"], num), cur=opt(p["cur"]), tags=names(p["tags"]), links=names(p["links"]),
                metadata=meta_in(p["meta"]), **({"cost": cost, "price": price} if booked else {"cost_spec": cost, "price_spec": price}))


STRS = {"note": ["comment"], "document": ["path"], "event": ["type", "description"], "query": ["name", "content"], "custom": ["type"]}


def dct_in(d, booked):
    k = d["kind"]
    m = dict(dct=K(k), date=day(d["date"]), acc=opt(d["acc"]), source=opt(d["source"]), cur=opt(d["cur"]), currencies=names(d["curs"]),
             booking=opt(d["booking"], lambda b: K(b.lower().replace("_", "-"))), units=opt(d["n"], num), tolerance=opt(d["tol"], num), price=opt(d["price"], price_in),
             flag=opt(d["flag"]), payee=opt(d["payee"]), narration=opt(d["narr"]), tags=names(d["tags"]), links=names(d["links"]), metadata=meta_in(d["meta"]))
    m.update(zip(STRS.get(k, []), d["strs"]))
    if d["vals"]:
        m["values"] = clj.Vec([value_in(v) for v in d["vals"]])
    if k == "txn":
        m["postings"] = clj.Vec([posting_in(p, booked) for p in d["ps"]])
    return cmap(**m)


# ---------------------------------------------------------------- from Clojure
def num_out(x):
    if type(x) is Decimal:
        sign, digits, e = x.as_tuple()
        m = int("".join(map(str, digits)))
        return {"m": str(-m if sign else m), "s": -e}
    return cljrun.num_out(x)


ASIDE = {"dct", "date", "span", "span-p", "idx", "provenance", "err"}


def known(m, *ks):
    for e in clj.it(m):
        if e.l[0].name not in ks and e.l[0].name not in ASIDE:
            raise Odd("key %s of a directive" % e.l[0].name)


def val(t, s="", n=()):
    return {"t": t, "s": s, "n": list(n)}


def value_out(v):
    if v is None:
        return val("null")
    ks = sorted(e.l[0].name for e in clj.it(v))
    if ks == ["cur", "units"]:
        return val("amount", text(get(v, "cur")), [num_out(get(v, "units"))])
    if len(ks) != 1:
        raise Odd("value %s" % clj.pr_str(v))
    x = get(v, ks[0])
    if ks[0] == "number":
        return val("number", "", [num_out(x)])
    return val(ks[0], x.isoformat() if ks[0] == "date" else BOOLS[x] if ks[0] == "bool" else text(x))


def meta_out(m):
    return sorted(({"k": e.l[0].name, "v": value_out(e.l[1])} for e in clj.it(m)), key=lambda e: e["k"]) if m is not None else []


def names_out(s):
    return sorted(text(x) for x in clj.it(s) or []) if s is not None else []


def date_out(x):
    return "" if x is None else x.isoformat()


def price_out(p):
    known(p, "per-unit", "total", "cur")
    return {"per": some(get(p, "per-unit"), num_out), "total": some(get(p, "total"), num_out), "cur": some(get(p, "cur"), text)}


def cost_out(c):
    known(c, "per-unit", "total", "cur", "label", "merge")
    return dict(price_out(cmap(**{"per_unit": get(c, "per-unit"), "total": get(c, "total"), "cur": get(c, "cur")})),
                date=some(get(c, "date"), date_out), label=some(get(c, "label"), text), merge=get(c, "merge") is True)


def posting_out(p):
    known(p, "flag", "acc", "units", "cur", "cost", "cost-spec", "price", "price-spec", "tags", "links", "metadata")
    either = lambda a: get(p, a) if get(p, a) is not None else get(p, a + "-spec")
    return {"flag": some(get(p, "flag"), text), "acc": text(get(p, "acc")), "n": some(get(p, "units"), num_out), "cur": some(get(p, "cur"), text),
            "cost": some(either("cost"), cost_out), "price": some(either("price"), price_out),
            "tags": names_out(get(p, "tags")), "links": names_out(get(p, "links")), "meta": meta_out(get(p, "metadata"))}


def dct_out(d):
    k = get(d, "dct").name
    known(d, "acc", "source", "cur", "currencies", "booking", "units", "tolerance", "price", "flag", "payee", "narration", "tags", "links", "metadata", "values",
          "postings", *STRS.get(k, []))
    return {"kind": k, "date": date_out(get(d, "date")), "acc": some(get(d, "acc"), text), "source": some(get(d, "source"), text), "cur": some(get(d, "cur"), text),
            "curs": names_out(get(d, "currencies")), "booking": some(get(d, "booking"), lambda b: b.name.upper().replace("-", "_")),
            "strs": [text(get(d, x)) for x in STRS.get(k, [])], "n": some(get(d, "units"), num_out), "tol": some(get(d, "tolerance"), num_out),
            "price": some(get(d, "price"), price_out), "flag": some(get(d, "flag"), text), "payee": some(get(d, "payee"), text),
            "narr": some(get(d, "narration"), text), "vals": [value_out(v) for v in clj.it(get(d, "values")) or []] if get(d, "values") is not None else [],
            "ps": [posting_out(p) for p in clj.it(get(d, "postings")) or []] if get(d, "postings") is not None else [],
            "tags": names_out(get(d, "tags")), "links": names_out(get(d, "links")), "meta": meta_out(get(d, "metadata"))}


def dcts_out(ds):
    return [dct_out(d) for d in clj.it(ds) or []]


# ---------------------------------------------------------------- printing and reading
STAGES = {"raw": "raw-directives", "raw-xf": "raw-xf-directives", "booked": "booked-directives", "booked-xf": "booked-xf-directives"}


def load(path, dumps, name):
    """load a beanfile, look at what is dumped -> beans, what is said, dumps"""
    d = cljcore.ENVIRON["LIMABEAN_DEBUG_DIR"]
    try:
        (_, said) = cljrun.capture(lambda: cljrun.run("(load-beanfile %s)" % cljrun.string(path)), "ERR")
    except clj.Thrown as e:
        said = "failed: %s %s" % (e.cls, (e.message or "")[:300])
    b = cljrun.run("*beans*")
    for suffix, key in STAGES.items():
        ds = get(b, key) if b is not None else None
        f = os.path.join(d, "%s.%s.beancount" % (name, suffix))
        there = os.path.exists(f)
        t = ""
        if there:
            with open(f, encoding="utf8", newline="") as h:
                t = h.read()
            os.unlink(f)
        dumps.append({"has": ds is not None, "there": there, "dirs": dcts_out(ds) if ds is not None else [], "text": t})
    for f in os.listdir(d):
        dumps.append({"has": False, "there": True, "dirs": [], "text": f})
        os.unlink(os.path.join(d, f))
    return b, said


def stop(b):
    if b is not None and get(b, "pod") is not None:
        cljrun.run("limabean.adapter.pod/stop")(get(b, "pod"))
    cljrun.run("(alter-var-root #'limabean.user/*beans* (constantly nil))")


def printed(ds):
    ds = cljrun.run("type/directives")(ds)
    return clj.pr_str(ds), [clj.pr_str(d) for d in clj.it(ds) or []]


def read_back(c, ds, docs, dumps):
    whole, each = printed(ds)
    dirs = dcts_out(ds)
    path = os.path.join(c["dir"], c["name"])
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(whole)
    b, said = load(path, dumps, c["base"])
    os.unlink(path)
    raws = get(b, "raw-directives") if b is not None else None
    docs.append({"dirs": dirs, "text": whole, "read": raws is not None, "back": dcts_out(raws) if raws is not None else []})
    if raws is None:
        docs[-1]["said"] = said[:2000]
    dumps += [{"has": True, "there": True, "dirs": [d], "text": t} for d, t in zip(dirs, each)]
    stop(b)


def job(c):
    """print and read directives, or those of a beanfile"""
    docs, dumps = [], []
    d = cljcore.ENVIRON["LIMABEAN_DEBUG_DIR"]
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    try:
        if "file" in c:
            path = os.path.join(c["dir"], c["name"])
            with open(path, "w", encoding="utf8", newline="") as f:
                f.write(c["file"])
            b, said = load(path, dumps, c["base"])
            os.unlink(path)
            stages = [get(b, STAGES[k]) for k in STAGES] if b is not None and get(b, "error") is None else []
            stop(b)
            for ds in stages if c["tidy"] else []:
                if ds is not None:
                    read_back(c, ds, docs, dumps)
        else:
            read_back(c, clj.Vec([dct_in(d, c["booked"]) for d in c["dirs"]]), docs, dumps)
    except Odd as e:
        return {"id": c["id"], "docs": [], "dumps": [{"has": False, "there": True, "dirs": [], "text": "odd: %s" % e}]}
    finally:
        b = cljrun.run("*beans*")
        if b is not None:
            stop(b)
    return {"id": c["id"], "docs": docs, "dumps": dumps}
