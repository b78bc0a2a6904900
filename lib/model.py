"""Directives as the specification sees them: rendered as beancount text or as
request parameters, and abstracted from what the server answers."""
import re
from pod import Num


def dec(s):
    """A decimal of the specification from its notation."""
    m = re.fullmatch(r"(-?)(\d+)(?:\.(\d+))?", s)
    if not m:
        raise ValueError("not a decimal: %r" % s)
    f = m.group(3) or ""
    n = int(m.group(1) + m.group(2) + f)
    return {"m": str(n), "s": len(f)}


def num(d):
    m, s = int(d["m"]), d["s"]
    t = str(abs(m)).rjust(s + 1, "0")
    return ("-" if m < 0 else "") + (t[:-s] + "." + t[-s:] if s else t)


def opt(x):
    return [] if x is None else [x]


def date_str(d):
    return "%04d-%02d-%02d" % (d // 10000, d // 100 % 100, d % 100)


def date_int(s):
    return int(s.replace("-", ""))


def directive(kind, date, **kw):
    d = {"kind": kind, "date": date, "tags": [], "links": [], "meta": [], "body": [],
         "acc": "", "source": "", "curs": [], "booking": [], "units": {"m": "0", "s": 0}, "cur": "",
         "tol": [], "flag": "", "payee": [], "narration": [], "ps": []}
    assert set(kw) <= set(d), kw
    d.update(kw)
    d["tags"], d["links"] = sorted(d["tags"]), sorted(d["links"])
    d["meta"] = sorted(d["meta"])
    if kind == "open":
        d["curs"] = sorted(set(d["curs"]))
        d["body"] = [d["acc"], ",".join(d["curs"])] + d["booking"]
    elif kind == "close":
        d["body"] = [d["acc"]]
    elif kind == "pad":
        d["body"] = [d["acc"], d["source"]]
    elif kind == "balance":
        d["body"] = [d["acc"], num(d["units"]), d["cur"]] + [num(t) for t in d["tol"]]
    return d


def posting(acc, units=None, cur=None, cost=None, price=None, flag=None, tags=(), links=(), meta=()):
    return {"acc": acc, "units": opt(units), "cur": opt(cur), "cost": opt(cost), "price": opt(price),
            "flag": opt(flag), "tags": sorted(tags), "links": sorted(links), "meta": sorted(meta)}


def cost(per=None, total=None, cur=None, date=None, label=None, merge=False):
    return {"per": opt(per), "total": opt(total), "cur": opt(cur), "date": opt(date),
            "label": opt(label), "merge": merge}


def price(per=None, total=None, cur=None):
    return {"per": opt(per), "total": opt(total), "cur": opt(cur)}


# ------------------------------------------------------------------ as text
# a metadata value is a token: a letter for its type, a colon, its content
def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def meta_text(v):
    t, x = v[0], v[2:]
    return {"S": lambda: quote(x), "C": lambda: x, "A": lambda: x, "T": lambda: "#" + x,
            "L": lambda: "^" + x, "D": lambda: x, "B": lambda: x.upper(), "N": lambda: x,
            "U": lambda: x, "Z": lambda: ""}[t]()


def cost_text(c):
    parts = []
    n = ""
    if c["per"]:
        n = num(c["per"][0])
    if c["total"]:
        n = (n + " " if n else "") + "# " + num(c["total"][0])
    if c["cur"]:
        n = (n + " " if n else "") + c["cur"][0]
    if n:
        parts.append(n)
    if c["date"]:
        parts.append(date_str(c["date"][0]))
    if c["label"]:
        parts.append(quote(c["label"][0]))
    if c["merge"]:
        parts.append("*")
    return "{" + ", ".join(parts) + "}"


def price_text(p):
    if p["total"]:
        return "@@ " + " ".join([num(p["total"][0])] + p["cur"])
    return " ".join(["@"] + [num(x) for x in p["per"]] + p["cur"])


def posting_text(p):
    parts = p["flag"] + [p["acc"]] + [num(u) for u in p["units"]] + p["cur"]
    parts += [cost_text(c) for c in p["cost"]] + [price_text(x) for x in p["price"]]
    return " ".join(parts)


def meta_lines(x, indent):
    res = ["%s%s:%s" % (indent, k, (" " + meta_text(v)) if meta_text(v) else "") for k, v in x["meta"]]
    return res


def tag_text(x):
    return "".join(" #" + t for t in x["tags"]) + "".join(" ^" + l for l in x["links"])


def directive_text(d):
    k = d["kind"]
    head = date_str(d["date"]) + " "
    if k == "txn":
        head += d["flag"] if len(d["flag"]) == 1 else "'" + d["flag"].lstrip("'")
        if d["payee"]:
            head += " " + quote(d["payee"][0]) + " " + quote((d["narration"] or [""])[0])
        elif d["narration"]:
            head += " " + quote(d["narration"][0])
    elif k == "open":
        head += "open " + d["acc"] + (" " + ",".join(d["curs"]) if d["curs"] else "")
        head += "".join(" " + quote(b.upper().replace("-", "_")) for b in d["booking"])
    elif k == "balance":
        head += "balance %s %s%s %s" % (d["acc"], num(d["units"]),
                                       "".join(" ~ " + num(t) for t in d["tol"]), d["cur"])
    elif k == "price":
        head += "price %s %s %s" % tuple(d["body"])
    elif k in ("close", "commodity", "pad"):
        head += k + " " + " ".join(d["body"])
    elif k in ("document", "note"):
        head += "%s %s %s" % (k, d["body"][0], quote(d["body"][1]))
    elif k in ("event", "query"):
        head += "%s %s %s" % (k, quote(d["body"][0]), quote(d["body"][1]))
    elif k == "custom":
        head += "custom " + quote(d["body"][0]) + "".join(" " + meta_text(v) for v in d["body"][1:])
    lines = [head + tag_text(d)] + meta_lines(d, "  ")
    for p in d["ps"]:
        lines.append("  " + posting_text(p))
        lines += ["    " + t for t in tag_text(p).split()]
        lines += meta_lines(p, "    ")
    return "\n".join(lines) + "\n"


def options_text(o):
    lines = []
    if o["booking"]:
        lines.append('option "booking_method" "%s"' % o["booking"][0].upper().replace("-", "_"))
    if o["mult"]:
        lines.append('option "inferred_tolerance_multiplier" "%s"' % num(o["mult"][0]))
    for x in o["dflt"]:
        lines.append('option "inferred_tolerance_default" "%s:%s"' % (x["cur"], num(x["tol"])))
    if o["fb"]:
        lines.append('option "inferred_tolerance_default" "*:%s"' % num(o["fb"][0]))
    return "".join(l + "\n" for l in lines)


NO_OPTS = {"booking": [], "mult": [], "dflt": [], "fb": []}


def ledger_text(dirs, opts=NO_OPTS):
    return options_text(opts) + "\n".join(directive_text(d) for d in dirs)


# ------------------------------------------------------------------ as JSON
def meta_json(v):
    t, x = v[0], v[2:]
    if t == "U":
        n, c = x.split(" ")
        return {"units": Num(n), "cur": c}
    if t == "Z":
        return None
    k = {"S": "string", "C": "cur", "A": "acc", "T": "tag", "L": "link", "D": "date",
         "B": "bool", "N": "number"}[t]
    return {k: Num(x) if t == "N" else (x == "true") if t == "B" else x}


def common_json(x, res):
    if x["tags"]:
        res["tags"] = x["tags"]
    if x["links"]:
        res["links"] = x["links"]
    if x["meta"]:
        res["metadata"] = {k: meta_json(v) for k, v in x["meta"]}
    return res


def j(d):
    return Num(num(d))


def spec_json(s):
    res = {}
    for k, name in (("per", "per-unit"), ("total", "total")):
        if s[k]:
            res[name] = j(s[k][0])
    if s["cur"]:
        res["cur"] = s["cur"][0]
    if s.get("date"):
        res["date"] = date_str(s["date"][0])
    if s.get("label"):
        res["label"] = s["label"][0]
    if s.get("merge"):
        res["merge"] = True
    return res


def posting_json(p):
    res = {}
    if p["flag"]:
        res["flag"] = p["flag"][0]
    res["acc"] = p["acc"]
    if p["units"]:
        res["units"] = j(p["units"][0])
    if p["cur"]:
        res["cur"] = p["cur"][0]
    if p["cost"]:
        res["cost-spec"] = spec_json(p["cost"][0])
    if p["price"]:
        res["price-spec"] = spec_json(p["price"][0])
    return common_json(p, res)


def directive_json(d):
    k = d["kind"]
    b = d["body"]
    res = {"date": date_str(d["date"]), "dct": k}
    if k == "txn":
        res["flag"] = d["flag"]
        if d["payee"]:
            res["payee"] = d["payee"][0]
        if d["narration"]:
            res["narration"] = d["narration"][0]
        res["postings"] = [posting_json(p) for p in d["ps"]]
    elif k == "open":
        res["acc"] = d["acc"]
        if d["curs"]:
            res["currencies"] = d["curs"]
        if d["booking"]:
            res["booking"] = d["booking"][0]
    elif k == "balance":
        res.update(acc=d["acc"], units=j(d["units"]), cur=d["cur"])
        if d["tol"]:
            res["tolerance"] = j(d["tol"][0])
    elif k == "price":
        res.update(cur=b[0], price={"per-unit": Num(b[1]), "cur": b[2]})
    elif k == "close":
        res["acc"] = b[0]
    elif k == "commodity":
        res["cur"] = b[0]
    elif k == "pad":
        res.update(acc=b[0], source=b[1])
    elif k == "document":
        res.update(acc=b[0], path=b[1])
    elif k == "note":
        res.update(acc=b[0], comment=b[1])
    elif k == "event":
        res.update(type=b[0], description=b[1])
    elif k == "query":
        res.update(name=b[0], content=b[1])
    elif k == "custom":
        res.update(type=b[0], values=[meta_json(v) for v in b[1:]])
    return common_json(d, res)


# ------------------------------------------------------------------ from JSON
class Malformed(Exception):
    """The answer is not of the documented form."""


def meta_from(v):
    if v is None:
        return "Z:"
    if set(v) == {"units", "cur"}:
        return "U:%s %s" % (v["units"], v["cur"])
    if len(v) != 1:
        raise Malformed("metadata value %r" % (v,))
    (k, x), = v.items()
    t = {"string": "S", "cur": "C", "acc": "A", "tag": "T", "link": "L", "date": "D",
         "bool": "B", "number": "N"}.get(k)
    if t is None:
        raise Malformed("metadata value %r" % (v,))
    if t == "B":
        x = "true" if x is True else "false" if x is False else str(x)
    return t + ":" + str(x)


def dec_from(x):
    if not isinstance(x, Num):
        raise Malformed("number %r" % (x,))
    try:
        return dec(x)
    except ValueError:
        raise Malformed("number %r" % (x,))


def str_from(x):
    if not isinstance(x, str) or isinstance(x, Num):
        raise Malformed("string %r" % (x,))
    return x


def int_from(x):
    if not isinstance(x, Num) or not re.fullmatch(r"\d+", x):
        raise Malformed("index %r" % (x,))
    return int(x)


def opt_from(x, k, f):
    if k not in x:
        return []
    return [f(x[k])]


def common_from(x):
    for k in ("tags", "links"):
        if k in x and (not isinstance(x[k], list) or not x[k]):
            raise Malformed("%s %r" % (k, x[k]))
    return {"tags": sorted(str_from(t) for t in x.get("tags", [])),
            "links": sorted(str_from(t) for t in x.get("links", [])),
            "meta": sorted([k, meta_from(v)] for k, v in x.get("metadata", {}).items())}


def check_keys(x, allowed, what):
    extra = set(x) - set(allowed.split())
    if extra:
        raise Malformed("unexpected %s in %s" % (sorted(extra), what))


def need(x, k):
    if k not in x:
        raise Malformed("no %s in %r" % (k, x))
    return x[k]


COMMON = "idx span date dct tags links metadata "
KEYS = {"open": "acc currencies booking", "close": "acc", "pad": "acc source", "balance": "acc units cur tolerance",
        "price": "cur price", "commodity": "cur", "document": "acc path", "note": "acc comment",
        "event": "type description", "query": "name content", "custom": "type values",
        "txn": "flag payee narration postings"}


def body_from(x):
    k = need(x, "dct")
    if k not in KEYS:
        raise Malformed("directive %r" % k)
    check_keys(x, COMMON + KEYS[k], k)
    g = lambda f: str_from(need(x, f))
    if k == "open":
        if "currencies" in x and not x["currencies"]:
            raise Malformed("empty currencies")
        return [g("acc"), ",".join(sorted(x.get("currencies", [])))] + opt_from(x, "booking", str_from)
    if k == "balance":
        return [g("acc"), str(need(x, "units")), g("cur")] + [str(t) for t in opt_from(x, "tolerance", str)]
    if k == "price":
        p = need(x, "price")
        check_keys(p, "per-unit cur", "price")
        return [g("cur"), str(need(p, "per-unit")), str_from(need(p, "cur"))]
    if k == "custom":
        return [g("type")] + [meta_from(v) for v in need(x, "values")]
    if k == "txn":
        return []
    return [g(f) for f in KEYS[k].split()]


def booked_posting(x):
    check_keys(x, "idx flag acc units cur cost price tags links metadata", "booked posting")

    def cost_from(c):
        check_keys(c, "date per-unit total cur label merge", "cost")
        return {"date": date_int(str_from(need(c, "date"))), "per": dec_from(need(c, "per-unit")),
                "total": dec_from(need(c, "total")), "cur": str_from(need(c, "cur")),
                "label": opt_from(c, "label", str_from), "merge": c.get("merge", False)}

    def price_from(c):
        check_keys(c, "per-unit total cur", "price")
        return {"per": dec_from(need(c, "per-unit")), "total": opt_from(c, "total", dec_from),
                "cur": str_from(need(c, "cur"))}

    res = {"idx": opt_from(x, "idx", int_from), "acc": str_from(need(x, "acc")),
           "units": dec_from(need(x, "units")), "cur": str_from(need(x, "cur")),
           "cost": opt_from(x, "cost", cost_from), "price": opt_from(x, "price", price_from),
           "flag": opt_from(x, "flag", str_from)}
    res.update(common_from(x))
    return res


def booked_from(x):
    """A booked directive as the specification sees it."""
    res = {"idx": int_from(need(x, "idx")), "kind": str_from(need(x, "dct")),
           "date": date_int(str_from(need(x, "date"))), "body": body_from(x),
           "flag": "", "payee": [], "narration": [], "ps": []}
    if "span" in x:
        raise Malformed("span in a booked directive")
    res.update(common_from(x))
    if res["kind"] == "txn":
        res["flag"] = str_from(need(x, "flag"))
        res["payee"] = opt_from(x, "payee", str_from)
        res["narration"] = opt_from(x, "narration", str_from)
        res["ps"] = [booked_posting(p) for p in need(x, "postings")]
    return res


def spec_from(c, keys):
    check_keys(c, keys, "spec")
    return {"per": opt_from(c, "per-unit", dec_from), "total": opt_from(c, "total", dec_from),
            "cur": opt_from(c, "cur", str_from)}


def raw_posting(x):
    check_keys(x, "span flag acc units cur cost-spec price-spec tags links metadata", "posting")

    def cost_from(c):
        r = spec_from(c, "per-unit total cur date label merge")
        r.update(date=opt_from(c, "date", lambda d: date_int(str_from(d))),
                 label=opt_from(c, "label", str_from), merge=c.get("merge", False))
        return r

    res = {"acc": str_from(need(x, "acc")), "units": opt_from(x, "units", dec_from),
           "cur": opt_from(x, "cur", str_from), "cost": opt_from(x, "cost-spec", cost_from),
           "price": opt_from(x, "price-spec", lambda c: spec_from(c, "per-unit total cur")),
           "flag": opt_from(x, "flag", str_from)}
    res.update(common_from(x))
    return res


def raw_from(x):
    """A parsed directive as the specification sees it (with span)."""
    kw = {"acc": "", "source": "", "curs": [], "booking": [], "units": {"m": "0", "s": 0}, "cur": "",
          "tol": [], "flag": "", "payee": [], "narration": [], "ps": []}
    k = str_from(need(x, "dct"))
    res = {"kind": k, "date": date_int(str_from(need(x, "date"))), "body": body_from(x)}
    res.update(common_from(x))
    if k == "txn":
        kw["flag"] = str_from(need(x, "flag"))
        kw["payee"] = opt_from(x, "payee", str_from)
        kw["narration"] = opt_from(x, "narration", str_from)
        kw["ps"] = [raw_posting(p) for p in need(x, "postings")]
    elif k == "open":
        kw.update(acc=x["acc"], curs=sorted(x.get("currencies", [])), booking=opt_from(x, "booking", str))
    elif k == "balance":
        kw.update(acc=x["acc"], units=dec_from(x["units"]), cur=x["cur"], tol=opt_from(x, "tolerance", dec_from))
    elif k == "pad":
        kw.update(acc=x["acc"], source=x["source"])
    elif k == "close":
        kw.update(acc=x["acc"])
    res.update(kw)
    return res


# ------------------------------------------------------------------ errors
def message(reason):
    """The message of an error: its class and what varies in it."""
    m = {"cls": "text", "text": reason, "at": [], "nums": [], "curs": []}
    x = re.fullmatch(r"(.*) on posting (\d+)", reason, re.S)
    if x:
        return dict(m, text=x.group(1), at=[int(x.group(2))])
    N = r"(-?\d+(?:\.\d+)?)"
    x = re.fullmatch(r"accumulated %s, error %s (\S+)" % (N, N), reason)
    if x:
        return dict(m, cls="balance", text="", nums=[dec(x.group(1)), dec(x.group(2))], curs=[x.group(3)])
    p = "unbalanced transaction with residual "
    if reason.startswith(p):
        parts = [re.fullmatch(N + r" (\S+)", t) for t in reason[len(p):].split(", ")]
        if all(parts):
            return dict(m, cls="unbalanced", text="", nums=[dec(t.group(1)) for t in parts],
                        curs=[t.group(2) for t in parts])
    p = "can't have auto-post with multiple currencies "
    if reason.startswith(p):
        return dict(m, cls="multi", text="", curs=sorted(reason[len(p):].split(",")))
    return m


def rows(annotation):
    """The rows of the table of a failed balance."""
    res = []
    for line in annotation.split("\n"):
        if not line.strip():
            continue
        N = r"(-?\d+(?:\.\d+)?)"
        x = re.fullmatch(r"(\d{4}-\d\d-\d\d)\s+(?:(:\S*)\s+)?%s\s+%s(?:\s+(\S.*?))?\s*" % (N, N), line)
        if x:
            res.append({"date": date_int(x.group(1)), "acc": x.group(2) or "", "units": dec(x.group(3)),
                        "total": dec(x.group(4)), "desc": x.group(5) or ""})
        else:
            res.append({"date": 0, "acc": line, "units": dec("0"), "total": dec("0"), "desc": ""})
    return res


def indexed_error(x):
    """An error of a book request with parameters."""
    check_keys(x, "reason idx related annotation", "error")
    idx = [int_from(i) for i in need(x, "idx")]
    if len(idx) not in (1, 2):
        raise Malformed("idx %r" % (idx,))
    return {"msg": message(str_from(need(x, "reason"))), "idx": idx,
            "rel": [[int_from(i) for i in r] for r in x.get("related", [])],
            "rows": rows(x.get("annotation", "")), "head": "", "ctx": [], "rlab": []}


def spanned_error(x, where):
    """An error with spans; where maps a span to the index of its element."""
    check_keys(x, "message reason span contexts related annotation", "report")

    def at(s):
        i = where.get(tuple(int_from(n) for n in s))
        return list(i) if i else [999999]

    def pairs(k):
        return [(str_from(lab), at(s)) for lab, s in x.get(k, [])]
    return {"msg": message(str_from(need(x, "reason"))), "idx": at(need(x, "span")),
            "rel": [i for _, i in pairs("related")], "rlab": [l for l, _ in pairs("related")],
            "ctx": [{"lab": l, "idx": i} for l, i in pairs("contexts")],
            "head": str_from(need(x, "message")), "rows": rows(x.get("annotation", ""))}


def spans_of(directives):
    """span -> index, from the answer to parser.directives"""
    res = {}
    for i, d in enumerate(directives):
        for k, p in enumerate(d.get("postings", [])):
            res.setdefault(tuple(int_from(n) for n in p["span"]), (i, k))
        res[tuple(int_from(n) for n in d["span"])] = (i,)
    return res
