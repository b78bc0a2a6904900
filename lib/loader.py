"""Beanfiles made of declarations, as spec/Loader.tla sees them: rendered to text
in many ways, given to the real server, and what it says of them abstracted."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import model, pod
from model import dec, directive, posting
from common import *

EMPTY = {"status": "other", "dirs": [], "opts": [], "plugins": [], "errs": [], "warns": [], "same": True, "why": ""}


# ------------------------------------------------------------------ rendering
class Plain:
    """Renders declarations in the plainest way."""
    def __init__(self, seed=None):
        self.r = random.Random(seed) if seed is not None else None

    def p(self, x):
        return self.r is not None and self.r.random() < x

    def ch(self, *xs):
        return self.r.choice(xs) if self.r else xs[0]

    def sp(self):
        return self.ch(" ", " ", " ", "  ", "\t", "   ") if self.p(0.3) else " "

    def date(self, d):
        s = model.date_str(d)
        return s.replace("-", "/") if self.p(0.15) else s

    def quote(self, s):
        res = ""
        for c in s:
            if c in "\\\"":
                res += "\\" + c
            elif c == "\n" and self.p(0.5):
                res += "\\n"
            elif c == "\t" and self.p(0.5):
                res += "\\t"
            else:
                res += c
        return '"' + res + '"'

    def strings(self, *ss):
        return self.sp().join(self.quote(s) for s in ss)

    # numbers, possibly as expressions; level binds: 0 sum, 1 product, 2 factor
    def num(self, e, level=0):
        if "op" not in e:
            s = model.num(e)
            neg = s.startswith("-")
            i, dot, f = s.lstrip("-").partition(".")
            if len(i) > 3 and self.p(0.5):
                i = re.sub(r"(?<=\d)(?=(\d{3})+$)", ",", i)
            s = i + dot + f
            if neg:
                s = "-" + s
            elif self.p(0.03):
                s = "+" + s
            return s
        if e["op"] == "neg":
            return "-(" + self.num(e["a"]) + ")"
        x = {"+": 0, "-": 0, "*": 1, "/": 1}[e["op"]]
        o = self.ch(" ", " ", "")
        s = self.num(e["a"], x) + o + e["op"] + o + self.num(e["b"], x + 1)
        return "(" + s + ")" if x < level or self.p(0.1) else s

    def value(self, v):
        t, x = v[0], v[2:]
        if t == "S":
            return self.quote(x)
        if t == "D":
            return self.date(int(x.replace("-", "")))
        if t in "NU":
            n, _, c = x.partition(" ")
            return self.num(dec(n)) + (self.sp() + c if c else "")
        if t == "Z":
            return "NULL" if self.p(0.4) else ""
        return model.meta_text(v)

    def comment(self, prob=0.12):
        return self.sp() + self.ch("; note", ";", ';; say "hi', "; \u20ac x") if self.p(prob) else ""

    def cost(self, c):
        n = ""
        if c["per"]:
            n = self.num(c["per"][0])
        if c["total"]:
            n = (n + " " if n else "") + "#" + self.sp() + self.num(c["total"][0])
        if c["cur"]:
            n = (n + self.sp() if n else "") + c["cur"][0]
        parts = [n] if n else []
        rest = []
        if c["date"]:
            rest.append(self.date(c["date"][0]))
        if c["label"]:
            rest.append(self.quote(c["label"][0]))
        if c["merge"]:
            rest.append("*")
        if self.r:
            self.r.shuffle(rest)
        sep = self.ch(", ", ",", " , ")
        text = ""
        for part in parts + rest:       # (a comma between digits is part of a number)
            joined = sep == "," and text[-1:].isdigit() and part[0].isdigit()
            text += (", " if joined else sep if text else "") + part
        return "{" + text + "}"

    def price(self, p):
        if p["total"]:
            return "@@" + self.sp() + self.sp().join([self.num(p["total"][0])] + p["cur"])
        return self.sp().join(["@"] + [self.num(x) for x in p["per"]] + p["cur"])

    def flag(self, f):
        return f

    def posting(self, p):
        parts = [self.flag(f) for f in p["flag"]] + [p["acc"]] + [self.num(u) for u in p["units"]] + p["cur"]
        parts += [self.cost(c) for c in p["cost"]] + [self.price(x) for x in p["price"]]
        return self.sp().join(parts)

    def below(self, x, indent, inline):
        """Metadata lines of x: its keys, and tags and links not inline."""
        res = [k + ":" + (self.ch(" ", "  ", "") if self.r else " ") + self.value(v) for k, v in x["meta"]]
        res += inline
        if self.r:
            self.r.shuffle(res)
        return [indent + l.rstrip() + self.comment(0.05) for l in res]

    def dir_lines(self, d):
        """The lines of a directive, and for each posting where it starts."""
        k, sp = d["kind"], self.sp
        head = self.date(d["date"]) + sp()
        b = d["body"]
        if k == "txn":
            head += "txn" if d["flag"] == "*" and self.p(0.3) else self.flag(d["flag"])
            if d["payee"]:
                head += sp() + self.quote(d["payee"][0]) + sp() + self.quote((d["narration"] or [""])[0])
            elif d["narration"]:
                head += sp() + self.quote(d["narration"][0])
        elif k == "open":
            head += "open" + sp() + d["acc"] + (sp() + self.ch(",", " , ", ", ").join(d["curs"]) if d["curs"] else "")
            head += "".join(sp() + '"' + x.upper().replace("-", "_") + '"' for x in d["booking"])
        elif k == "balance":
            head += "balance" + sp() + d["acc"] + sp() + self.num(d["units"])
            head += "".join(sp() + "~" + sp() + model.num(t) for t in d["tol"]) + sp() + d["cur"]
        elif k == "price":
            head += "price" + sp() + b[0] + sp() + self.num(d["units"]) + sp() + b[2]
        elif k in ("close", "commodity", "pad"):
            head += k + "".join(sp() + x for x in b)
        elif k in ("document", "note"):
            head += k + sp() + b[0] + sp() + self.quote(b[1])
        elif k in ("event", "query"):
            head += k + sp() + self.strings(*b)
        elif k == "custom":
            head += "custom" + sp() + self.quote(b[0]) + "".join(sp() + self.value(v) for v in b[1:])
        inline, under = [], []
        for t in ["#" + t for t in d["tags"]] + ["^" + l for l in d["links"]]:
            (under if k == "custom" or self.p(0.2) else inline).append(t)
        indent = lambda: self.ch("  ", " ", "    ", "\t") if self.p(0.3) else "  "
        lines = [head + "".join(sp() + t for t in inline) + self.comment()]
        lines += self.below(d, indent(), under)
        starts = []
        for p in d["ps"]:
            i = indent()
            if self.p(0.04):
                lines.append(i + "; between")
            at = len("\n".join(lines).split("\n"))
            lines.append(i + self.posting(p) + self.comment())
            starts.append((at, "\n".join(lines).split("\n")[at:]))
            lines += self.below(p, i + indent(), [t for t in ["#" + t for t in p["tags"]] + ["^" + l for l in p["links"]]])
        return "\n".join(lines).split("\n"), starts

    def item(self, it):
        """The lines of a declaration; completes it with what depends on them."""
        k, sp = it["kind"], self.sp
        it["posts"] = []
        starts = []
        if k == "dir":
            lines, starts = self.dir_lines(it["d"])
        elif k in ("pushtag", "poptag"):
            lines = [k + sp() + "#" + it["tag"] + self.comment()]
        elif k == "pushmeta":
            lines = [k + sp() + it["key"] + ": " + self.value(it["val"])]
        elif k == "popmeta":
            lines = [k + sp() + it["key"] + ":" + self.comment()]
        elif k == "include":
            lines = [k + sp() + self.quote(it["pattern"])]
        elif k == "option":
            lines = (k + sp() + self.strings(it["name"], it["raw"])).split("\n")
        elif k == "plugin":
            lines = (k + sp() + self.strings(it["name"], *it["config"])).split("\n")
        else:
            lines = it["bad"].split("\n")
        it["lines"] = len(lines)
        it["text"] = bare("\n".join(lines))
        it["_starts"] = starts
        return "\n".join(lines).split("\n")


def bare(text):
    """Text without comments and blank lines."""
    res = []
    inside = False
    for n, line in enumerate(text.split("\n")):
        out = ""
        for k, c in enumerate(line):
            if c == '"' and not (inside and odd_escapes(line, k)):
                inside = not inside
            if c == ";" and not inside:
                break
            if k == 0 and n > 0 and not inside and c in "*!&#?%:":
                break
            out += c
        out = out.rstrip() if not inside else out
        if out.strip() or inside:
            res.append(out)
    return "\n".join(res).strip()


def odd_escapes(line, k):
    n = 0
    while k - n - 1 >= 0 and line[k - n - 1] == "\\":
        n += 1
    return n % 2 == 1


def strings_of(text, first):
    """The strings of a text: line on which each begins, and how many lines as read."""
    res, k, line = [], 0, first
    while k < len(text):
        c = text[k]
        if c == ";":
            while k < len(text) and text[k] != "\n":
                k += 1
            continue
        if c == "\n":
            line += 1
        if c == '"':
            at, n = line, 1
            k += 1
            while text[k] != '"':
                if text[k] == "\\":
                    k += 1
                    if text[k] == "n":
                        n += 1
                elif text[k] == "\n":
                    n += 1
                    line += 1
                k += 1
            res.append({"line": at, "n": n})
        k += 1
    return res


def render(files, plain=True, seed=None):
    """The text of each file; fills in lines and texts of its items."""
    texts = []
    for k, f in enumerate(files):
        r = Plain(None if plain else "%s-%d" % (seed, k))
        text = ""
        if not f["readable"]:
            texts.append(None)
            continue
        for it in f["items"]:
            if r.p(0.3):
                text += r.ch("\n", "; a comment \u00e9.\n", "\n\n", "* heading\n" if text else "\n", "  \n", ";\n")
            lines = r.item(it)
            it["line"] = text.count("\n") + 1
            it["posts"] = [{"line": it["line"] + at, "text": bare("\n".join(ls))} for at, ls in it.pop("_starts")]
            it["strs"] = strings_of("\n".join(lines), it["line"])
            text += "\n".join(lines) + "\n"
        if r.p(0.15) and f["items"] and f["items"][-1]["kind"] != "pushmeta":
            text = text[:-1]
        if r.p(0.1):
            text = text.replace("\n", "\r\n") if "\n" not in "".join(literals(text)) else text
        texts.append(text)
    return texts


def literals(text):
    return re.findall(r'"(?:[^"\\]|\\.)*"', text, re.S)


# ------------------------------------------------------------------ running
LIMIT = 200


def abstract_options(o):
    """Served options as a list of key, k, v."""
    res = []
    for key, v in o.items():
        if key == "inferred-tolerance-default":
            res += [{"key": key, "k": model.str_from(c), "v": model.num(model.dec_from(x))} for c, x in v.items()]
        elif key in ("documents", "operating-currency"):
            if not v:
                raise model.Malformed("empty " + key)
            norm = os.path.normpath if key == "documents" else str
            res += [{"key": key, "k": norm(model.str_from(x)), "v": ""} for x in v]
        elif key in ("inferred-tolerance-default-fallback", "inferred-tolerance-multiplier"):
            res.append({"key": key, "k": "", "v": model.num(model.dec_from(v))})
        elif key in ("infer-tolerance-from-cost", "render-commas"):
            if not isinstance(v, bool):
                raise model.Malformed("%s %r" % (key, v))
            res.append({"key": key, "k": "", "v": "true" if v else "false"})
        else:
            res.append({"key": key, "k": "", "v": model.str_from(v)})
    return res


def run_case(scratch, c):
    """Write the files of a case and ask the real server about them."""
    d = scratch.path("load-%s" % c["id"])
    os.makedirs(d)
    try:
        for f, t in zip(c["files"], c["texts"]):
            p = os.path.join(d, f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(b"; \xff\xfe\n" if t is None else t.encode("utf8"))
        c["obs"] = ask(c["files"][0]["name"], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c


def ask(root, d):
    reqs = [pod.request("parser.directives", 1), pod.request("parser.options", 2), pod.request("parser.plugins", 3)]
    r = pod.serve(root, reqs + [pod.request("book", 4)], cwd=d)
    try:
        a = [pod.loads(l) for l in r.lines]
        if len(a) < 3:
            return dict(EMPTY, why="%d answers, exit %s: %s" % (len(a), r.code, r.err[-500:].decode("utf8", "replace")))
        if all("result" in x for x in a[:3]):
            return good(root, d, *[x["result"] for x in a[:3]])
        errs = [x["error"]["data"] if x.get("error", {}).get("code") == "2" else None for x in a[:4]]
        if errs[0] is None or len(errs) < 4:
            return dict(EMPTY, why="answers differ: %s" % r.lines)
        return bad(root, d, errs)
    except (ValueError, KeyError, TypeError, AttributeError, IndexError, model.Malformed) as x:
        return dict(EMPTY, why="malformed answer (%s: %s): %s" % (type(x).__name__, x, [l[:600] for l in r.lines]))


def resolve(root, d, spans):
    if not spans:
        return []
    r = pod.serve(root, [pod.request("parser.resolve-spans", 1, spans)], cwd=d)
    return [{"file": os.path.normpath(x["file-name"]), "line": int(x["start-line"]), "text": bare(x["content"])}
            for x in pod.loads(r.lines[0])["result"]]


def good(root, d, directives, options, plugins):
    ds = directives["directives"]
    spans = [x["span"] for x in ds] + [p["span"] for x in ds for p in x.get("postings", [])]
    warns = directives["warnings"]
    if warns is not None and not warns:
        raise model.Malformed("empty warnings")
    warns = warns or []
    wspans = report_spans(warns)
    at = resolve(root, d, spans + wspans)
    k = len(ds)
    res = []
    for x, p in zip(ds, at):
        n = len(x.get("postings", []))
        raw = model.raw_from(x)
        raw["body"] = [re.sub(r"^-(0(\.0*)?)$", r"\1", t) for t in raw["body"]]    # no sign of zero
        res.append({"r": raw, "at": p, "posts": at[k:k + n]})
        k += n
    for p in plugins:
        if set(p) != {"name", "config"}:
            raise model.Malformed("plugin %r" % p)
    return dict(EMPTY, status="ok", dirs=res, opts=abstract_options(options),
                plugins=[{"name": model.str_from(p["name"]), "config": model.opt(p["config"])} for p in plugins],
                warns=reports(warns, at[k:]))


def report_spans(rs):
    return [s for e in rs for s in [e["span"]] + [s for _, s in e.get("related", [])]]


def reports(rs, at):
    res, k = [], 0
    for e in rs:
        model.check_keys(e, "message reason span contexts related", "report")
        place = lambda p: {"file": p["file"], "line": p["line"]}
        rel = [lab for lab, _ in e.get("related", [])]
        reason = e["reason"]
        message = e["message"]
        if message == "duplicate include" and reason.startswith("context "):
            reason = "context"
            rel = ["context" if l.startswith("context ") else l for l in rel]
        res.append({"msg": message, "reason": reason, "at": place(at[k]),
                    "rel": [{"lab": l, "at": place(at[k + 1 + j])} for j, l in enumerate(rel)]})
        k += 1 + len(rel)
    return res


def bad(root, d, errs):
    canon = lambda e: None if e is None else sorted(json.dumps(x, sort_keys=True) for x in e)
    same = all(canon(e) == canon(errs[0]) for e in errs)
    rs = errs[0]
    return dict(EMPTY, status="err", errs=reports(rs, resolve(root, d, report_spans(rs))), same=same)


def run_cases(scratch, cases):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda c: run_case(scratch, c), cases))


def judge(scratch, prop, cases, keep_going=False, timeout=800):
    d = spec_dir(scratch)
    path = scratch.path("cases.ndjson")
    r = tlc_cases(d, "LoaderTrace", path, [{k: c[k] for k in ("id", "files", "obs")} for c in cases], env={"CASES": path, "PROP": prop},
                  timeout=timeout, args=["-continue"] if keep_going else [])
    runs = []
    for t in r.prints("RUN"):
        m = re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"(\w+)",\s*(\d+),\s*(\{.*\})\s*>>$', t)
        if not m:
            raise ToolError("cannot read TLC output: " + t)
        runs.append((m.group(1), m.group(2), int(m.group(3)), set(re.findall(r"C\d\d", m.group(4)))))
    return r, runs
