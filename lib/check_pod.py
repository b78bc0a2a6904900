"""The checks of the server's protocol: Pod explored exhaustively on small
universes of requests, those sessions replayed into the real server, and random
sessions, all judged by TLC (PodTrace)."""
import itertools, json, os, random, time
from concurrent.futures import ThreadPoolExecutor
import model
from podcase import *
from common import *

ASSUME = ["the Python abstraction of requests and replies (podcase.py) is faithful",
          "text of error messages is compared only between equal requests"]

D = model.dec
OK_DIRS = [model.directive("open", 20200101, acc="Assets:Bank"), model.directive("open", 20200101, acc="Equity:Opening"),
           model.directive("txn", 20200102, flag="*", narration=["n"],
                           ps=[model.posting("Assets:Bank", D("5.00"), "USD"), model.posting("Equity:Opening")])]
OK = [model.directive_json(d) for d in OK_DIRS]
FAULTY = OK[2:]


def spanned(d):
    """as the client gives directives it got from the parser"""
    d = dict(d, span=[0, 20, 60])
    if "postings" in d:
        d["postings"] = [dict(p, span=[0, 30, 40]) for p in d["postings"]]
    return d


OK_SPANS, FAULTY_SPANS = [spanned(d) for d in OK], [spanned(d) for d in FAULTY]
M = {"errors": "parser.format-errors", "warnings": "parser.format-warnings", "resolve": "parser.resolve-spans",
     "create": "parser.create-synthetic-spans"}

# ---------------------------------------------------------------- beanfiles
HEAD = """; caf\u00e9 \u20ac \U0001F631
option "title" "Ledger"
option "booking_method" "FIFO"
plugin "some.plugin"
plugin "other.plugin" "config \u00e9"
"""
GOOD = """2020-01-01 open Assets:Bank USD,EUR
2020-01-01 open Equity:Opening
2020-01-02 * "payee" "narration \u20ac" #tag-a #tag-b ^link-a ^link-b
  key: "value"
  Assets:Bank  5.00 USD
  Equity:Opening

2020-01-03 balance Assets:Bank 5.00 USD
"""
INC = """; included \u00e9\u00e9
2020-01-04 event "location" "Caf\u00e9"
2020-01-05 note Assets:Bank "hello"
"""
FAULTS = """2020-01-06 * "not balanced"
  Assets:Bank  5.00 USD
  Equity:Opening  -4.00 USD
2020-01-07 balance Assets:Nowhere 1 USD
"""
BROKEN = "2020-01-06 open nonsense here\n2020-01-07 balance Assets:Bank\n"
COMMENTS = "abc \u00e9\u20ac\U0001F631;x\u00df\u4e2d"


class World:
    """A beanfile on disk."""
    def __init__(self, scratch, name, kind, rng=None, absolute=False):
        self.kind = kind
        self.dir = scratch.path("world-%s" % name)
        os.makedirs(os.path.join(self.dir, "sub"))
        root = os.path.join(self.dir, "root.beancount") if absolute else "root.beancount"
        pre = os.path.dirname(root) + "/" if absolute else ""
        self.path = root
        self.sources = []
        files = []
        if kind == "unreadable":
            what = rng.randrange(3) if rng else 0
            if what == 0:
                pass
            elif what == 1:
                os.mkdir(os.path.join(self.dir, "root.beancount"))
            else:
                with open(os.path.join(self.dir, "root.beancount"), "wb") as f:
                    f.write(b"2020-01-01 open Assets:Bank\n\xff\xfe\n")
        else:
            body = HEAD + 'include "sub/one.beancount"\n' + GOOD
            one, two = INC, '2020-01-08 commodity USD\n'
            if kind == "faulty":
                body += FAULTS
            if kind == "broken":
                if rng and rng.random() < 0.5:
                    one += BROKEN
                else:
                    body += BROKEN
            files = [(root, "root.beancount", body), (pre + "sub/one.beancount", "sub/one.beancount", one)]
            if not rng or rng.random() < 0.7:
                files[1] = (files[1][0], files[1][1], 'include "two.beancount"\n' + one)
                files.append((pre + "sub/two.beancount", "sub/two.beancount", two))
            if rng:
                files = [(n, p, t + "".join("; %s\n" % "".join(rng.choice(COMMENTS) for _ in range(rng.randrange(12)))
                                            for _ in range(rng.randrange(4)))) for n, p, t in files]
            for n, p, t in files:
                with open(os.path.join(self.dir, p), "w") as f:
                    f.write(t)
                self.sources.append({"name": n, "text": cps(t)})
        self.texts = [t for _, _, t in files]

    def model(self):
        return {"kind": self.kind, "path": self.path,
                "sources": self.sources or [{"name": self.path, "text": []}]}

    def places(self, k):
        """Spans of source k which a parser might give: line by line."""
        res, at = [], 0
        for line in self.texts[k].split("\n"):
            n = len(line.encode("utf8"))
            if line.strip() and "\t" not in line:
                res.append([k, at, at + n])
            at += n + 1
        return res


# ---------------------------------------------------------------- requests
def nums(x):
    """Python ints as JSON numbers."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return pod.Num(x)
    if isinstance(x, list):
        return [nums(y) for y in x]
    if isinstance(x, dict):
        return {k: nums(v) for k, v in x.items()}
    return x


def req(method=None, id=1, params=NONE, bad=False, **kw):
    r = request(method, id, nums(params) if params is not NONE else params, **kw)
    if bad:
        r["abs"]["params"] = "bad"
        r["abs"]["spans"], r["abs"]["frags"], r["abs"]["reports"], r["checks"] = [], [], [], []
        set_key(r["abs"], {}, r["line"])
    return r


def report(span, message="Message", reason="reason why", ctx=None, rel=None, ann=None):
    r = {"message": message, "reason": reason, "span": span}
    if ctx:
        r["contexts"] = ctx
    if rel:
        r["related"] = rel
    if ann is not None:
        r["annotation"] = ann
    return r


IDS = [NONE, None, 0, 7, -1, pod.Num("1.5"), pod.Num("12345678901234567890123"), pod.Num("1e3"), "", "a", "quote\"\\ \u00e9\n\U0001F631",
       "null", True, [], {"a": 1}]


def id_text(id):
    return nums(id)


ALL = ["status", "parser.plugins", "parser.directives", "parser.options", "book"]


def protocol(rng=None):
    """Requests good and bad."""
    L = []
    for id in IDS:
        L.append(request("status", id_text(id) if id is not NONE else NONE))
    L += [req("status", 1, ver="1.0"), req("book", "x", ver="2.1"), req("parser.options", None, ver=""),
          req("parser.resolve-spans", 5, [[0, 0, 5]], ver="3.0"), req("parser.resolve-spans", 5, ver="3.0"),
          req("status", 2, ver=None), req("status", 2, ver=pod.Num("2.0")), req("status", 2, ver=["2.0"])]
    for m in (None, "", "Status", "parser", "parser.nothing", "parser.Plugins", "books", "parser.format", "resolve-spans", "status "):
        L.append(req(m, 3))
    for m in ALL[:4]:
        L += [req(m, 4, []), req(m, 4, {"a": 1}), req(m, 4, None), req(m, 4, "x"), req(m, 4, extra={"other": pod.Num(1)})]
    for m in ("parser.format-errors", "parser.format-warnings", "parser.resolve-spans", "parser.create-synthetic-spans"):
        L += [req(m, 5), req(m, 5, None), req(m, 5, {}), req(m, 5, "x"), req(m, 5, 1), req(m, 5, [1], bad=True),
              req(m, 5, [None], bad=True), req(m, 5, [[]], bad=True), req(m, 5, [{}], bad=True), req(m, 5, [])]
    L += [req("parser.resolve-spans", 6, [[0, 1]], bad=True), req("parser.resolve-spans", 6, [[0, 1, 2, 3]], bad=True),
          req("parser.resolve-spans", 6, [[0, -1, 2]], bad=True), req("parser.resolve-spans", 6, [[0, 0, 5], "x"], bad=True),
          req("parser.create-synthetic-spans", 6, [{"name": "x"}], bad=True),
          req("parser.create-synthetic-spans", 6, [{"name": "x", "content": "y"}, {"content": "y"}], bad=True),
          req("parser.format-errors", 6, [{"message": "m", "reason": "r"}], bad=True),
          req("parser.format-errors", 6, [{"message": "m", "span": [0, 0, 5]}], bad=True)]
    L += [req("book", 7), req("book", 7, None), req("book", 7, []), req("book", 7, OK), req("book", 7, FAULTY, ok=False), req("book", 7, OK_SPANS), req("book", 7, FAULTY_SPANS, ok=False),
          req("book", 7, FAULTY_SPANS + FAULTY, ok=False),
          req("book", 7, {}), req("book", 7, "x"), req("book", 7, [1], bad=True), req("book", 7, [{}], bad=True),
          req("book", 7, OK + [{"dct": "open"}], bad=True), req("book", 7, OK + [{"dct": "nothing", "date": "2020-01-01"}], bad=True),
          req("book", 7, OK + [{"dct": "open", "date": "2020-13-01", "acc": "Assets:A"}], bad=True)]
    for l in ("", "{", "null", "1", "\"status\"", "[]", "[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"}]", "{}", "x",
              "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"} x", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"",
              "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\",}",
              "{\"jsonrpc\":\"2.0\",\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"}", "{'jsonrpc':'2.0'}",
              "\u00e9", "\u0000",
              # surrogates stand for bytes which are not UTF-8
              "\udcff", "\udcc3", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"status\"}\udc80",
              "{\"jsonrpc\":\"2.0\",\"id\":\"\udce9\",\"method\":\"status\"}"):
        L.append(raw(l))
    return L


def order_keys(seed):
    return lambda k: digest("%s:%s" % (seed, k))


# ---------------------------------------------------------------- themes
FOUR = ("good", "faulty", "broken", "unreadable")


def small_protocol():
    return [req("status", "a"), req("status", NONE), req("status", True), req("status", 9, ver="1.0"), req("status", 9, ver=None),
            req("nothing", 9), raw("{"), raw(""), req("parser.plugins", -1), req("parser.directives", pod.Num("2.5")),
            req("parser.options", "\u00e9"), req("book", 3), req("book", 4, OK), req("book", 5, FAULTY, ok=False),
            req("book", 6, {}), req("parser.resolve-spans", 7, [[0, 0, 8]]), req("parser.resolve-spans", 7),
            req("parser.create-synthetic-spans", 8, [{"name": "x", "content": "ab\n"}]),
            req("parser.format-errors", 9, [report([0, 12, 20])])]


def synthetic():
    c = lambda *f: req("parser.create-synthetic-spans", 1, [{"name": n, "content": t} for n, t in f])
    return [c(("a", "one")), c(("a", "\n two \n")), c(("b", "\u00e9\n\u20ac")), c(("b", "x y\nz")), c(("a", "")),
            c(("c", "1"), ("c", "22\n"), ("a", "z")), c(),
            req("parser.resolve-spans", 2, [[3, 0, 3], [3, 3, 9], [4, 0, 2], [4, 0, 6], [3, 0, 9], [5, 0, 1]]),
            req("parser.resolve-spans", 2, [[k, i, j] for k in (3, 4) for i in range(4) for j in range(5)]),
            req("parser.resolve-spans", 2, [[0, 0, 12], [1, 0, 10], [2, 0, 4], [6, 0, 1]])]


def spans():
    text = "; caf\u00e9 \u20ac \U0001F631\n"
    L = []
    for src in range(4):
        for start in range(0, 22):
            L.append(req("parser.resolve-spans", 1, [[src, start, end] for end in range(0, 26)]))
        L.append(req("parser.resolve-spans", 1, [[src, s, e] for s in (0, 100, 1000, 10 ** 9) for e in (99, 101, 150, 999, 10 ** 9, 4 * 10 ** 9)
                                                if e < 2 ** 31]))
    return L


def formats():
    E, W = "parser.format-errors", "parser.format-warnings"
    a = report([0, 106, 130], "Alpha", "because")
    b = report([1, 17, 35], "Beta", "why \u00e9", ctx=[["transaction", [0, 106, 130]]], rel=[["open", [2, 0, 10]]])
    c = report([0, 20, 60], "Gamma", "several lines", ann="note\nmore")
    d = dict(a, annotation="text\n\nof annotation")
    return [req(E, 1, []), req(E, 1, [a]), req(W, 1, [a]), req(E, 1, [b]), req(W, 1, [b]), req(E, 1, [{k: v for k, v in c.items() if k != "annotation"}]),
            req(E, 1, [c]), req(E, 1, [d]), req(W, 1, [d]), req(E, 1, [a, b]), req(E, 1, [b, a]), req(E, 1, [a, a]), req(E, 1, [c, d, b]),
            req(W, 1, [a, b]), req(W, 1, [d, b, a]), req("parser.create-synthetic-spans", 1, [{"name": "syn", "content": "made up"}]),
            req(E, 1, [dict(a, contexts=None, related=None, annotation=None)])]


def memory():
    return [req("parser.plugins", 1), req("parser.directives", 2), req("parser.options", 3), req("book", 4), req("book", 5, OK),
            req("book", 6, FAULTY, ok=False), req("parser.resolve-spans", 7, [[0, 20, 60], [1, 0, 9], [9, 1, 2]]),
            req("parser.format-errors", 8, [report([0, 106, 130])]), req("parser.format-warnings", 8, [report([0, 106, 130])]),
            req("parser.create-synthetic-spans", 9, [{"name": "x", "content": "ab\n"}]), raw("{"), req("status", 10)]


THEMES = {"protocol": (small_protocol, FOUR), "synthetic": (synthetic, ("good", "broken")),
          "spans": (spans, ("good", "broken")), "formats": (formats, ("good", "faulty", "broken")), "memory": (memory, FOUR),
          "memory-logged": (memory, FOUR), "everything": (protocol, FOUR)}

CONF = {
    "C18": dict(quick=[("spans", 1)], thorough=[("spans", 1), ("synthetic", 3)], w=dict(resolve=12, create=2, format=0)),
    "C19": dict(quick=[("synthetic", 3)], thorough=[("synthetic", 4)], w=dict(resolve=10, create=10, format=0)),
    "C20": dict(quick=[("everything", 1), ("protocol", 2)], thorough=[("everything", 2), ("protocol", 3)], w=dict(protocol=20)),
    "C21": dict(quick=[("everything", 1), ("memory", 2)], thorough=[("memory", 3), ("protocol", 3)], w=dict(protocol=8, method=10)),
    "C22": dict(quick=[("memory", 2)], thorough=[("memory", 4)], w=dict(method=20, create=4), sessions=3),
    "C23": dict(quick=[("formats", 2)], thorough=[("formats", 3)], w=dict(format=20, create=3, method=1), singles=True),
    "C24": dict(quick=[("memory-logged", 2)], thorough=[("memory-logged", 3)], w=dict(method=10, protocol=6), sessions=3, logged=0.6),
}
COUNT = {"quick": 300, "thorough": 5000}


class Gen:
    """Random sessions with a beanfile."""
    def __init__(self, seed, world, conf):
        self.r, self.w, self.conf = random.Random(seed), world, conf
        self.pool = protocol()
        self.seed = seed
        self.reports = []

    def new_session(self):
        self.syn = {}                 # name -> (source, length)

    def boundary(self, text):
        k = self.r.randrange(len(text) + 1)
        return len(text[:k].encode("utf8"))

    def span(self):
        r = self.r
        base = len(self.w.sources) or 1
        what = r.random()
        if what < 0.25 and self.syn:
            src, text = r.choice(list(self.syn.values()))
        elif what < 0.9 and self.w.texts:
            src = r.randrange(len(self.w.texts))
            text = self.w.texts[src]
        else:
            return [base + len(self.syn) + r.randrange(3), r.randrange(4), r.randrange(9)]
        n = len(text.encode("utf8"))
        what = r.random()
        if what < 0.75:
            a, b = self.boundary(text), self.boundary(text)
            if what < 0.7:
                a, b = min(a, b), max(a, b)
                if r.random() < 0.5:
                    # close by, so that it ends anywhere
                    k = len(text.encode("utf8")[:a].decode("utf8", "ignore"))
                    b = a + len(text[k:k + r.randrange(12)].encode("utf8"))
            return [src, a, b]
        if what < 0.9:
            return [src, r.randrange(n + 2), r.randrange(n + 2)]
        return [src, r.randrange(n + 2), n + r.randrange(30)]

    def resolve(self):
        return req(M["resolve"], self.id(), [self.span() for _ in range(self.r.choice([0, 1, 1, 2, 4, 8]))])

    def fragment(self):
        return "".join(self.r.choice("ab \n\n\t\u00e9\u20ac\U0001F631\u00a0\u2028;xyz\"\\") for _ in range(self.r.randrange(10)))

    def create(self):
        r = self.r
        fs = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            # (a synthetic source with the name of a file hides that file in reports)
            name = r.choice(["a", "b", "c", "plugin \u00e9", ""] + ([self.w.path] if self.conf["w"].get("format") == 0 else []))
            text = self.fragment() if r.random() < 0.6 else "".join(r.choice("abc \n") for _ in range(r.randrange(10)))
            if self.w.kind != "unreadable":
                src, old = self.syn.get(name, ((len(self.w.sources)) + len(self.syn), ""))
                self.syn[name] = (src, old + text)
            fs.append({"name": name, "content": text})
        return req(M["create"], self.id(), fs)

    def some_report(self):
        r = self.r
        def place():
            if not self.w.texts:
                return [0, 0, 5]
            k = r.randrange(len(self.w.texts))
            ps = self.w.places(k)
            p = r.choice(ps)
            if r.random() < 0.3:
                q = ps[min(len(ps) - 1, ps.index(p) + r.randrange(1, 4))]
                return [k, p[1], q[2]]
            return p
        if self.reports and r.random() < 0.5:
            return dict(r.choice(self.reports), annotation=r.choice([None, "some text", "two\nlines", "\u00e9"]))
        x = report(place(), r.choice(["Message", "Failed \u00e9", "invalid transaction"]), r.choice(["reason", "because of this", "\u20ac unbalanced"]),
                   ctx=[[l, place()] for l in r.sample(["transaction", "pad", "plugin x", "a", "b"], r.choice([0, 0, 1, 1, 2, 2, 3, 5]))],
                   rel=[[l, place()] for l in r.sample(["open", "close", "balance", "x", "\u00e9 label", "z"], r.choice([0, 0, 1, 1, 2, 2, 4, 6]))])
        if len(self.reports) < 12:
            self.reports.append(x)
        return dict(x, annotation=r.choice([None, None, "ann"]))

    def strip(self, x):
        return {k: v for k, v in x.items() if v is not None}

    def format(self):
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        return req(self.r.choice([M["errors"], M["warnings"]]), self.id(), [self.strip(self.some_report()) for _ in range(n)])

    def method(self):
        r = self.r
        m = r.choice(ALL + ["bookok", "bookbad"])
        if m == "bookok":
            return req("book", self.id(), r.choice([OK, OK_SPANS])[:r.choice([0, 1, 2, 3])])
        if m == "bookbad":
            return req("book", self.id(), r.choice([FAULTY, FAULTY_SPANS]), ok=False)
        return req(m, self.id(), order=order_keys(r.randrange(5)) if r.random() < 0.3 else None)

    def id(self):
        return id_text(self.r.choice(IDS[:-3])) if self.r.random() < 0.5 else self.r.randrange(10 ** 6)

    def protocol(self):
        return self.r.choice(self.pool)

    def session(self):
        r = self.r
        self.new_session()
        w = dict(resolve=2, create=1, format=1, method=4, protocol=3)
        w.update(self.conf.get("w", {}))
        kinds = list(w)
        reqs = []
        if self.conf.get("singles"):
            for _ in range(4):
                x = self.some_report()
                for m in (M["errors"], M["warnings"]):
                    reqs.append(req(m, 1, [{k: v for k, v in x.items() if k != "annotation" and v is not None}]))
        while len(reqs) < 22:
            reqs.append(getattr(self, r.choices(kinds, [w[k] for k in kinds])[0])())
            if r.random() < 0.1:
                reqs.append(r.choice(reqs))
                self.replayed(reqs[-1])
        if r.random() < 0.2:
            for x in reqs:
                if x["abs"]["json"]:
                    x["line"] = r.choice(["", " ", "\t"]) + x["line"] + r.choice(["", "  ", "\t", " \t"])
        s = {"reqs": reqs, "mode": "interactive" if r.random() < 0.4 else "piped", "eol": "\r\n" if r.random() < 0.15 else "\n"}
        if s["mode"] == "piped":
            what = r.random()
            if what < 0.15 and reqs[-1]["line"].strip():
                s["open_end"] = True
        if r.random() < self.conf.get("logged", 0.15):
            s["level"] = r.choice(["", "", "debug", "trace", "info", "warn", "error", "off"])
        return s

    def replayed(self, x):
        for f in x["abs"]["frags"] if x["abs"]["json"] and x["abs"]["params"] == "list" else []:
            name, text = f["name"], "".join(map(chr, f["text"]))
            if self.w.kind != "unreadable":
                src, old = self.syn.get(name, (len(self.w.sources) + len(self.syn), ""))
                self.syn[name] = (src, old + text)


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.conf = CONF[prop]
        self.states = self.transitions = self.traces = self.requests = 0
        self.parts, self.samples, self.codes = [], [], {}
        self.failed = None
        self.n = 0

    def worlds(self, kinds):
        return [World(self.s, "t%d-%s" % (self.n, k), k) for k in kinds]

    def play(self, case):
        for k, s in enumerate(case["sessions"]):
            run_session(s, case["w"].path, case["w"].dir, os.path.join(self.s.dir, "log-%s-%d" % (case["id"], k)))
        return case

    def take(self, cases, what, sample=1):
        with ThreadPoolExecutor(JOBS * 2) as ex:
            list(ex.map(self.play, cases))
        r, bad = judge(self.s, self.prop, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += sum(len(c["sessions"]) for c in cases)
        for c in cases:
            for s in c["sessions"]:
                self.requests += len(s["reqs"])
                for o in s["obs"]:
                    self.codes[str(o["code"])] = self.codes.get(str(o["code"]), 0) + 1
        for c in cases[len(cases) // 2:][:sample]:
            s = c["sessions"][0]
            self.samples.append({"what": what, "beanfile": c["world"]["kind"],
                                 "session": [[q["line"][:200], l[:200]] for q, l in zip(s["reqs"][:6], s["raw"])]})
        self.parts.append("%s: %d cases" % (what, len(cases)))
        if r.violated:
            hits = [b for b in bad if self.prop in b[3]]
            if not hits:
                raise ToolError("TLC reports a violation but no case:\n" + r.out[-3000:])
            c = [c for c in cases if c["id"] == hits[0][0]][0]
            self.failed = (c, hits[0])

    def themes(self):
        for name, depth in self.conf[self.tier]:
            self.n += 1
            make, kinds = THEMES[name]
            reqs = make()
            ws = self.worlds(kinds)
            d = spec_dir(self.s)
            path = self.s.path("theme-%s.ndjson" % name)
            write_ndjson(path, [{"universe": [q["abs"] for q in reqs], "depth": depth, "worlds": [w.model() for w in ws]}])
            r = tlc(d, "PodMC", env={"THEME": path})
            if not r.ok:
                raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
            self.states += r.distinct
            self.transitions += r.generated
            bs = [(int(m.group(1)), [int(x) for x in m.group(2).split(",")])
                  for m in re.finditer(r'<<"B", (\d+), <<([\d, ]*)>>>>', r.out)]
            self.parts.append("theme %s, depth %d: %d states of the specification explored, %d sessions replayed"
                              % (name, depth, r.distinct, len(bs)))
            cases = []
            for i, (wi, ks) in enumerate(sorted(bs)):
                s = {"reqs": [reqs[k - 1] for k in ks], "mode": "interactive" if i % 5 == 0 else "piped"}
                c = {"id": "%s-%d" % (name, i), "w": ws[wi - 1], "world": ws[wi - 1].model(), "sessions": [s]}
                if name == "memory-logged":
                    c["sessions"].append(dict(s, level=["", "debug", "error", "trace", "off"][i % 5]))
                elif name == "memory":
                    c["sessions"].append(dict(s, reqs=s["reqs"][::-1]))
                elif name == "everything" and depth == 1:
                    c["sessions"][0]["reqs"] = s["reqs"] + [req("status", "after")]
                cases.append(c)
            for lo in range(0, len(cases), 4000):
                self.take(cases[lo:lo + 4000], "replay of theme %s" % name, sample=1 if lo == 0 else 0)
                if self.failed:
                    return

    def random(self, count, batch=600):
        for lo in range(0, count, batch):
            cases = []
            for i in range(lo, min(count, lo + batch)):
                seed = SEED * 1000003 + int(self.prop[1:]) * 10007 + i
                r = random.Random(seed)
                kind = r.choice(["good", "good", "faulty", "broken", "unreadable"] if self.prop in ("C20", "C21", "C24")
                                else ["good", "good", "faulty", "broken"])
                w = World(self.s, "r%d" % i, kind, r, absolute=r.random() < 0.3)
                g = Gen(seed, w, self.conf)
                cases.append({"id": "r%d" % i, "w": w, "world": w.model(),
                              "sessions": [g.session() for _ in range(self.conf.get("sessions", 1 + r.randrange(2)))]})
            if lo == 0:
                cases.append(self.large())
            self.take(cases, "random sessions", sample=2 if lo == 0 else 0)
            for c in cases:
                shutil.rmtree(c["w"].dir, ignore_errors=True)
            if self.failed:
                return

    def large(self):
        """Requests and replies larger than any buffer."""
        w = World(self.s, "large", "good")
        one = req("parser.resolve-spans", "large", [[0, 20, 60]] * 3)
        reqs = [req("status", "x" * 300000), req("parser.directives", 2), one, raw("x" * 200000), req("status", 3)]
        return {"id": "large", "w": w, "world": w.model(),
                "sessions": [{"reqs": reqs * 3, "mode": m} for m in ("piped", "interactive")]}

    def report(self):
        c, (_, si, i, flags) = self.failed
        s = c["sessions"][si - 1]
        k = i - 1 if i else len(s["reqs"]) - 1
        show = lambda j: {"request": s["reqs"][j]["line"][:3000], "reply": s["raw"][j][:3000] if j < len(s["raw"]) else None}
        what = {"property": self.prop, "properties_refuted": sorted(flags), "beanfile": c["world"]["kind"],
                "sources": [{"name": x["name"], "text": "".join(map(chr, x["text"]))} for x in c["world"]["sources"]],
                "how": "the specification spec/PodTrace.tla does not allow what was observed "
                       + ("of the last request below" if i else "at the end of this session (exit %s, log as expected: %s)" % (s["exit"], s["log"])),
                "session": [show(j) for j in range(k + 1)],
                "observed": s["obs"][k] if k < len(s["obs"]) else None,
                "earlier_sessions": [[q["line"][:500] for q in e["reqs"]] for e in c["sessions"][:si - 1]],
                "options": {x: str(s.get(x)) for x in ("mode", "eol", "level", "open_end")}}
        violation(self.prop, what)


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        x.themes()
        if not x.failed:
            x.random(int(os.environ.get("LIMA_COUNT", COUNT[tier])))
        if x.failed:
            x.report()
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces,
               "samples": x.samples[:4], "parts": x.parts, "requests": x.requests, "replies_by_code": x.codes,
               "explanation": "states and transitions are those of TLC over Pod.tla (PodMC) and over the validation of "
                              "recorded sessions (PodTrace); traces are sessions with the real server"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
