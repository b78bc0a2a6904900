"""The checks of how beanfiles are read: Loader explored exhaustively on small
universes of declarations, those files given to the real server, and random
files in all their notations, all judged by TLC (LoaderTrace)."""
import copy, time
from loader import *

ASSUME = ["the Python rendering of declarations and abstraction of answers (loader.py) is faithful",
          "where a file does not parse, only the first such place in it is required to be reported"]

D = dec
ACCS = ["Assets:Bank", "Assets:Bank:Main", "Liabilities:Card-2", "Expenses:Food", "Income:Job", "Equity:Opening",
        "Assets:Caf\u00e9-X", "Assets:\u65e5\u672c:2A", "Expenses:7Eleven"]
CURS = ["USD", "EUR", "GBP", "A'B.C-D_E", "VTI", "/ESM24", "X1", "C"]
TAGS = ["t", "tag-a", "Trip_2/x", "a.b", "7", "tag-b"]
LINKS = ["l", "inv-1", "x/y.z"]
KEYS = ["kk", "key", "aKey-2_x", "zz9", "note-x"]
WORDS = ["", "lunch", "caf\u00e9 \u2615 x", "say \"hi\"", "back\\slash \\n", "two\nlines", "tab\there", "  padded ", "; no comment", "#t ^l {} @@",
         "2020-01-01", "\U0001F631", "a|b", "x" * 90, "1\n2\n3\n4"]
FLAGS = ["*", "!", "&", "#", "?", "%", "'A", "'Z"]
DATES = [20200101, 20200102, 20200103, 20191231, 20200229, 19700101, 99991231, 10101, 20200201, 20210102]
METHODS = ["strict", "strict-with-size", "none", "fifo", "lifo", "hifo", "average"]
SINGLES = {"account_previous_balances": ["Opening-Balances", "Opening:Balances"], "account_previous_earnings": ["Earnings:Previous"],
           "account_previous_conversions": ["Conversions:Previous"], "account_current_earnings": ["Earnings:Current"],
           "account_current_conversions": ["Conversions:Current"], "account_unrealized_gains": ["Gains"],
           "account_rounding": ["Rounding", "9X"], "conversion_currency": ["NOTHING", "USD"]}
BOOLS = ["true", "TRUE", "True", "tRuE", "false", "FALSE", "False", "fAlSe"]
TYPES = {"assets": ["Activa", "Assets", "Akt\u00efva"], "liabilities": ["Passiva", "Debts-1"], "equity": ["Equity", "Eigen"],
         "income": ["Einkommen", "In2"], "expenses": ["Ausgaben"]}
BAD_OPTION = {"render_commas": ["maybe", "2", ""], "infer_tolerance_from_cost": ["1", "yes", "0"], "booking_method": ["fifo", "OTHER", "STRICT-WITH-SIZE"],
              "plugin_processing_mode": ["raw", "x"], "operating_currency": ["usd", "", "U SD"], "conversion_currency": ["nothing"],
              "account_rounding": ["bad", "", "A::B"], "inferred_tolerance_multiplier": ["x", ""],
              "inferred_tolerance_default": ["USD", "USD:x", "usd:1", "USD:1:2", ""], "name_assets": ["assets", "A:B", ""],
              "long_string_maxlines": ["x", "-1"]}
BADS = ["2020-01-01 open nonsense", "2020-01-01 balance Assets:Bank", "nonsense here", "2020-13-01 close Assets:Bank",
        "2020-01-01 * \"x\"\n  Assets:Bank 1 USD USD", "pushtag", "popmeta x", "option \"title\"", "include", "plugin nothing",
        "2020-01-01 price USD", "2020-01-01 commodity usd", "2020-01-01 note Assets:Bank", "2020-01-01 custom",
        "2020-01-01 close Nothing:Bank", "2020-01-01 open Assets:Bank #t #t", "2020-01-01 open Assets:Bank\n  kk: 1\n  kk: 2",
        "2020-01-01 open Assets:Bank \"fifo\"", "2020-01-01 document Assets:Bank path", "2020-01-01 pad Assets:Bank"]


def item(kind, **kw):
    return dict(kind=kind, **kw)


class Gen:
    """Random beanfiles."""
    def __init__(self, seed, faults=0.3, hard=0.0, many=0.6, w=None):
        self.r = random.Random("loader-%s" % seed)
        self.seed = seed
        self.w = dict(dir=20, pushtag=4, poptag=4, pushmeta=4, popmeta=4, option=4, plugin=2)
        self.w.update(w or {})
        self.faulty = self.p(faults)
        self.hard = self.p(hard)
        self.types = {}
        self.big = self.p(0.012)
        self.curs, self.tagset, self.linkset, self.keys = CURS, TAGS, LINKS, KEYS
        if self.big:
            self.curs = CURS + ["CUR%d" % i for i in range(12)]
            self.tagset = TAGS + ["tag%d" % i for i in range(12)]
            self.linkset = LINKS + ["link%d" % i for i in range(12)]
            self.keys = KEYS + ["key%d" % i for i in range(12)]

    def count(self, some, more):
        """How many of something: of some, or if it is a big one also of more."""
        return self.ch(more if self.big and self.p(0.4) else some)

    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return self.r.choice(xs)

    def word(self):
        if self.big and self.p(0.1):
            return self.ch(["x" * 5000, "one \u00e9 line\n" * 70, "word " * 300, "\u2615" * 300])
        return self.ch(WORDS)

    def number(self, depth=0):
        """A number or an expression."""
        r = self.r
        if depth < 3 and self.p(0.12 + 0.2 * (depth > 0)):
            op = self.ch("+-*/+-*")
            b = self.number(depth + 1)
            if op == "/":
                b = self.ch([D("2"), D("4"), D("0.5"), D("3"), D("7.00"), D("-8")])
            if self.p(0.1):
                return {"op": "neg", "a": self.number(depth + 1)}
            return {"op": op, "a": self.number(depth + 1), "b": b}
        s = self.ch([0, 0, 1, 2, 2, 2, 3, 5])
        n = self.ch([r.randint(0, 9), r.randint(1, 999), r.randint(1000, 9999999)])
        if depth and n > 99999:
            n = 17
        return {"m": str(-n if self.p(0.3) else n), "s": s}

    def plain_number(self, neg=False):
        s = self.ch([0, 1, 2, 2, 4])
        n = self.ch([0, 10 ** 25 + 1, self.r.randint(1, 9) * 10 ** s] if self.p(0.2) else [self.r.randint(1, 99999)])
        return {"m": str(-n if neg and self.p(0.3) else n), "s": s}

    def account(self):
        a = self.ch(ACCS)
        if self.big and self.p(0.2):
            a += "".join(":Sub%d" % i for i in range(self.ch([6, 20])))
        t, _, rest = a.partition(":")
        return self.types.get(t.lower(), t) + ":" + rest

    def value(self):
        t = self.ch("SSSNNUCADTLBZ")
        x = {"S": self.word, "N": lambda: model.num(self.plain_number(True)),
             "U": lambda: model.num(self.plain_number(True)) + " " + self.ch(CURS), "C": lambda: self.ch(CURS),
             "A": self.account, "D": lambda: model.date_str(self.ch(DATES)), "T": lambda: self.ch(TAGS),
             "L": lambda: self.ch(LINKS), "B": lambda: self.ch(["true", "false"]), "Z": lambda: ""}[t]()
        return t + ":" + x

    def marks(self, p=0.35):
        kw = {}
        if self.p(p):
            kw["tags"] = self.r.sample(self.tagset, self.count([1, 1, 2], [5, 12]))
        if self.p(p * 0.7):
            kw["links"] = self.r.sample(self.linkset, self.count([1, 2], [5, 12]))
        if self.p(p):
            kw["meta"] = [[k, self.value()] for k in self.r.sample(self.keys, self.count([1, 1, 2, 3], [6, 12]))]
        return kw

    def posting(self):
        kw = dict(self.marks(0.12))
        if self.p(0.75):
            kw["units"] = self.number()
        if self.p(0.85):
            kw["cur"] = self.ch(CURS)
        if self.p(0.12):
            kw["flag"] = self.ch(FLAGS)
        if self.p(0.25):
            kw["cost"] = model.cost(per=self.number() if self.p(0.6) else None, total=self.number() if self.p(0.2) else None,
                                    cur=self.ch(CURS) if self.p(0.7) else None, date=self.ch(DATES) if self.p(0.25) else None,
                                    label=self.word() if self.p(0.25) else None, merge=self.p(0.1))
        if self.p(0.25):
            t = self.p(0.3)
            n = self.number() if t or self.p(0.8) else None
            kw["price"] = model.price(per=None if t else n, total=n if t else None, cur=self.ch(CURS) if self.p(0.85) else None)
        return model.posting(self.account(), **kw)

    def directive(self):
        k = self.ch(["txn"] * 6 + ["open", "open", "balance", "balance", "price", "close", "pad", "commodity", "document", "note",
                                  "event", "query", "custom", "custom"])
        kw = self.marks()
        date = self.ch(DATES if self.p(0.5) else DATES[:4])
        w, a, c = self.word, self.account, lambda: self.ch(CURS)
        if k == "txn":
            kw["flag"] = self.ch(FLAGS) if self.p(0.4) else "*"
            some = lambda: [x for x in [w()] if x]
            if self.p(0.8):
                kw["narration"] = some()
            if "narration" in kw and self.p(0.4):
                kw["payee"] = some()
            kw["ps"] = [self.posting() for _ in range(self.count([0, 1, 2, 2, 2, 3, 5], [10, 30]))]
        elif k == "open":
            kw.update(acc=a(), curs=self.r.sample(self.curs, self.count([0, 0, 1, 2, 3], [5, 15])), booking=model.opt(self.ch(METHODS)) if self.p(0.4) else [])
        elif k == "balance":
            kw.update(acc=a(), units=self.number(), cur=c(), tol=[self.plain_number()] if self.p(0.3) else [])
        elif k == "price":
            kw.update(units=self.number())
            kw["body"] = [c(), "", c()]
        elif k == "close":
            kw.update(acc=a())
        elif k == "pad":
            kw.update(acc=a(), source=a())
        elif k == "commodity":
            kw["body"] = [c()]
        elif k in ("document", "note"):
            kw["body"] = [a(), w()]
        elif k in ("event", "query"):
            kw["body"] = [w(), w()]
        elif k == "custom":
            vs = [self.value() for _ in range(self.count([0, 1, 2, 4], [9, 20]))]
            kw["body"] = [w()] + [v for v in vs if v[0] in "SNUADBTL"]
            # (a number must not be taken for an amount, or go on in the next value)
            kw["body"] = kw["body"][:1] + self.spaced(kw["body"][1:])
        if k == "balance":
            u, t = kw.pop("units"), kw.pop("tol")
            d = directive(k, date, **kw)
            d.update(units=u, tol=t, body=[])
            return d
        return directive(k, date, **kw)

    def spaced(self, vs):
        """No number where it would be taken together with a neighbour."""
        res = []
        for v in vs:
            if res and res[-1][0] in "NU" and v[0] in "NUC" and ("-" in v or res[-1][0] == "N"):
                continue
            res.append(v)
        return res

    # -------------------------------------------------- options
    def option(self):
        r = self.r
        o = lambda n, raw, v=None, a=False: item("option", name=n, raw=raw, val=model.opt(v), abs=a)
        if self.faulty and self.p(0.3):
            if self.p(0.3):
                return o(self.ch(["nonsense", "Title", "", "plugin", "name_other"]), "x", "x")
            n = self.ch(sorted(BAD_OPTION))
            return o(n, self.ch(BAD_OPTION[n]))
        again = self.faulty and self.p(0.3)
        for _ in range(20):
            n = self.ch(["title"] + sorted(SINGLES) + ["inferred_tolerance_multiplier", "infer_tolerance_from_cost", "render_commas",
                        "booking_method", "plugin_processing_mode"] + ["inferred_tolerance_default", "documents", "operating_currency"] * 3)
            if n in SINGLES:
                v = self.ch(SINGLES[n])
                res, key = o(n, v, v), n
            elif n == "title":
                v = self.word()
                res, key = o(n, v, v), n
            elif n == "inferred_tolerance_multiplier":
                d = model.num(self.plain_number())
                res, key = o(n, d, d), n
            elif n == "infer_tolerance_from_cost":
                res, key = o(n, self.ch(BOOLS)), n
            elif n == "render_commas":
                res, key = o(n, self.ch(BOOLS + ["0", "1"])), n
            elif n == "booking_method":
                res, key = o(n, self.ch(METHODS).upper().replace("-", "_")), n
            elif n == "plugin_processing_mode":
                res, key = o(n, self.ch(["DEFAULT", "RAW"])), n
            elif n == "inferred_tolerance_default":
                c, d = self.ch(CURS[:3] + ["*"]), model.num(self.plain_number())
                res, key = o(n, c + ":" + d, [c, d]), n + c
            elif n == "documents":
                v = self.ch(["docs", "papers/2020", "/abs/docs", "with space \u00e9", "docs2"])
                res, key = o(n, v, v, v.startswith("/")), n + v + str(self.at if not v.startswith("/") else "")
            else:
                v = self.ch(CURS)
                res, key = o(n, v, v), n + v
            if key in self.seen and not again:
                continue
            # files spell their directories in different ways, which the options keep
            if n == "documents" and self.docs.setdefault(key, self.k) != self.k:
                continue
            self.seen.add(key)
            return res
        return None

    def names(self):
        """Renamed account types, at the top of an only file."""
        res = []
        for t in TYPES:
            if self.p(0.4):
                v = self.ch(TYPES[t])
                self.types[t] = v
                res.append(item("option", name="name_" + t, raw=v, val=[v], abs=False))
        return res

    # -------------------------------------------------- files
    def items(self, f):
        """Items of a file; what is pushed is kept balanced unless faulty."""
        r, res = self.r, []
        n = self.count([0, 1, 3, 6, 10, 16], [25, 50])
        kinds, weights = list(self.w), list(self.w.values())
        for _ in range(n):
            k = r.choices(kinds, weights)[0]
            wild = self.faulty and self.p(0.15)
            if k == "dir":
                res.append(item("dir", d=self.directive()))
            elif k == "pushtag":
                t = self.ch(TAGS[:4])
                self.tags.append(t)
                res.append(item(k, tag=t))
            elif k == "poptag":
                if wild:
                    t = self.ch(TAGS)
                elif self.tags:
                    t = self.ch(self.tags)
                else:
                    continue
                if t in self.tags:
                    self.tags.remove(t)
                res.append(item(k, tag=t))
            elif k == "pushmeta":
                t = self.ch(KEYS[:3])
                self.metas.append(t)
                res.append(item(k, key=t, val=self.value()))
            elif k == "popmeta":
                if wild:
                    t = self.ch(KEYS)
                elif self.metas:
                    t = self.ch(self.metas)
                else:
                    continue
                if t in self.metas:
                    self.metas.remove(t)
                res.append(item(k, key=t))
            elif k == "option":
                o = self.option()
                if o:
                    res.append(o)
            elif k == "plugin":
                res.append(item("plugin", name=self.ch(["limabean.plugins.x", "my plugin", "beancount.plugins.auto_accounts", "p"]),
                                config=[self.word()] if self.p(0.5) else []))
        return res

    def files(self):
        r = self.r
        self.tags, self.metas, self.seen, self.docs, self.at, self.k = [], [], set(), {}, "", 0
        count = self.count([1, 1, 2, 3, 4, 5], [7, 11])
        chain = self.big and self.p(0.5)
        # a tree of directories and names
        dirs = ["", "sub", "sub/deep", "other"]
        fs = []
        for k in range(count):
            d = "" if k == 0 else self.ch(dirs)
            fs.append({"name": (d + "/" if d else "") + ("root" if k == 0 else "f%d" % k) + self.ch([".beancount", ".bean", ".txt"]),
                       "dir": d, "readable": True, "items": []})
        if self.faulty and count > 1 and self.p(0.2):
            fs[-1]["readable"] = False
        single = count == 1
        parent = {k: k - 1 if chain else r.randrange(k) for k in range(1, count)}
        if not fs[-1]["readable"]:
            parent = {k: min(p, count - 2) for k, p in parent.items()}
        spelled = {0: fs[0]["name"]}
        for c in range(1, count):
            spelled[c] = self.spell(spelled[parent[c]], fs[parent[c]], fs[c])
        def fill(k):
            self.at, self.k = fs[k]["dir"], k
            its = (self.names() if single and self.p(0.3) else []) + self.items(k)
            if single and self.p(0.15):
                n = self.ch(["1", "2", "3", "0"])
                its.insert(r.randrange(len(its) + 1), item("option", name="long_string_maxlines", raw=n, val=[int(n)], abs=False))
            incs = [c for c in parent if parent[c] == k]
            for d in {fs[c]["dir"] for c in incs}:       # some at once
                cs = [c for c in incs if fs[c]["dir"] == d]
                if self.p(0.35) and all(fs[c]["readable"] and c < 10 for c in cs):
                    incs = [c for c in incs if c not in cs]
                    rel = os.path.relpath(d or ".", fs[k]["dir"] or ".")
                    rel = ("" if rel == "." else rel + "/") + "f[%s].*" % "".join(str(c) for c in cs)
                    its.insert(r.randrange(len(its) + 1), item("include", pattern=rel, files=[c + 1 for c in cs]))
            for c in incs:
                rel = os.path.relpath(fs[c]["name"], fs[k]["dir"] or ".")
                pos = r.randrange(len(its) + 1)
                its.insert(pos, item("include", pattern=rel, files=[c + 1]))
            if not single and self.p(0.25):      # once more
                c = r.randrange(0 if self.faulty and self.p(0.5) else 1, count)
                if c == 0 or self.spell(spelled[k], fs[k], fs[c]) == spelled[c]:
                    its.append(item("include", pattern=os.path.relpath(fs[c]["name"], fs[k]["dir"] or "."), files=[c + 1]))
            if self.faulty and self.p(0.15):
                its.insert(r.randrange(len(its) + 1), item("include", pattern=self.ch(["nosuch.bean", "no/*.bean"]), files=[]))
            fs[k]["items"] = its
        for k in range(count):
            if fs[k]["readable"]:
                fill(k)
        if self.hard:
            for _ in range(self.ch([1, 1, 2])):
                f = self.ch([f for f in fs if f["readable"]])
                f["items"].insert(r.randrange(len(f["items"]) + 1), item("bad", bad=self.ch(BADS)))
        elif not self.faulty:
            self.settle(fs)
        return fs

    def spell(self, by, f, g):
        """The path of file g as given by f, itself given as by."""
        return os.path.join(os.path.dirname(by), os.path.relpath(g["name"], f["dir"] or "."))

    def settle(self, fs):
        """Drop the pushes and pops which do not match, in the order read, and
        includes which are in error."""
        for _ in range(4):
            seen = {0: None}
            ctx = ([], [])
            drop = []
            pushed = []
            def walk(k):
                for it in list(fs[k]["items"]):
                    if it["kind"] in ("pushtag", "pushmeta"):
                        key = (it["kind"][4:], it.get("tag", it.get("key")))
                        pushed.append((key, it, k))
                    elif it["kind"] in ("poptag", "popmeta"):
                        key = (it["kind"][3:], it.get("tag", it.get("key")))
                        if any(x[0] == key for x in pushed):
                            pushed.pop(max(i for i, x in enumerate(pushed) if x[0] == key))
                        else:
                            drop.append((k, it))
                    elif it["kind"] == "include":
                        now = sorted((x[0], id(x[1]) if x[0][0] == "meta" else 0) for x in pushed)
                        todo = []
                        for c in it["files"]:
                            c -= 1
                            if c in seen:
                                if seen[c] != now:
                                    drop.append((k, it))
                            else:
                                seen[c] = now
                                todo.append(c)
                        for c in reversed(todo):
                            walk(c)
            walk(0)
            for k, it in drop:
                if it in fs[k]["items"]:
                    fs[k]["items"] = [x for x in fs[k]["items"] if x is not it]
            if not drop and not pushed:
                return
            if not drop:
                end = [item("poptag", tag=x[0][1]) if x[0][0] == "tag" else item("popmeta", key=x[0][1]) for x in reversed(pushed)]
                fs[0]["items"] += end


# ------------------------------------------------------------------ themes
def dirs_of(date, *kinds, **kw):
    mk = {"open": dict(acc="Assets:Bank", booking=[]), "balance": dict(acc="Assets:Bank", units=D("1"), cur="USD", tol=[], body=[]),
          "note": dict(body=["Assets:Bank", "x"]), "event": dict(body=["x", "y"]),
          "txn": dict(flag="*", narration=["n"], ps=[posting("Assets:Bank", units=D("1.50"), cur="USD"), posting("Equity:Opening", tags=["p"])])}
    return [item("dir", d=directive(k, date, **{**mk[k], **kw})) for k in kinds]


def theme(name):
    opt_ = lambda n, raw, v=None: item("option", name=n, raw=raw, val=model.opt(v), abs=raw.startswith("/"))
    inc = lambda *fs: item("include", files=list(fs))
    tag = lambda k, t="t": item(k + "tag", tag=t)
    push = lambda v, k="kk": item("pushmeta", key=k, val=v)
    pop = lambda k="kk": item("popmeta", key=k)
    plug = lambda n, *c: item("plugin", name=n, config=list(c))
    note = lambda s: dirs_of(20200101, "note", body=["Assets:Bank", s])[0]
    day = 20200102
    plain = dirs_of(day, "note")
    return {
        "tags": plain + dirs_of(day, "txn", tags=["t", "own"]) + [tag("push"), tag("pop"), tag("push", "s"), tag("pop", "s"), inc(2)],
        "metas": plain + dirs_of(day, "txn", meta=[["kk", "S:own"], ["zz", "N:1"]]) + [push("S:a"), push("N:2.50"), pop(), inc(2)],
        "order": dirs_of(day, "txn", "open", "balance", "event") + dirs_of(20200101, "open", "note") + dirs_of(20191231, "balance")
                 + [inc(2), inc(2, 3)],
        "options": [opt_("title", "a", "a"), opt_("title", "b", "b"), opt_("operating_currency", "USD", "USD"), opt_("operating_currency", "EUR", "EUR"),
                    opt_("documents", "docs", "docs"), opt_("documents", "/abs", "/abs"), opt_("booking_method", "FIFO"), opt_("booking_method", "fifo"),
                    opt_("render_commas", "TRUE"), opt_("inferred_tolerance_default", "USD:0.01", ["USD", "0.01"]),
                    opt_("inferred_tolerance_default", "USD:0.5", ["USD", "0.5"]), opt_("inferred_tolerance_default", "*:1", ["*", "1"]),
                    opt_("nonsense", "x", "x"), inc(2)],
        "values": [opt_(n, v, v) for n in sorted(SINGLES) for v in SINGLES[n]] + [opt_("name_" + t, v, v) for t in sorted(TYPES) for v in TYPES[t]]
                  + [opt_("inferred_tolerance_multiplier", v, v) for v in ("0", "0.00", "1.50", "2", "10000000000000000000000001.5")]
                  + [opt_("inferred_tolerance_default", c + ":" + v, [c, v]) for c in ("*", "USD", "X") for v in ("0", "0.00", "0.0050", "12.5")]
                  + [opt_(n, v) for n in ("infer_tolerance_from_cost", "render_commas") for v in BOOLS]
                  + [opt_("booking_method", m.upper().replace("-", "_")) for m in METHODS]
                  + [opt_("plugin_processing_mode", m) for m in ("DEFAULT", "RAW")]
                  + [opt_("documents", v, v) for v in ("docs", "a/b c", "/abs/docs", "caf\u00e9", "/")]
                  + [opt_("title", v, v) for v in ("", " a ", "say \"hi\"", "caf\u00e9", "two\nlines", "back\\slash")]
                  + [opt_("operating_currency", v, v) for v in ("USD", "X", "A.B-C_1")] + [opt_(n, v) for n in sorted(BAD_OPTION) for v in BAD_OPTION[n]],
        "plugins": [plug("a"), plug("a", "x"), plug("b", "say \"hi\""), plug("b", ""), plug("", " x "), inc(2), inc(3)] + plain,
        "includes": plain + [inc(2), inc(3), inc(2, 3), inc(1), inc(4), inc(), tag("push"), tag("pop")],
        "lines": [opt_("long_string_maxlines", "1", 1), opt_("long_string_maxlines", "2", 2), note("a"), note("a\nb"), note("a\nb\nc"),
                  note("\n" * 63), note("\n" * 64), plug("p", "x\ny")],
        "bad": plain + [item("bad", bad="nonsense"), item("bad", bad="2020-13-01 close Assets:Bank"), tag("push"), inc(2), opt_("nonsense", "x", "x")],
    }[name]


FILES = [{"name": "root.bean", "dir": "", "readable": True}, {"name": "sub/inc-a.bean", "dir": "sub", "readable": True},
         {"name": "sub/inc-b.bean", "dir": "sub", "readable": True}, {"name": "sub/unreadable", "dir": "sub", "readable": False}]


def explore(scratch, name, depth, timeout=800):
    """Explore a theme exhaustively; returns TLC's result and the items of the files of each behaviour."""
    universe = copy.deepcopy(theme(name))
    for it in universe:
        it.update(pattern="x")
        render([{"name": "x", "dir": "", "readable": True, "items": [it]}])
        it["u"] = 0
    path = scratch.path("theme-%s.ndjson" % name)
    write_ndjson(path, [{"universe": universe, "depth": depth, "files": FILES}])
    r = tlc(spec_dir(scratch), "LoaderMC", env={"THEME": path}, timeout=timeout)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
    res = []
    for t in r.prints("B"):
        m = re.match(r'<<\s*"B",\s*<<(.*)>>\s*>>$', t)
        res.append([[int(x) for x in re.findall(r"\d+", f)] for f in re.findall(r"<<([^<>]*)>>", m.group(1))])
    return r, res


def themed(name, id, behaviour, plain):
    """The files of a behaviour of a theme, as a case."""
    universe = theme(name)
    files = [dict(f, items=[copy.deepcopy(universe[k - 1]) for k in ks]) for f, ks in zip(FILES, behaviour)]
    for f in files:
        for it in f["items"]:
            if it["kind"] == "include":
                rel = [os.path.relpath(FILES[k - 1]["name"], f["dir"] or ".") for k in it["files"]]
                it["pattern"] = rel[0] if len(rel) == 1 else rel[0].replace("inc-a", "inc-*") if rel else "no*such"
    return case(id, files, plain)


def case(id, files, plain=False, seed=None):
    files = copy.deepcopy(files)
    texts = render(files, plain, seed if seed is not None else id)
    return {"id": id, "files": files, "texts": texts, "obs": EMPTY}


# per property: themes and depths, weights of what random files have, share with faults
CONF = {
    "C14": dict(quick=[("order", 3)], thorough=[("order", 4)], w=dict(dir=40), faults=0.05),
    "C15": dict(quick=[("tags", 4), ("metas", 3), ("includes", 3)], thorough=[("tags", 5), ("metas", 5), ("includes", 4), ("order", 4)],
                w=dict(dir=14, pushtag=8, poptag=7, pushmeta=8, popmeta=7, option=1, plugin=1), faults=0.2),
    "C16": dict(quick=[("options", 3), ("values", 1)], thorough=[("options", 4), ("values", 2)], w=dict(dir=4, option=16), faults=0.25),
    "C17": dict(quick=[("plugins", 4)], thorough=[("plugins", 5)], w=dict(dir=4, plugin=12), faults=0.05),
    "C28": dict(quick=[("bad", 3), ("lines", 3), ("includes", 3), ("options", 2), ("values", 1)],
                thorough=[("bad", 5), ("lines", 4), ("includes", 4), ("options", 3), ("tags", 4), ("metas", 4)],
                w=dict(dir=10, pushtag=5, poptag=5, pushmeta=5, popmeta=5, option=8), faults=0.8, hard=0.2),
}
COUNT = {"quick": 2400, "thorough": 60000}
GLOSS = "states and transitions are those of TLC over Loader.tla (LoaderMC) and over the validation of observed answers " \
        "(LoaderTrace); traces are beanfiles given to the real server, with what it answered to the parser requests"


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = self.places = 0
        self.samples, self.parts, self.failed = [], [], None

    def take(self, cases, what, sample=1):
        r, runs = judge(self.s, self.prop, cases)
        self.states += r.distinct
        self.transitions += r.generated
        n = {}
        for id, outcome, k, flags in runs:
            n[outcome] = n.get(outcome, 0) + 1
            self.places += k
        self.traces += len(runs)
        self.parts.append("%s: %s" % (what, n))
        for c in cases[len(cases) // 2:][:sample]:
            self.samples.append({"what": what, "files": shown(c), "answer": {k: c["obs"][k] for k in ("status", "errs", "warns", "opts")},
                                 "directives": len(c["obs"]["dirs"])})
        if r.violated:
            bad = [x[0] for x in runs if self.prop in x[3]]
            if not bad:
                raise ToolError("TLC reports a violation but no case: " + r.out[-3000:])
            self.failed = [c for c in cases if c["id"] == bad[0]][0]

    def themes(self):
        for name, depth in CONF[self.prop][self.tier]:
            r, bs = explore(self.s, name, depth)
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append("theme %s, depth %d: %d states of the specification explored, %d behaviours replayed"
                              % (name, depth, r.distinct, len(bs)))
            for lo in range(0, len(bs), 20000):
                cases = [themed(name, "m%d" % (lo + i), b, (lo + i) % 2 == 0) for i, b in enumerate(bs[lo:lo + 20000])]
                self.take(run_cases(self.s, cases), "replay of theme %s" % name)
                if self.failed:
                    return

    def random(self, count, batch=3000):
        conf = CONF[self.prop]
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        for lo in range(0, count, batch):
            cases = [case(str(i), Gen(base + i, faults=conf["faults"], hard=conf.get("hard", 0.0), w=conf["w"]).files(),
                          seed="%d" % (base + i)) for i in range(lo, min(count, lo + batch))]
            self.take(run_cases(self.s, cases), "random beanfiles", 2 if lo == 0 else 0)
            if self.failed:
                return

    def minimize(self, c):
        """Leave out what the violation does not need."""
        seed = c.get("seed", c["id"])
        best = c
        files = c["files"]
        for k in range(14):
            n = sum(len(f["items"]) for f in files)
            tries = []
            cuts = [(i, i + w) for w in sorted({max(1, n // 3), 1}, reverse=True) for i in range(0, n, w)]
            for i, (a, b) in enumerate(cuts):
                at, fs = 0, []
                for f in files:
                    its = [it for j, it in enumerate(f["items"], at) if not a <= j < b]
                    at += len(f["items"])
                    fs.append(dict(f, items=its))
                tries += [case("t%d-%d" % (k, i), fs, True), case("t%d-%ds" % (k, i), fs, seed=seed)]
            _, runs = judge(self.s, "C00", run_cases(self.s, tries))
            bad = {x[0] for x in runs if self.prop in x[3]}
            bad = [t for t in tries if t["id"] in bad]
            if not bad:
                break
            best = min(bad, key=lambda t: sum(len(f["items"]) for f in t["files"]))
            files = best["files"]
        return best

    def report(self):
        try:
            c = self.minimize(self.failed)
        except ToolError:
            c = self.failed
        violation(self.prop, {
            "property": self.prop, "how": "the specification spec/LoaderTrace.tla does not allow this answer to these files",
            "files": shown(c), "answer": c["obs"], "case": c})


def shown(c):
    return {f["name"]: t for f, t in zip(c["files"], c["texts"])}


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        x.themes()
        if not x.failed:
            x.random(int(os.environ.get("LIMA_COUNT", COUNT[tier])))
        if x.failed:
            x.report()
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces,
               "samples": x.samples[:4], "parts": x.parts, "directives_or_errors_compared": x.places, "explanation": GLOSS}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0


if __name__ == "__main__":
    import sys
    with Scratch("ld") as s:
        n, base = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 0
        cs = [case(str(i), Gen(i, hard=0.1).files()) for i in range(base, base + n)]
        run_cases(s, cs)
        r, runs = judge(s, "C00", cs)
        from collections import Counter
        print(Counter((x[1], tuple(sorted(x[3]))) for x in runs), r.wall)
        shown = 0
        for x in runs:
            if x[3] and shown < 3:
                shown += 1
                c = [c for c in cs if c["id"] == x[0]][0]
                print("=" * 30, x)
                for f, t in zip(c["files"], c["texts"]):
                    print("---", f["name"])
                    print(t)
                o = c["obs"]
                for x in o["dirs"]:
                    print(json.dumps(x["r"]["body"]), json.dumps({k: v for k, v in x.items()}, ensure_ascii=False)[:900])
                print(json.dumps(dict(o, dirs=[]), ensure_ascii=False)[:2500])
