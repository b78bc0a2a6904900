"""The checks of printed directives: Format explored exhaustively over the shapes of
directives, those and random ones printed by the application and read by it again,
and both judged by TLC (FormatTrace).  The Clojure code is run by clj.py."""
import json, os, random, re, time
from common import *
from check_query import Workers
import gen, model

ASSUME = ["the interpreter lib/clj.py runs the Clojure sources as Clojure does (checked by the golden tests of the repository, test-cases)",
          "directives which can be written: a number and a currency beside it are an amount, of both payee and narration the narration is never missing alone"]
CONF = {"C34": dict(quick=2, thorough=4)}
COUNT = {"quick": 1200, "thorough": 20000}


def explore(scratch, depth):
    path = scratch.path("theme.ndjson")
    write_ndjson(path, [{"depth": depth}])
    r = tlc(spec_dir(scratch), "FormatMC", env={"THEME": path}, timeout=800)
    if not r.ok:
        raise ToolError("the specification itself violates a property:\n" + r.out[-3000:])
    return r, sorted((json.loads(json.loads(t[t.index('"B",') + 4:-2].strip())) for t in r.prints("B")), key=json.dumps)


def dated(ds):
    """as the application has them: in order of date"""
    for i, d in enumerate(ds):
        d["date"] = "2020-%02d-%02d" % (i // 28 + 1, i % 28 + 1)
    return ds


def val(t, s="", *n):
    return {"t": t, "s": s, "n": list(n)}


class Gen:
    def __init__(self, seed):
        self.r = random.Random("format-%s" % seed)
        self.seed = seed

    def p(self, x):
        return self.r.random() < x

    def opt(self, p, f):
        return [f()] if self.p(p) else []

    def small(self):
        """of a posting: booking multiplies (and ends beyond 28 digits, see C09)"""
        return {"m": str(self.r.choice([0, 1, 5, 10, self.r.randint(1, 99999)])), "s": self.r.choice([0, 0, 1, 2, 2, 3, 5, -1, -3])}

    def units(self):
        n = self.small()
        return dict(n, m="-" + n["m"]) if n["m"] != "0" and self.p(0.4) else n

    def number(self, neg=True):
        r = self.r
        m = r.choice([0, 1, 5, 10, r.randint(1, 99999), r.randint(1, 10 ** 15)])
        s = r.choice([0, 0, 1, 2, 2, 3, 6, 7, 8, 12, 20, -1, -3])
        return {"m": ("-" if neg and m and self.p(0.4) else "") + str(m), "s": s}

    def text(self):
        r = self.r
        w = r.choice(["", "x", "caf\u00e9 \u2615", "say \"hi\"", "back\\slash", "\\", "\"", "\\\"", "\\n", "tab\there", "two\nlines", "\n", "blank\n\nline", "; no comment",
                      "#tag ^link", "{10 USD} @ 5", " around ", "a:b", "TRUE", "2020-01-01", "key: x", "%s %d %%", "\u20ac5", "x, y", "* ! txn", "very " * 30])
        return w + r.choice(gen.ODD_WORDS) if self.p(0.3) else w

    def acc(self):
        return self.r.choice(["Assets:A", "Assets:Bank:Main-1", "Liabilities:Card", "Equity:O", "Income:Caf\u00e9", "Expenses:X9:2024"])

    def cur(self):
        return self.r.choice(["USD", "EUR", "X", "GBP.X", "A-B", "C'2", "TRUER", "FALS3", "AB_C"])

    def tag(self):
        return self.r.choice(["t", "t2", "tag-1", "a/b", "x.y", "1", "T_x", "caf"])

    def tags(self):
        r = self.r
        return sorted({self.tag() for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]))})

    def date(self):
        return self.r.choice(["2020-01-01", "1970-12-31", "2024-02-29", "2099-10-10"])

    def value(self):
        r = self.r
        t = r.choice(["acc", "amount", "string", "string", "bool", "cur", "number", "tag", "link", "date"])
        if t in ("amount", "number"):
            return val(t, self.cur() if t == "amount" else "", self.number())
        return val(t, {"acc": self.acc, "string": self.text, "bool": lambda: r.choice(["TRUE", "FALSE"]), "cur": self.cur, "tag": self.tag, "link": self.tag,
                       "date": self.date}[t]())

    def meta(self):
        r = self.r
        ks = {r.choice(["key", "ka", "kb", "a-b", "longer_key9", "kx"]) for _ in range(r.choice([0, 0, 0, 1, 2, 4]))}
        return [{"k": k, "v": val("null") if self.p(0.15) else self.value()} for k in sorted(ks)]

    def cost(self):
        return {"per": self.opt(0.6, self.small), "total": self.opt(0.3, self.small), "cur": self.opt(0.7, self.cur), "date": self.opt(0.3, self.date),
                "label": self.opt(0.3, self.text), "merge": self.p(0.15)}

    def posting(self):
        r = self.r
        price = lambda: {"per": self.opt(0.6, self.small), "total": self.opt(0.3, self.small), "cur": self.opt(0.7, self.cur)}
        return {"flag": self.opt(0.2, self.flag), "acc": self.acc(), "n": self.opt(0.7, self.units), "cur": self.opt(0.7, self.cur), "cost": self.opt(0.35, self.cost),
                "price": self.opt(0.3, price), "tags": self.tags() if self.p(0.3) else [], "links": self.tags() if self.p(0.3) else [], "meta": self.meta() if self.p(0.4) else []}

    def flag(self):
        return self.r.choice(["*", "!", "'P", "'A", "'Z", "#", "&", "?", "%"])

    def directive(self):
        r = self.r
        k = r.choice(["txn"] * 6 + ["open", "close", "commodity", "pad", "balance", "balance", "price", "note", "document", "event", "query", "custom", "custom"])
        d = dict(kind=k, date="", acc=[], source=[], cur=[], curs=[], booking=[], strs=[], n=[], tol=[], price=[], flag=[], payee=[], narr=[], vals=[], ps=[],
                 tags=self.tags(), links=self.tags(), meta=self.meta())
        if k in ("open", "close", "pad", "balance", "note", "document"):
            d["acc"] = [self.acc()]
        if k == "open":
            d["curs"] = sorted({self.cur() for _ in range(r.choice([0, 0, 1, 2, 3]))})
            d["booking"] = self.opt(0.5, lambda: r.choice(["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"]))
        elif k == "commodity":
            d["cur"] = [self.cur()]
        elif k == "pad":
            d["source"] = [self.acc()]
        elif k == "balance":
            d.update(n=[self.number()], cur=[self.cur()], tol=self.opt(0.5, lambda: self.number(False)))
        elif k == "price":
            d.update(cur=[self.cur()], price=[{"per": [self.number()], "total": [], "cur": [self.cur()]}])
        elif k == "txn":
            d.update(flag=self.opt(0.95, self.flag), payee=self.opt(0.4, self.text), narr=self.opt(0.7, self.text), ps=[self.posting() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))])
        elif k == "custom":
            d.update(strs=[self.text()], vals=[self.value() for _ in range(r.choice([0, 1, 2, 3, 5]))])
            for i in range(len(d["vals"]) - 1, 0, -1):
                if d["vals"][i]["t"] == "cur" and d["vals"][i - 1]["t"] == "number":
                    del d["vals"][i]
        else:
            d["strs"] = [self.text() for _ in range({"event": 2, "query": 2}.get(k, 1))]
        return d

    def case(self, id):
        r = self.r
        name = r.choice(["x%s.beancount", "a.b-%s.beancount", "caf\u00e9 %s.bean", "plain%s"]) % id
        c = {"id": id, "name": name, "base": re.sub(r"\.[^.]*$", "", name), "booked": self.p(0.3)}
        if self.p(0.25):
            c["tidy"] = self.p(0.7)
            w = dict(broken=0, close=0, unopened=0, wrongcur=0, reopen=0, elide=1) if c["tidy"] else {}
            ds, o = gen.Gen(self.seed, weights=w, tidy=c["tidy"], opts=0).ledger()
            plugs = "" if c["tidy"] else "".join('plugin "verif.%s" "[[%d :any :%s]]"\n' % (r.choice(["r1", "b1", "w1", "w2"]), r.randint(0, 3),
                                                 r.choice(["mark", "drop", "copy", "before", "after", "err", "throw", "bad", "rev", "hold"])) for _ in range(r.choice([0, 1, 2])))
            c["file"] = plugs + model.ledger_text(ds[:r.randint(1, 25)], o)
        else:
            c["dirs"] = dated([self.directive() for _ in range(r.choice([1, 1, 2, 3, 6]))])
        return c


def run_cases(workers, scratch, cases):
    d = scratch.path("files")
    os.makedirs(d, exist_ok=True)
    for c, r in zip(cases, workers.run([dict(c, job="format", dir=d) for c in cases])):
        c.update({k: r[k] for k in ("docs", "dumps", "skip") if k in r})
    return [c for c in cases if "skip" not in c]


def judge(scratch, cases, timeout=800):
    path = scratch.path("cases.ndjson")
    r = tlc_cases(spec_dir(scratch), "FormatTrace", path, [{k: c[k] for k in ("id", "docs", "dumps")} for c in cases], size=2000, env={"CASES": path},
                  args=("-continue",), timeout=timeout)
    return r, [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"([^"]*)"\s*>>$', t).groups() for t in r.prints("RUN")]


class Run:
    def __init__(self, prop, tier, scratch):
        import cljload
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None
        d = scratch.path("plugins")
        cljload.write_plugins(d)
        os.makedirs(scratch.path("dumps"))
        self.w = Workers([d], LIMA_DUMPS=scratch.path("dumps"))

    def take(self, cases, what):
        cases = run_cases(self.w, self.s, cases)
        r, runs = judge(self.s, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += sum(len(c["docs"]) + sum(x["has"] for x in c["dumps"]) for c in cases)
        n = {}
        for _, v in runs:
            n[v] = n.get(v, 0) + 1
        self.parts.append("%s: %s; texts printed %d, of them read back %d, directives in them %d" % (
            what, n, sum(len(c["docs"]) + sum(x["has"] for x in c["dumps"]) for c in cases), sum(len(c["docs"]) for c in cases), sum(len(x["dirs"]) for c in cases for x in c["docs"])))
        self.samples += [{"text": x["text"]} for c in cases[len(cases) // 2:] for x in c["docs"]][:1]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if len({x[0] for x in runs}) != len(cases) or r.violated and not bad:
            raise ToolError("TLC didn't judge every case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(json.dumps(c)))

    def minimize(self, c):
        for _ in range(15):
            tries = []
            if "file" in c:
                parts = re.split(r"\n(?=\S)", c["file"])
                tries += [dict(c, file="\n".join(parts[:k] + parts[k + 1:])) for k in range(len(parts))]
            else:
                for k, d in enumerate(c["dirs"]):
                    at = lambda x: c["dirs"][:k] + [x] + c["dirs"][k + 1:]
                    tries.append(c["dirs"][:k] + c["dirs"][k + 1:])
                    tries += [at(dict(d, **{f: d[f][:i] + d[f][i + 1:]})) for f in ("ps", "tags", "links", "meta", "vals", "payee", "tol") for i in range(len(d[f]))]
                    tries += [at(dict(d, ps=d["ps"][:i] + [dict(x, **{f: []})] + d["ps"][i + 1:])) for i, x in enumerate(d["ps"])
                              for f in ("flag", "n", "cur", "cost", "price", "tags", "links", "meta") if x[f]]
                tries = [dict(c, dirs=t) for t in tries]
            tries = [dict(t, id="t%d" % i, name="t%d.beancount" % i, base="t%d" % i) for i, t in enumerate(tries)]
            for lo in range(0, len(tries), 40):
                some = run_cases(self.w, self.s, tries[lo:lo + 40])
                if not some:
                    continue
                bad = {x[0] for x in judge(self.s, some)[1] if x[1] == "BAD"}
                some = [t for t in some if t["id"] in bad]
                if some:
                    break
            else:
                break
            c = min(some, key=lambda t: len(json.dumps([t.get("file"), t.get("dirs")])))
        return c

    def all(self):
        depth = CONF[self.prop][self.tier]
        r, docs = explore(self.s, depth)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append("every shape of directive, and documents of up to %d: %d states of the specification explored, %d documents" % (depth, r.distinct, len(docs)))
        # directives alone are printed some at a time
        one, more = [d[0] for d in docs if len(d) == 1], [d for d in docs if len(d) > 1]
        cases = [one[i:i + 12] for i in range(0, len(one), 12)] + more
        self.take([{"id": "m%d" % i, "name": "m%d.beancount" % i, "base": "m%d" % i, "booked": i % 2 == 1, "dirs": dated([dict(d) for d in ds])} for i, ds in enumerate(cases)],
                  "the same, printed and read by the application")
        if self.failed:
            return
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        for lo in range(0, count, 4000):
            self.take([Gen(base + i).case(str(i)) for i in range(lo, min(count, lo + 4000))], "random directives, and those of random beanfiles")
            if self.failed:
                return


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        try:
            x.all()
            if x.failed:
                c = x.minimize(x.failed)
                violation(prop, {"property": prop, "how": "the specification spec/FormatTrace.tla does not allow this: what is printed of directives, what is read of that (docs), and what is dumped of them",
                                 "beanfile": c.get("file"), "directives": c.get("dirs"), "docs": c["docs"], "dumps": [x for x in c["dumps"] if x["has"] or x["there"]]})
        finally:
            x.w.close()
        if x.w.lacks:
            x.parts.append("not explored, for want of a part of Clojure: " + "; ".join(sorted(x.w.lacks)))
            print("NOTE: " + x.parts[-1])
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4], "parts": x.parts,
               "explanation": "states and transitions are those of TLC over Format.tla (FormatMC) and over the validation of texts (FormatTrace); "
                              "traces are texts printed by the application's own Clojure code, run by the interpreter lib/clj.py, and read by the application and its server"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
