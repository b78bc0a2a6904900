"""The checks of queries: Query explored exhaustively over small ledgers, those
and random ones given to the application, and its answers judged by TLC
(QueryTrace).  The application is Clojure, run from its sources by clj.py."""
import json, os, random, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import gen, model

ASSUME = ["the interpreter lib/clj.py runs the Clojure sources as Clojure does (checked by the golden tests of the repository, test-cases)",
          "dates of four-digit years, texts without line breaks, patterns which are literal or anchored"]


# ---------------------------------------------------------------- values
def D(n):
    return {"n": n, "s": "%04d-%02d-%02d" % (n // 10000, n // 100 % 100, n % 100)}


def N(t):
    """a number as written"""
    sign, t = (-1, t[1:]) if t[0] == "-" else (1, t)
    a, _, b = t.partition(".")
    return {"m": str(sign * int(a + b)), "s": len(b)}


def cost(date, cur, per, label=(), merge=()):
    return [{"date": D(date), "cur": cur, "per": N(per), "label": list(label), "merge": list(merge)}]


def pst(acc, u, cur, cost=(), flag=()):
    return {"acc": acc, "flag": list(flag), "u": N(u), "cur": cur, "cost": list(cost)}


def txn(date, *ps, payee=(), narration=()):
    return {"k": "txn", "date": D(date), "payee": list(payee), "narration": list(narration), "ps": list(ps)}


def opening(acc, *booking):
    return {"k": "open", "date": D(20190101), "acc": acc, "booking": list(booking)}


NAMES = {"assets": "Assets", "liabilities": "Liabilities", "equity": "Equity", "income": "Income", "expenses": "Expenses"}
OTHERS = {"assets": "Activa", "liabilities": "Liabilities", "equity": "Equity", "income": "Assets", "expenses": "Expenses:Food"}


def opts(*booking, names=NAMES):
    return {"booking": list(booking), "names": names}


def q(fn, *fs):
    return {"fn": fn, "fs": list(fs)}


def fd(f, *a, text=False):
    return {"f": f, "a": list(a), "text": text}


def between(a, b, text=False):
    return {"f": "date>=<", "a": list(a), "b": list(b), "text": text}


def fn(f, *names):
    return {"f": f, "names": list(names)}


def fc(c):
    return {"f": "cur", "name": c}


def fm(f, lit, a=False, b=False):
    return {"f": f, "re": {"lit": lit, "from": a, "to": b}}


def fs(f, *x):
    return {"f": f, "fs": list(x)}


# ---------------------------------------------------------------- exploration
def theme(name, depth):
    A, B = "Assets:A", "Assets:B"
    if name == "lots":
        c1, c2, c3, c4 = cost(20200101, "USD", "10"), cost(20200101, "USD", "10.00"), cost(20200102, "USD", "9"), cost(20200101, "USD", "10", ["l"])
        ps = [pst(A, "5", "X", c1), pst(A, "-5", "X", c2), pst(A, "2.50", "X", c3), pst(A, "5", "X", c4), pst(A, "-5.0", "X"), pst(A, "5", "W")]
        return dict(universe=[txn(20200103, p) for p in ps], scene=[], queries=[q("inventory")], depth=depth,
                    opts=[opts(), opts("none"), opts("average")])
    if name == "lots2":
        c = [cost(20200101, "USD", "10", merge=[True]), cost(20200101, "USD", "10", merge=[False]), cost(20200101, "EUR", "9.5"), cost(20200101, "USD", "11", ["a"]),
             cost(20200101, "USD", "11", ["b"])]
        return dict(universe=[txn(20200103, pst(A, u, "X", x)) for x in c for u in ("1", "-1.5")],
                    scene=[opening(A, "fifo"), txn(20200102, pst(A, "1", "X", c[3]))], queries=[q("inventory")], depth=depth, opts=[opts("none")])
    if name == "methods":
        us = [opening(A, "none"), opening(A, "fifo"), opening(A), opening(A, "average"), txn(20200101, pst(A, "1", "X", cost(20200101, "USD", "1"))),
              txn(20200101, pst(A, "2", "X", cost(20200101, "USD", "1")), pst(B, "-2", "USD"))]
        return dict(universe=us, scene=[txn(20200101, pst(A, "3", "X", cost(20200101, "USD", "1")))], queries=[q("inventory"), q("journal")], depth=depth,
                    opts=[opts(), opts("none"), opts("hifo")])
    if name == "rollup":
        ps = [pst(A, "1", "X"), pst(A + ":B", "2.5", "X"), pst(A + ":B", "-1", "X"), pst("Income", "-1.00", "X"), pst("Assets:AB", "4", "Y"), pst("Liabilities:C", "1", "Y"),
              pst(A + ":B", "1", "X", cost(20200101, "Y", "1"))]
        return dict(universe=[txn(20200103, p) for p in ps], scene=[], queries=[q("rollup"), q("rollup", fc("X")), q("balances"), q("income-statement")],
                    depth=depth, opts=[opts(), opts(names=OTHERS)])
    if name == "journal":
        us = [txn(20200101, pst(A, "1", "X"), pst(B, "-1", "X", flag=["!"]), payee=["p"]), txn(20200102, pst(A, "2.50", "X"), narration=["n"]),
              txn(20200101, pst(A, "-3.5", "X"), pst(B, "0.1", "Y", cost(20200101, "X", "2"))), txn(20200103, pst(B, "-0.1", "Y")), opening(A)]
        return dict(universe=us, scene=[], queries=[q("journal"), q("journal", fn("acc", A)), q("journal", fn("acc"))], depth=depth, opts=[opts()])
    if name == "filters":
        us = [txn(20200229, pst(A, "1", "X"), pst(A + ":B", "-1", "Y"), payee=["Bank of A"], narration=["food"]),
              txn(20200301, pst("Assets:AB", "2", "X"), pst("Assets", "2", "Z"), narration=["Food (1)"]), txn(20191231, pst(A, "4", "Y"), payee=[""])]
        single = [fd(f, *a) for f in ("date<", "date<=", "date>", "date>=") for a in ((2020,), (2020, 3), (2020, 2, 29), (2020, 3, 1))]
        single += [fd("date<", 2020, 2, 29, text=True), fd("date>", 2019, 2, 29), fd("date<=", 2020, 13), between((2020,), (2021,)), between((2020, 2), (2020, 3)),
                   between((2020, 2, 29), (2020, 3, 1)), between((2020, 2, 29), (2020, 3, 1), text=True), between((2020, 3, 1), (2020, 2, 29)),
                   between((2020, 1), (2020, 0)), fn("acc", A), fn("acc", A, "Assets"), fn("acc", "Assets:"), fn("sub-acc", A), fn("sub-acc", "Assets"),
                   fn("sub-acc", "Assets:AB", A + ":B"), fn("sub-acc"), fn("sub-acc", "Asset"), fc("X"), fc("x"), fm("payee-match", "A"), fm("payee-match", "of"), fm("payee-match", "Bank", True),
                   fm("payee-match", "Bank", False, True), fm("payee-match", ""), fm("narration-match", "food"), fm("narration-match", "(1)"), fm("narration-match", "ood", False, True),
                   fm("narration-match", "food", True, True)]
        some = [fd("date<", 2020, 3), fn("sub-acc", A), fc("X"), fm("payee-match", "Bank"), fm("narration-match", "od")]
        both = [fs(f, *x) for f in ("every-f", "some-f", "none-f") for x in [()] + [(a, b) for a in some for b in some if a is not b]]
        both += [fs("none-f", fs("some-f", some[0], some[1]), some[2]), fs("some-f", fs("none-f", some[3]), fs("every-f", some[1], some[2])), fs("every-f", fd("date<", 2020, 13))]
        qs = [q("journal", f) for f in single + both] + [q("journal", a, b) for a in some for b in some if a is not b] + [q("journal", some[0], some[1], some[2])]
        return dict(universe=us, scene=[], queries=qs, depth=depth, opts=[opts()])
    raise KeyError(name)


CONF = {
    "C30": dict(quick=[("lots", 3), ("lots2", 2), ("methods", 2)], thorough=[("lots", 4), ("lots2", 3), ("methods", 4)],
                fns=["inventory", "inventory", "inventory", "balances", "income-statement"], filters=0.2),
    "C31": dict(quick=[("filters", 2)], thorough=[("filters", 3)], fns=["journal", "inventory", "journal", "balances"], filters=1.0),
    "C32": dict(quick=[("rollup", 2), ("journal", 3)], thorough=[("rollup", 4), ("journal", 4)], fns=["rollup", "rollup", "journal"], filters=0.2),
}
COUNT = {"quick": 1500, "thorough": 30000}


def explore(scratch, name, depth):
    th = theme(name, depth)
    path = scratch.path("theme-%s.ndjson" % name)
    write_ndjson(path, [th])
    r = tlc(spec_dir(scratch), "QueryMC", env={"THEME": path}, timeout=800)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
    seen, cases = set(), []
    for t in r.prints("B"):
        m = re.match(r'<<\s*"B",\s*(\d+),\s*(\d+),\s*<<([\d,\s]*)>>\s*>>$', t)
        key = (int(m.group(1)), int(m.group(2)), tuple(int(x) for x in m.group(3).split(",") if x.strip()))
        if key not in seen:
            seen.add(key)
            o, k, h = key
            cases.append({"opts": th["opts"][o - 1], "query": th["queries"][k - 1], "dirs": th["scene"] + [th["universe"][x - 1] for x in h]})
    for i, c in enumerate(cases):
        c["id"] = "m%d" % i
    return r, cases


# ---------------------------------------------------------------- running
class Workers:
    """processes which run the application on cases"""
    def __init__(self, extra=(), **more):
        self.lacks = set()
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ, LIMA_REPO=REPO, PYTHONHASHSEED="0", **more)
        self.ps = [subprocess.Popen([sys.executable, os.path.join(here, "cljrun.py")] + list(extra), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                    stderr=subprocess.PIPE, env=env, text=True, encoding="utf8") for _ in range(JOBS)]

    def run(self, cases):
        todo = list(reversed(list(enumerate(cases))))
        res = [None] * len(cases)

        def work(p):
            while True:
                try:
                    i, c = todo.pop()
                except IndexError:
                    return
                try:
                    p.stdin.write(json.dumps(c) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except BrokenPipeError:
                    line = ""
                if not line:
                    raise ToolError("the interpreter ended: " + p.stderr.read()[-3000:])
                r = json.loads(line)
                if "unsupported" in r:
                    self.lacks.add(r["unsupported"])
                    r["skip"] = "unsupported"
                res[i] = r
        with ThreadPoolExecutor(len(self.ps)) as ex:
            for f in [ex.submit(work, p) for p in self.ps]:
                f.result()
        # what can't be run isn't judged; if nothing can, there is nothing to say
        if self.lacks and all(r.get("skip") == "unsupported" for r in res):
            raise ToolError("the interpreter lacks: " + "; ".join(sorted(self.lacks)))
        return res

    def close(self):
        for p in self.ps:
            try:
                p.stdin.close()
                p.wait(20)
            except (OSError, subprocess.TimeoutExpired):
                p.kill()


def run_cases(workers, cases):
    for c, r in zip(cases, workers.run([dict(c, job="query") for c in cases])):
        c.update({k: r[k] for k in ("obs", "dirs", "opts", "text", "skip") if k in r})
    return [c for c in cases if "skip" not in c]


def judge(scratch, cases, timeout=800):
    path = scratch.path("cases.ndjson")
    r = tlc_cases(spec_dir(scratch), "QueryTrace", path, [{k: c[k] for k in ("id", "dirs", "opts", "query", "obs")} for c in cases],
                  env={"CASES": path}, timeout=timeout)
    return r, [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"([^"]*)"\s*>>$', t).groups() for t in r.prints("RUN")]


# ---------------------------------------------------------------- random
ACCS = ["Assets:Bank", "Assets:Bank:Main", "Assets:Bank:Main:Sub", "Assets:Bank:Main:Sub:Low:Lowest", "Assets:Bank:Main:Sub:Low", "Assets:BankTwo", "Assets:Broker", "Liabilities:Card", "Liabilities", "Income:Job",
        "Income", "Expenses:Food", "Expenses:Food:Out", "Expenses:Caf\u00e9", "Equity:Opening", "Activa:X"]
WORDS = ["", "lunch", "Lunch (out)", "Pay day", "caf\u00e9", "say \"hi\"", "back\\slash", "a.b", "a+b", "x|y", "[z]", "$5", "^top"]


class Gen:
    def __init__(self, seed, conf):
        self.r = random.Random("query-%s" % seed)
        self.conf = conf

    def p(self, x):
        return self.r.random() < x

    def number(self, neg=True):
        r = self.r
        s = r.choice([0, 0, 1, 2, 2, 2, 3, 6, 8, 12])
        n = r.choice([r.randint(1, 9), r.randint(1, 9), r.randint(1, 2000), r.choice([0, 10 ** r.randint(1, 12)])])
        t = "%0*d" % (s + 1, n)
        return ("-" if neg and self.p(0.45) and n else "") + (t[:-s] + "." + t[-s:] if s else t)

    def date(self):
        return self.r.choice([20191231, 20200101, 20200131, 20200228, 20200229, 20200301, 20200302, 20201231, 20210101])

    def cost(self):
        r = self.r
        return cost(self.date(), r.choice(["USD", "USD", "EUR"]), r.choice(["10", "10.00", "10.0", "9.5", "100", "2"]),
                    r.choice([[], [], [], ["a"], ["b"], [""]]), r.choice([[], [], [], [True], [False]]))

    def text(self):
        return [self.r.choice(WORDS)] if self.p(0.7) else []

    def dirs(self):
        r = self.r
        accs = r.sample(ACCS, r.randint(1, 6))
        curs = r.sample(["USD", "EUR", "X", "Y", "GBP.X"], r.randint(1, 3))
        res = []
        for a in accs:
            if self.p(0.6):
                res.append(opening(a, *([r.choice(["strict", "none", "none", "fifo", "lifo", "hifo", "strict-with-size"] + (["average"] if self.p(0.1) else []))] if self.p(0.5) else [])))
        kept = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])):
            if self.p(0.1):
                res.append({"k": r.choice(["close", "price", "note", "event"]), "date": D(self.date())})
            ps = []
            for _ in range(r.choice([0, 1, 2, 2, 2, 3])):
                if kept and self.p(0.3):        # undo something
                    p = json.loads(json.dumps(r.choice(kept)))
                    m = int(p["u"]["m"])
                    p["u"] = {"m": str(-m), "s": p["u"]["s"]}
                else:
                    p = pst(r.choice(accs), self.number(), r.choice(curs), self.cost() if self.p(0.4) else (), [r.choice("!*PB")] if self.p(0.2) else ())
                kept.append(p)
                ps.append(p)
            res.append(txn(self.date(), *ps, payee=self.text(), narration=self.text()))
        return res

    def dateargs(self):
        r = self.r
        d = self.date()
        a = (d // 10000, d // 100 % 100, d % 100)
        if self.p(0.05):
            a = r.choice([(2020, 13, 1), (2020, 0, 1), (2021, 2, 29), (2020, 4, 31), (2020, 1, 0), (1900, 2, 29)])
        return a

    def filter(self, depth=0):
        r = self.r
        k = r.choice(["date"] * 4 + ["between"] * 2 + ["acc", "sub-acc", "sub-acc", "cur", "match", "match"] + (["comb"] * 3 if depth < 2 else []))
        if k == "date":
            a, n = self.dateargs(), r.choice([1, 2, 3, 3, 3])
            return fd(r.choice(["date<", "date<=", "date>", "date>="]), *a[:n], text=n == 3 and self.p(0.5))
        if k == "between":
            n = r.choice([1, 2, 3, 3])
            a, b = sorted([self.dateargs()[:n], self.dateargs()[:n]]) if self.p(0.9) else (self.dateargs()[:n], self.dateargs()[:n])
            return between(a, b, text=n == 3 and self.p(0.5))
        if k in ("acc", "sub-acc"):
            return fn(k, *[r.choice(ACCS + ["Assets", "Expenses", "Asset", "assets:bank"]) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))])
        if k == "cur":
            return fc(r.choice(["USD", "EUR", "X", "Y", "GBP.X", "usd"]))
        if k == "match":
            w = r.choice(WORDS)
            i = r.randint(0, len(w))
            j = r.randint(i, len(w))
            x, a, b = r.choice([(w, False, False), (w[i:j], False, False), (w[:j], True, False), (w[i:], False, True), (w, True, True), (w.upper(), False, False)])
            return fm(r.choice(["payee-match", "narration-match"]), x, a, b)
        return fs(r.choice(["every-f", "some-f", "none-f"]), *[self.filter(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])

    def query(self):
        r = self.r
        return q(r.choice(self.conf["fns"]), *[self.filter() for _ in range(r.choice([1, 1, 2, 3]))] if self.p(self.conf["filters"]) else [])

    def case(self, id):
        o = opts(*([self.r.choice(["strict", "none", "fifo", "average"])] if self.p(0.2) else []), names=OTHERS if self.p(0.2) else NAMES)
        return {"id": id, "dirs": self.dirs(), "opts": o, "query": self.query()}


def renamed(r, text):
    """the beanfile, maybe with names of its own for the types of accounts"""
    names = dict(NAMES)
    if r.random() < 0.3:
        for k in r.sample(list(NAMES), r.randint(1, 3)):
            names[k] = {"assets": "Activa", "liabilities": "Debts", "equity": "Own", "income": "Assets9", "expenses": "Caf\u00e9s"}[k]
            text = 'option "name_%s" "%s"\n' % (k, names[k]) + text.replace(NAMES[k] + ":", names[k] + ":")
    return text, names


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None
        self.w = Workers()

    def take(self, cases, what):
        cases = run_cases(self.w, cases)
        r, runs = judge(self.s, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        n = {}
        for _, v in runs:
            n[v] = n.get(v, 0) + 1
        self.parts.append("%s: %s" % (what, n))
        self.samples += [{"query": c["text"], "directives": c["dirs"], "answer": c["obs"]} for c in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if r.violated and not bad:
            raise ToolError("TLC reports a violation but no case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(json.dumps(c["dirs"])))

    def minimize(self, c):
        for _ in range(12):
            tries = []
            if "file" in c:
                c = {k: v for k, v in c.items() if k != "file"}
                tries.append(c)
            ds = c["dirs"]
            for k in range(len(ds)):
                tries.append(dict(c, dirs=ds[:k] + ds[k + 1:]))
                if ds[k]["k"] == "txn":
                    tries += [dict(c, dirs=ds[:k] + [dict(ds[k], ps=ds[k]["ps"][:j] + ds[k]["ps"][j + 1:])] + ds[k + 1:]) for j in range(len(ds[k]["ps"]))]
            f = c["query"]["fs"]
            tries += [dict(c, query=dict(c["query"], fs=f[:k] + f[k + 1:])) for k in range(len(f))]
            tries = [dict(t, id="t%d" % i) for i, t in enumerate(tries)]
            for lo in range(0, len(tries), 40):
                some = run_cases(self.w, tries[lo:lo + 40])
                r, runs = judge(self.s, some)
                bad = {x[0] for x in runs if x[1] == "BAD"}
                some = [t for t in some if t["id"] in bad]
                if some:
                    break
            else:
                break
            c = min(some, key=lambda t: len(json.dumps([t["dirs"], t["query"]])))
        return c

    def all(self):
        for name, depth in CONF[self.prop][self.tier]:
            r, cases = explore(self.s, name, depth)
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append("theme %s, depth %d: %d states of the specification explored, %d ledgers and queries" % (name, depth, r.distinct, len(cases)))
            self.take(cases, "replay of theme %s" % name)
            if self.failed:
                return
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        for lo in range(0, count, 5000):
            cases = []
            for i in range(lo, min(count, lo + 5000)):
                g = Gen(base + i, CONF[self.prop])
                if i % 6 == 5:
                    c = {"id": "f%d" % i, "query": g.query(), "file": self.s.path("l%d.beancount" % i)}
                    dirs, o = gen.Gen(base + i, weights=dict(broken=0, close=0, unopened=0, wrongcur=0, reopen=0, elide=1), tidy=True, opts=0.5).ledger()
                    c["beanfile"], names = renamed(g.r, model.ledger_text(dirs, o))
                    c["opts"] = opts(*o["booking"], names=names)
                    with open(c["file"], "w", encoding="utf8") as f:
                        f.write(c["beanfile"])
                    cases.append(c)
                else:
                    cases.append(g.case(str(i)))
            self.take(cases, "random ledgers and queries")
            for c in cases:
                if "file" in c:
                    os.unlink(c["file"])
            if self.failed:
                return


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        try:
            x.all()
            if x.failed:
                c = x.minimize(x.failed)
                violation(prop, {"property": prop, "how": "the specification spec/QueryTrace.tla does not allow this answer to this query of these directives",
                                 "query": c["text"], "beanfile": c.get("beanfile", ""), "directives": c["dirs"], "options": c["opts"], "answer": c["obs"]})
        finally:
            x.w.close()
        if x.w.lacks:
            x.parts.append("not explored, for want of a part of Clojure: " + "; ".join(sorted(x.w.lacks)))
            print("NOTE: " + x.parts[-1])
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4], "parts": x.parts,
               "explanation": "states and transitions are those of TLC over Query.tla (QueryMC) and over the validation of answers (QueryTrace); "
                              "traces are queries answered by the application's own Clojure code, run by the interpreter lib/clj.py"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
