"""The check of the plugin beancount.plugins.auto_accounts: AutoAccounts explored
exhaustively over small beanfiles, those and random ones loaded by the application,
and what the plugin makes of their directives judged by TLC (AutoAccountsTrace).
The Clojure code is run by clj.py."""
import os, random, re, time
from common import *
from check_query import Workers
import gen, model

ASSUME = ["the interpreter lib/clj.py runs the Clojure sources as Clojure does (checked by the golden tests of the repository, test-cases)",
          "the directives which the server reads are given (C14)"]
CONF = {"C36": dict(quick=3, thorough=4)}
COUNT = {"quick": 1200, "thorough": 20000}
PLUGIN = 'plugin "beancount.plugins.auto_accounts"%s\n'
DAY = "2020-01-0%d"


def txn(date, *accs):
    ps = ["  %s %d USD" % (a, 1 if i else 1 - len(accs)) for i, a in enumerate(accs)]
    return {"kind": "txn", "date": date, "accs": list(accs), "auto": False, "rest": "", "text": "\n".join(['%s * "x"' % date] + ps)}


def one(kind, date, text, *accs):
    return {"kind": kind, "date": date, "accs": list(accs), "auto": False, "rest": "", "text": "%s %s" % (date, text)}


A, B, C = "Assets:A", "Assets:B", "Assets:A:C"
D = "2020-01-01"
UNIVERSE = [one("open", D, "open Assets:A", A), one("open", D, "open Assets:B USD", B), txn(D, A, B), txn(D, C, A), txn(D, B, B), txn(D), txn(D, B, C, A),
            one("close", D, "close Assets:A", A), one("note", D, 'note Assets:B "n"', B), one("event", D, 'event "a" "b"'),
            one("pad", D, "pad Assets:A Assets:B", A), one("balance", D, "balance Assets:B 0 USD", B)]
# in the order in which the plugin gets them, which is that of their dates, and of the beanfile
RANK = {"open": 0, "balance": 1, "pad": 3, "txn": 3, "note": 3, "event": 3, "close": 4}


def explore(scratch, depth):
    path = scratch.path("theme.ndjson")
    write_ndjson(path, [{"universe": [{k: v for k, v in d.items() if k != "text"} for d in UNIVERSE], "depth": depth, "order": sorted([A, B, C])}])
    r = tlc(spec_dir(scratch), "AutoAccountsMC", env={"THEME": path}, timeout=800)
    if not r.ok:
        raise ToolError("the specification itself violates a property:\n" + r.out[-3000:])
    picks = sorted({tuple(int(x) for x in re.findall(r"\d+", t[t.index('"B"'):])) for t in r.prints("B")})
    # each on its own day, so that they come as they are picked
    text = lambda h: PLUGIN % "" + "\n".join(re.sub(D, DAY % (k + 1), UNIVERSE[u - 1]["text"]) for k, u in enumerate(h)) + "\n"
    return r, [{"id": "m%d" % i, "text": text(h)} for i, h in enumerate(picks)]


class Gen:
    def __init__(self, seed):
        self.seed, self.r = seed, random.Random("auto-%s" % seed)

    def case(self, id):
        r = self.r
        dirs, o = gen.Gen(self.seed, opts=0.1, weights=dict(unopened=3, close=2, reopen=2)).ledger()
        drop = r.choice([1, 1, 0.7, 0.5, 0.3, 0])
        dirs = [d for d in dirs if d["kind"] != "open" or r.random() >= drop]
        body = model.ledger_text(dirs, o)
        if r.random() < 0.3:
            names = ["Assets:%s" % n for n in ("Z9", "A-b", "Éa", "Aa", "A:A", "AA", "A1", "A:A:A")]
            parts = re.split(r"\n(?=2)", body)
            for _ in range(r.randint(1, 4)):
                accs = [r.choice(names) for _ in range(r.randint(1, 4))]
                date = "20%02d-%02d-%02d" % (r.randint(18, 22), r.randint(1, 12), r.randint(1, 28))
                parts.insert(r.randint(0, len(parts)), txn(date, *accs)["text"] if r.random() < 0.8 else "%s open %s%s" % (date, accs[0], r.choice(["", "\n  auto:", "\n  note: 1", " USD"])))
            body = "\n".join(parts) + "\n"
        at = r.choice([0, 0, 1, 2])
        p = PLUGIN % r.choice(["", "", ' "{:a 1}"'])
        return {"id": id, "text": p + body if at == 0 else body + "\n" + p if at == 1 else p + p + body}


def run_cases(workers, scratch, cases):
    todo = []
    for c in cases:
        c["file"] = scratch.path("x%s.beancount" % c["id"])
        with open(c["file"], "w", encoding="utf8") as f:
            f.write(c["text"])
        todo.append({"job": "auto", "id": c["id"], "file": c["file"]})
    for c, r in zip(cases, workers.run(todo)):
        c.update({k: r[k] for k in ("given", "made", "skip") if k in r})
        os.unlink(c["file"])
    return [c for c in cases if "skip" not in c]


def judge(scratch, cases, timeout=800):
    path = scratch.path("cases.ndjson")
    rows = [{"id": c["id"], "given": c["given"], "made": c["made"], "order": sorted({a for d in c["given"] + c["made"] for a in d["accs"]}, key=lambda a: a.encode("utf-16-be"))} for c in cases]
    r = tlc_cases(spec_dir(scratch), "AutoAccountsTrace", path, rows, size=3000, env={"CASES": path}, args=("-continue",), timeout=timeout)
    return r, [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"([^"]*)"\s*>>$', t).groups() for t in r.prints("RUN")]


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None
        self.w = Workers([])

    def take(self, cases, what):
        cases = run_cases(self.w, self.s, cases)
        r, runs = judge(self.s, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        self.parts.append("%s: %d" % (what, len(runs)))
        self.samples += [{"beanfile": c["text"], "made": [[d["kind"]] + d["accs"] for d in c["made"]]} for c in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if len({x[0] for x in runs}) != len(cases) or r.violated and not bad:
            raise ToolError("TLC didn't judge every case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(c["text"]))

    def minimize(self, c):
        for _ in range(12):
            parts = re.split(r"\n(?=\S)", c["text"])
            tries = [dict(c, id="t%d" % i, text="\n".join(parts[:k] + parts[k + 1:])) for i, k in enumerate(range(1, len(parts)))]
            some = run_cases(self.w, self.s, tries[:60]) if tries else []
            if not some:
                break
            bad = {x[0] for x in judge(self.s, some)[1] if x[1] == "BAD"}
            some = [t for t in some if t["id"] in bad]
            if not some:
                break
            c = min(some, key=lambda t: len(t["text"]))
        return c

    def all(self):
        depth = CONF[self.prop][self.tier]
        r, cases = explore(self.s, depth)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append("depth %d: %d states of the specification explored, %d beanfiles" % (depth, r.distinct, len(cases)))
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003 + 360007
        rand = lambda lo, hi: [Gen(base + i).case(str(i)) for i in range(lo, min(count, hi))]
        self.take(cases, "replay")
        for lo in range(0, count, 4000):
            if self.failed:
                return
            self.take(rand(lo, lo + 4000), "random beanfiles")


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        try:
            x.all()
            if x.failed:
                c = x.minimize(x.failed)
                violation(prop, {"property": prop, "how": "the specification spec/AutoAccountsTrace.tla does not allow what the plugin makes of this beanfile",
                                 "beanfile": c["text"], "given": c["given"], "made": c["made"]})
        finally:
            x.w.close()
        if x.w.lacks:
            x.parts.append("not explored, for want of a part of Clojure: " + "; ".join(sorted(x.w.lacks)))
            print("NOTE: " + x.parts[-1])
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4], "parts": x.parts,
               "explanation": "states and transitions are those of TLC over AutoAccounts.tla (AutoAccountsMC) and over the validation of what was observed (AutoAccountsTrace); "
                              "traces are beanfiles loaded by the application's own Clojure code, run by the interpreter lib/clj.py, with the real limabean-pod"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
