"""The checks of the properties of booking: the specification Ledger explored
exhaustively on small universes, those behaviours replayed into the real server,
and random ledgers run through the real server, all judged by TLC."""
import copy, sys
from ledger import *
from gen import Gen
from themes import theme

ASSUME = ["the Java evaluators of decimals and strings agree with DecPure.tla (checked by DecCheck on a sample)",
          "ledgers whose booking meets a known quirk of the booking library are not compared from there on (see odd)"]

# per property: themes (name, depth) for quick and thorough; weights and other
# settings of the random ledgers; how many of them
CONF = {
    "C01": dict(quick=[("tolerance", 1), ("elide2", 1)], thorough=[("tolerance", 1), ("elide3", 1), ("lots-fifo", 3)],
                weights=dict(broken=12, price=8, multi=6, auto=6, sell=6), opts=0.4),
    "C02": dict(quick=[("elide2", 1)], thorough=[("elide2", 1), ("elide3", 1)],
                weights=dict(elide=12, auto=8, random=6, price=10, buy=8, multi=6, broken=0), opts=0.1),
    "C03": dict(quick=[("life", 3)], thorough=[("life", 4)],
                weights=dict(open=4, close=6, reopen=5, unopened=4, pad=5, balance=6), late_open=0.4, opts=0.1),
    "C04": dict(quick=[("padbal", 2), ("life", 2)], thorough=[("padbal", 4)],
                weights=dict(wrongcur=8, pad=6, balance=8, multi=5), constrain=0.8, opts=0.1),
    "C05": dict(quick=[("tolerance", 1), ("rollup", 2)], thorough=[("tolerance", 1), ("padbal", 4), ("rollup", 4)],
                weights=dict(balance=20, rollup=6, pad=2), opts=0.4),
    "C06": dict(quick=[("padbal", 3)], thorough=[("padbal", 4), ("rollup", 4)],
                weights=dict(pad=14, balance=16, buy=3, sell=2), opts=0.1),
    "C07": dict(quick=[("lots-fifo", 2), ("lots-lifo", 2), ("lots-hifo", 2), ("lots-strict", 2),
                       ("lots-strict-with-size", 2), ("lots-none", 1)],
                thorough=[("lots-" + m, 3) for m in ("fifo", "lifo", "hifo", "strict", "strict-with-size", "none", "average")],
                weights=dict(buy=24, sell=22, simple=3, auto=2, balance=2, pad=1, price=1), opts=0.3, size=(8, 16)),
    "C08": dict(quick=[("elide2", 1), ("lots-fifo", 1)], thorough=[("elide2", 1), ("padbal", 3), ("lots-fifo", 3), ("lots-lifo", 3)],
                weights=dict(passive=10, broken=0, buy=10, sell=10), decorate=0.8, opts=0.1),
    "C09": dict(quick=[("life", 2), ("padbal", 2)], thorough=[("life", 4), ("padbal", 3), ("elide2", 1)],
                weights=dict(broken=8, unopened=3, wrongcur=3, close=3, reopen=3, pad=6), opts=0.2),
    "C10": dict(quick=[("life", 2), ("padbal", 2), ("elide2", 1)], thorough=[("life", 4), ("padbal", 3), ("elide2", 1)],
                weights=dict(broken=8, unopened=4, wrongcur=4, close=3, reopen=4, pad=6, elide=6), constrain=0.5, opts=0.1),
    "C11": dict(quick=[("padbal", 2)], thorough=[("padbal", 4)],
                weights=dict(balance=24, simple=16, multi=6, close=0, pad=3), opts=0.1, size=(10, 20)),
    "C12": dict(quick=[("optmethods", 2)], thorough=[("optmethods", 3), ("tolerance", 1)],
                weights=dict(broken=10, balance=10, buy=12, sell=10), opts=1.0, pair="opts"),
    "C13": dict(quick=[], thorough=[], weights=dict(elide=6, passive=8), decorate=0.6, opts=0.3, pair="params"),
}
COUNT = {"quick": 700, "thorough": 12000}


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = self.odd = self.booked = 0
        self.outcomes, self.samples, self.parts = {}, [], []
        self.failed = None

    def take(self, r, runs, cases, what, sample=1):
        self.states += r.distinct
        self.transitions += r.generated
        n = {}
        for id, run, outcome, out, classes, flags in runs:
            n[outcome] = n.get(outcome, 0) + 1
            for c in classes:
                self.outcomes[c] = self.outcomes.get(c, 0) + 1
            self.booked += out
        self.traces += sum(n.values()) - n.get("odd", 0)
        self.odd += n.get("odd", 0)
        self.parts.append("%s: %s" % (what, n))
        for c in cases[:sample]:
            x = c["runs"][-1]
            self.samples.append({"what": what, "mode": x["mode"], "ledger": model.ledger_text(x["dirs"], x["opts"]),
                                 "answer": {"status": x["obs"]["status"], "errors": x["obs"]["errs"],
                                            "booked": len(x["obs"]["out"])}})
        if r.violated:
            bad = [x[0] for x in runs if self.prop in x[5]]
            if not bad:
                raise ToolError("TLC reports a violation but no case: " + brief(r.out))
            self.failed = [c for c in cases if c["id"] == bad[0]][0]

    def themes(self):
        for name, depth in CONF[self.prop][self.tier]:
            th = theme(name, depth)
            r, bs = explore(self.s, th)
            self.states += r.distinct
            self.transitions += r.generated
            cases = replay(self.s, th, bs, "m")
            self.parts.append("theme %s, depth %d: %d states of the specification explored, %d behaviours replayed"
                              % (name, depth, r.distinct, len(bs)))
            r, runs = judge(self.s, self.prop, cases)
            self.take(r, runs, cases[len(cases) // 2:] + cases[:len(cases) // 2], "replay of theme %s" % name)
            if self.failed:
                return

    def random(self, count, batch=3000):
        conf = CONF[self.prop]
        kw = {k: conf[k] for k in ("weights", "opts", "decorate", "late_open", "constrain", "size") if k in conf}
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        pair = conf.get("pair", "")
        for lo in range(0, count, batch):
            cases = []
            for i in range(lo, min(count, lo + batch)):
                dirs, opts = Gen(base + i, **kw, tidy=i % 3 == 0, params=not pair and i % 4 == 3).ledger()
                if pair == "params":
                    runs = [("file", dirs, opts)] * 2
                elif pair == "opts":
                    m = "params" if i % 3 == 1 else "file"
                    runs = [(m, dirs, model.NO_OPTS), (m, dirs, opts)]
                else:
                    runs = [("params" if i % 4 == 3 else "file", dirs, opts)]
                cases.append(case(str(i), copy.deepcopy(runs) if pair == "params" else runs, pair))
            if lo == 0:
                cases += self.large(base, pair)
            cases = run_cases(self.s, cases)
            if pair == "opts":          # prune what fails with the options given
                singles = [dict(c, runs=c["runs"][1:], pair="") for c in cases]
            else:
                singles = cases
            with ThreadPoolExecutor(JOBS) as ex:
                less = [c for c in ex.map(lambda c: prune(self.s, c), singles) if "-" in c["id"]]
            if pair:
                again = []
                for c in less:
                    r = c["runs"][0]
                    second = (r["mode"], r["dirs"], model.NO_OPTS if pair == "opts" else r["opts"])
                    first = (r["mode"], r["dirs"], r["opts"])
                    again.append(case(c["id"], [second, first] if pair == "opts" else [first, second], pair))
                less = run_cases(self.s, again)
            cases += less
            r, runs = judge(self.s, self.prop, cases)
            self.take(r, runs, cases, "random ledgers", sample=2 if lo == 0 else 0)
            if self.failed:
                return

    def large(self, base, pair):
        """ledgers of hundreds of directives"""
        calm = dict(elide=0, broken=0, pad=0, balance=0, rollup=0, close=0, wrongcur=0, unopened=0, reopen=0, random=0, sell=0, open=0)
        kinds = [dict(tidy=True, weights=calm, constrain=0, late_open=0), dict(tidy=True, weights=dict(calm, balance=4, pad=1, sell=2), late_open=0)]
        return [case("large%d" % i, copy.deepcopy([(m, dirs, o) for m in (("file",) * 2 if pair else ("params" if i else "file",))]), pair)
                for i, kw in enumerate(kinds) for dirs, o in [Gen(base + 999000 + i, size=(270, 270), opts=0, **kw).ledger()]]

    def flagged(self, cases):
        """The cases which refute the property."""
        r, runs = judge(self.s, "C00", cases)
        bad = {x[0] for x in runs if self.prop in x[5]}
        return [c for c in cases if c["id"] in bad]

    def minimize(self, c):
        """Leave out what the violation does not need."""
        c = dict(c, id="v0")
        for k in range(12):
            n = len(c["runs"][0]["dirs"])
            tries = []
            cuts = [(i, i + w) for w in sorted({max(1, n // 3), 1}, reverse=True) for i in range(0, n, w)]
            for i, (a, b) in enumerate(cuts):
                runs = [(r["mode"], r["dirs"][:a] + r["dirs"][b:], r["opts"]) for r in c["runs"]]
                tries.append(case("t%d-%d" % (k, i), copy.deepcopy(runs), c["pair"]))
            bad = self.flagged(run_cases(self.s, tries))
            if not bad:
                break
            c = min(bad, key=lambda x: len(x["runs"][0]["dirs"]))
        return c

    def report(self):
        try:
            c = self.minimize(self.failed)
        except ToolError as e:
            c = self.failed
        what = {"property": self.prop,
                "how": "the specification spec/LedgerTrace.tla, given these directives, does not allow this answer",
                "runs": [{"mode": r["mode"], "ledger": model.ledger_text(r["dirs"], r["opts"]), "answer": r["obs"]}
                         for r in c["runs"]],
                "case": c}
        violation(self.prop, what)


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        x.themes()
        if not x.failed:
            x.random(int(os.environ.get("LIMA_COUNT", COUNT[tier])))
        if x.failed:
            x.report()
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces,
               "samples": x.samples[:4], "parts": x.parts, "not_compared_odd": x.odd, "directives_booked": x.booked,
               "ledgers_with_errors_about": x.outcomes,
               "explanation": "states and transitions are those of TLC over Ledger.tla (LedgerMC) and over the "
                              "validation of observed answers (LedgerTrace); traces are ledgers booked by the real server"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
