"""The checks of loading in the application, with plugins: Plugins explored
exhaustively over small scripts of plugins, those and random ones given to the
application with real beanfiles, and what becomes of the directives and is told
of errors judged by TLC (PluginsTrace).  The Clojure code is run by clj.py."""
import json, os, random, re, time
from common import *
from check_query import Workers
import gen, model
import cljload

ASSUME = ["the interpreter lib/clj.py runs the Clojure sources as Clojure does (checked by the golden tests of the repository, test-cases)",
          "plugins follow the scripts of lib/cljload.py; what the server answers is given (the properties of the server are C01-C24)"]
KINDS = dict(r1="r", r2="r", b1="b", b2="b", w1="w", w2="w")
SCENE = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A 1 USD
  Assets:A -1 USD
2020-01-03 note Assets:A "n"
"""
RAWS = [{"kind": "open", "date": "2020-01-01", "base": "t1", "n": 0}, {"kind": "txn", "date": "2020-01-02", "base": "t2", "n": 2},
        {"kind": "note", "date": "2020-01-03", "base": "t3", "n": 0}]


def plug(short, *rules, config=None, name=None):
    """a plugin as a beanfile asks for it, and what it comes to"""
    ns = "verif." + short
    fault = {"none": "Failed to find either booked-xf or raw-xf in plugin", "thrower": "Error resolving config"}.get(short, "")
    if short in ("nowhere", "broken"):
        fault = "could not load namespace for plugin"
    elif config is not None and not fault:
        fault = "Error resolving config"
    kind = "" if fault else KINDS.get(short, "w")
    text = config if config is not None else "[%s]" % " ".join("[%d :%s :%s]" % r for r in rules) if rules else None
    return {"name": name or ns, "short": short, "ns": ns, "fault": fault, "raw": kind in ("r", "w"), "booked": kind in ("b", "w"),
            "script": [{"n": n, "kind": k, "do": d} for n, k, d in rules], "text": text}


ANY = "any"
THEMES = {
    "flow": [plug("r1", (1, ANY, "drop")), plug("r2", (0, "txn", "mark")), plug("w1", (2, ANY, "after")), plug("b1", (0, ANY, "copy")),
             plug("r1", (0, ANY, "twice")), plug("b2", (0, "txn", "rev"), (1, ANY, "hold")), plug("w2"), plug("w1", (1, ANY, "hold"), (2, ANY, "before")),
             plug("r2", (0, ANY, "opt")), plug("r2", (0, ANY, "pop")), plug("b1", (1, ANY, "drop"), (2, ANY, "twice"))],
    "faults": [plug("r1", (0, "open", "err")), plug("r2", (2, ANY, "throw")), plug("w1", (2, ANY, "bad")), plug("nowhere"), plug("none"), plug("broken"),
               plug("b1", (0, "txn", "err")), plug("b2", (1, ANY, "newerr")), plug("w2", (0, "txn", "mark")), plug("r2", (1, ANY, "newerr"), (2, ANY, "err")),
               plug("r1", config="[1 2"), plug("thrower"), plug("r1", (0, "open", "drop")), plug("under-the-score", (1, ANY, "mark"), name="verif.under_the_score"),
               plug("w1", (2, ANY, "after")), plug("r1", (0, "txn", "rev"))],
}
CONF = {"C29": dict(quick=[("flow", 2), ("faults", 2)], thorough=[("flow", 3), ("faults", 3)], faulty=0.15),
        "C33": dict(quick=[("faults", 2)], thorough=[("faults", 3), ("flow", 2)], faulty=0.6)}
COUNT = {"quick": 1500, "thorough": 25000}


def explore(scratch, name, depth):
    path = scratch.path("theme-%s.ndjson" % name)
    universe = [{k: v for k, v in p.items() if k != "text"} for p in THEMES[name]]
    write_ndjson(path, [{"plugins": universe, "raws": RAWS, "depth": depth}])
    r = tlc(spec_dir(scratch), "PluginsMC", env={"THEME": path}, timeout=800)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
    hs = sorted({tuple(int(x) for x in re.findall(r"\d+", t[t.index('"B"'):])) for t in r.prints("B")})
    return r, [{"id": "%s%d" % (name, i), "plugs": [THEMES[name][k - 1] for k in h], "body": SCENE} for i, h in enumerate(hs)]


def beanfile(c):
    lines = ['plugin "%s"%s' % (p["name"], ' "%s"' % p["text"] if p["text"] is not None else "") for p in c["plugs"]]
    return "\n".join(lines + [c["body"]])


def run_cases(workers, scratch, cases):
    todo = []
    for c in cases:
        c["file"] = scratch.path("x%s.beancount" % c["id"])
        with open(c["file"], "w", encoding="utf8") as f:
            f.write(beanfile(c))
        todo.append({"job": "load", "id": c["id"], "file": c["file"], "files": 1})
    for c, r in zip(cases, workers.run(todo)):
        c.update({k: r[k] for k in ("env", "book", "obs", "skip") if k in r})
        os.unlink(c["file"])
    return [c for c in cases if "skip" not in c]


def judge(scratch, prop, cases, timeout=800):
    path = scratch.path("cases.ndjson")
    rows = [{"id": c["id"], "env": c["env"], "book": c["book"], "obs": c["obs"],
             "plugs": [{k: v for k, v in p.items() if k != "text"} for p in c["plugs"]]} for c in cases]
    r = tlc_cases(spec_dir(scratch), "PluginsTrace", path, rows, size=2000, env={"CASES": path, "PROP": prop}, args=("-continue",), timeout=timeout)
    return r, [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"([^"]*)"\s*>>$', t).groups() for t in r.prints("RUN")]


class Gen:
    def __init__(self, seed, conf):
        self.r = random.Random("plugins-%s" % seed)
        self.seed, self.conf = seed, conf

    def p(self, x):
        return self.r.random() < x

    def rule(self):
        r = self.r
        do = ["mark"] * 4 + ["drop", "copy", "before", "after", "twice", "hold", "opt", "rev"] * 2 + ["pop"]
        if self.p(self.conf["faulty"] / 2):
            do = ["err"] * 4 + ["newerr"] * 2 + ["throw", "bad", "pop"]
        return (r.choice([0, 0, 1, 2, 3, 4, 7]), r.choice([ANY] * 4 + ["txn"] * 3 + ["open", "balance", "pad", "price", "close", "custom", "note", "event"]), r.choice(do))

    def plug(self):
        r = self.r
        if self.p(self.conf["faulty"] / 12):
            return r.choice([plug("nowhere"), plug("none"), plug("broken"), plug("thrower"), plug("r1", config="[1 2"), plug("w1", config="#nonsense 1")])
        short = r.choice(["r1", "r1", "r2", "b1", "b1", "b2", "w1", "w2", "under-the-score"])
        return plug(short, *[self.rule() for _ in range(r.choice([0, 1, 1, 2, 3]))], name=self.r.choice(["verif.under_the_score", "verif.under_the_score", "verif.under-the_score", "verif.under_the-score"]) if short == "under-the-score" and self.p(0.8) else None)

    def case(self, id):
        r = self.r
        tidy = self.p(0.75 - self.conf["faulty"] / 2)
        w = dict(broken=0, close=0, unopened=0, wrongcur=0, reopen=0, elide=1) if tidy else {}
        dirs, o = gen.Gen(self.seed, weights=w, tidy=tidy, opts=0.1).ledger()
        if len(dirs) > 14:
            dirs = dirs[:r.randint(6, 14)]
        body = model.ledger_text(dirs, o)
        if self.p(self.conf["faulty"] / 10):
            body += "\n2020-01-01 open\n2020-01-01 clothes Assets:A\n"
        return {"id": id, "plugs": [self.plug() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))], "body": body}


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None
        d = scratch.path("plugins")
        cljload.write_plugins(d)
        self.w = Workers([d])

    def take(self, cases, what):
        cases = run_cases(self.w, self.s, cases)
        r, runs = judge(self.s, self.prop, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        n = {}
        for _, v in runs:
            n[v] = n.get(v, 0) + 1
        self.parts.append("%s: %s" % (what, n))
        self.samples += [{"beanfile": beanfile(c), "told": c["obs"]["said"]} for c in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if len({x[0] for x in runs}) != len(cases) or r.violated and not bad:
            raise ToolError("TLC didn't judge every case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(beanfile(c)))

    def minimize(self, c):
        for _ in range(15):
            tries = []
            ps = c["plugs"]
            for k, p in enumerate(ps):
                tries.append(dict(c, plugs=ps[:k] + ps[k + 1:]))
                rules = [(x["n"], x["kind"], x["do"]) for x in p["script"]]
                tries += [dict(c, plugs=ps[:k] + [plug(p["short"], *(rules[:j] + rules[j + 1:]), name=p["name"])] + ps[k + 1:]) for j in range(len(rules))]
            parts = re.split(r"\n(?=\S)", c["body"])
            tries += [dict(c, body="\n".join(parts[:k] + parts[k + 1:])) for k in range(len(parts))]
            tries = [dict(t, id="t%d" % i) for i, t in enumerate(tries)]
            for lo in range(0, len(tries), 40):
                some = run_cases(self.w, self.s, tries[lo:lo + 40])
                if not some:
                    continue
                r, runs = judge(self.s, self.prop, some)
                bad = {x[0] for x in runs if x[1] == "BAD"}
                some = [t for t in some if t["id"] in bad]
                if some:
                    break
            else:
                break
            c = min(some, key=lambda t: len(beanfile(t)))
        return c

    def all(self):
        for name, depth in CONF[self.prop][self.tier]:
            r, cases = explore(self.s, name, depth)
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append("theme %s, depth %d: %d states of the specification explored, %d lists of plugins" % (name, depth, r.distinct, len(cases)))
            self.take(cases, "replay of theme %s" % name)
            if self.failed:
                return
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        for lo in range(0, count, 4000):
            self.take([Gen(base + i, CONF[self.prop]).case(str(i)) for i in range(lo, min(count, lo + 4000))], "random plugins and beanfiles")
            if self.failed:
                return


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        try:
            x.all()
            if x.failed:
                c = x.minimize(x.failed)
                violation(prop, {"property": prop, "how": "the specification spec/PluginsTrace.tla does not allow what the application makes of this beanfile",
                                 "beanfile": beanfile(c), "plugins": [{k: v for k, v in p.items() if k != "text"} for p in c["plugs"]], "server": c["env"], "booked": c["book"], "observed": c["obs"]})
        finally:
            x.w.close()
        if x.w.lacks:
            x.parts.append("not explored, for want of a part of Clojure: " + "; ".join(sorted(x.w.lacks)))
            print("NOTE: " + x.parts[-1])
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4], "parts": x.parts,
               "explanation": "states and transitions are those of TLC over Plugins.tla (PluginsMC) and over the validation of what was observed (PluginsTrace); "
                              "traces are beanfiles loaded by the application's own Clojure code, run by the interpreter lib/clj.py, with the real limabean-pod"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
