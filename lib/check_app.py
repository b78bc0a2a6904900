"""The check of the runs of the application: App explored exhaustively over short
command lines, those and random runs done by the application, and judged by TLC
(AppTrace).  The Clojure code is run by clj.py."""
import json, os, random, re, time
from common import *
from check_query import Workers

ASSUME = ["the interpreter lib/clj.py runs the Clojure sources as Clojure does (checked by the golden tests of the repository, test-cases)",
          "clojure.tools.cli parses options as documented, and rebel-readline is stood in for by a prompt which does as clojure.main/repl"]
CONF = {"C35": dict(quick=2, thorough=3)}
COUNT = {"quick": 1500, "thorough": 30000}

OPEN = "2020-01-0%d open Assets:%s\n"


def bean(path, is_="file", raw=0, ok=True, final=0, text=""):
    return {"path": path, "is": is_, "raw": raw, "ok": ok, "final": final, "text": text}


def opens(n):
    return "".join(OPEN % (i + 1, "ABCDEFGH"[i]) for i in range(n))


BEANS = [bean("good", raw=2, final=2, text=opens(2)), bean("nothing", text="; nothing\n"),
         bean("pad", raw=4, final=5, text=opens(2) + "2020-01-03 pad Assets:A Assets:B\n2020-01-04 balance Assets:A 5 USD\n"),
         bean("bad", raw=3, ok=False, text=opens(2) + "2020-01-03 * \"x\"\n  Assets:A 1 USD\n  Assets:B 1 USD\n"),
         bean("wrong", raw=0, ok=False, text="2020-01-01 nonsense\n"), bean("folder", "dir", ok=False),
         bean("gone", "none", ok=False)]
OTHER = [bean("a b", raw=1, final=1, text=opens(1)), bean("-dash", raw=3, final=3, text=opens(3)), bean("x=y", raw=4, final=4, text=opens(4))]


def form(does, arg="", val="nil", **kv):
    return dict(does=does, arg=arg, val=val, **kv)


LOADED = ":ok"
FORMS = [form("say", "hello"), form("count"), form("mine"), form("throw", "boom"), form("value", val="42")]
BAD = [form("unreadable", "EOF while reading"), form("unreadable", "Unmatched delimiter: )")]
# what init makes known to the user namespace
KNOWN = [form("say", "true", text=t) for t in (
    "(println (fn? (f/cur \"USD\")))", "(println (fn? type/directives))", "(println (fn? version))", "(println (fn? inventory))", "(println (= [] (journal (f/cur \"ZZZ\"))))",
    "(println (= *ns* (find-ns 'user)))")] + [form("say", "\"x\"", text="(pprint \"x\")")]


def code_of(f):
    import cljapp
    return cljapp.code(f, "")


def world(env=(), user=(), ufiles=(), session=(), beans=BEANS, exprs=(), depth=2, args=()):
    return {"args": list(args), "env": list(env), "user": list(user), "ufiles": list(ufiles), "session": list(session), "beans": beans, "depth": depth,
            "exprs": [{"text": code_of(f), "form": f} for f in exprs]}


def uf(path, *forms):
    return {"path": path, "forms": list(forms)}


def theme(depth):
    """worlds, and the words of their command lines"""
    words = ["-h", "--help", "-v", "--version", "--beanfile", "--eval", "--beanfile=pad", "--eval=(println (count *directives*))", "good", "none", "folder", "-vh", "--nope", "--", "-x",
             "--verbose=1"]
    session = [form("count"), form("throw", "boom"), form("exc"), form("load", "bad", LOADED), form("count"), BAD[0], form("exc"), form("def", "mine here", "#'user/mine"),
               form("mine"), form("load", "pad", LOADED), form("count"), form("mine"),
               form("load", "gone", LOADED), form("count")]
    ex = FORMS + BAD + KNOWN + [form("exc")]
    files = [uf("u1", form("say", "u1"), form("def", "of u1"), form("count")), uf("u2", form("throw", "boom u2"), form("say", "never")),
             uf("u3", form("mine"), form("def", "of u3")), uf("u4", form("away"), form("def", "elsewhere")), uf("u5", form("say", "u5"), BAD[0]), uf("u6"), uf("u 7,x;y", form("say", "u7"))]
    worlds = [world(depth=depth, exprs=ex), world(env=["good"], depth=depth, exprs=ex, session=session)]
    for env in ("", "none", "folder", "bad", "wrong", "nothing", "pad"):
        worlds.append(world(env=[env], depth=1, exprs=ex, session=session))
    for user in ("", "u1", "u2", "u1:u2", "u2:u1", "u3", "u1:u3", "u3:u1:u3", "u4:u3", "u1:u4", "u5:u6:u1", "gone", "gone:u1", "u1::u6", "u6:", ":u1", "u6:u 7,x;y:u1", "u2:u3:gone:u1:u1"):
        for env in ("good", "bad"):
            worlds.append(world(env=[env], user=[user], ufiles=files, depth=0, exprs=ex, session=[form("mine"), form("exc"), form("count")]))
    evals = [["--eval", code_of(f)] for f in ex] + [["--eval=" + code_of(f)] for f in ex]
    extras = evals + [["--beanfile", p] + e for p in ("good", "bad", "wrong", "nothing") for e in evals[:6]] + [["--beanfile", p] for p in ("good", "pad", "a b", "")]
    return {"worlds": worlds, "words": words, "extras": extras}


def explore(scratch, depth):
    th = theme(depth)
    path = scratch.path("theme.ndjson")
    write_ndjson(path, [th])
    r = tlc(spec_dir(scratch), "AppMC", env={"THEME": path}, timeout=800)
    if not r.ok:
        raise ToolError("the specification itself violates a property:\n" + r.out[-3000:])
    ends = sorted((json.loads(json.loads(t[t.index('"B",') + 4:-2].strip())) for t in r.prints("B")), key=json.dumps)
    return r, [dict(th["worlds"][e["world"] - 1], args=e["args"]) for e in ends]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("app-%s" % seed)

    def form(self, prompt=False):
        r = self.r
        f = r.choice(FORMS + BAD[:1] + KNOWN + [form("say", r.choice(["x", "a b", "\u20ac", "it's \"so\""])), form("throw", r.choice(["bang", "no: really", "\u20ac"])), form("exc")]
                     + [form("def", "m%d" % r.randint(0, 9), "#'user/mine")] * 3 * prompt + [form("load", r.choice(BEANS)["path"], LOADED)] * 4 * prompt)
        return f

    def case(self, id):
        r = self.r
        beans = BEANS + OTHER
        paths = [b["path"] for b in beans] + ["none", "", "sub/none"]
        ex = [self.form() for _ in range(3)]
        words = ["-h", "-v", "--help", "--verbose", "--version", "--verbose=no", "--nope", "--nope=1", "-q", "-vq", "-hv", "--", "-", "--beanfile", "--eval", "--eval=", "-vvv", "---", "--=x=", "--a \"b"] + paths
        args = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            x = r.random()
            if x < 0.35:
                p = r.choice(paths[:5] + paths)
                args += r.choice([["--beanfile", p], ["--beanfile=" + p]])
            elif x < 0.7:
                e = code_of(r.choice(ex))
                args += r.choice([["--eval", e], ["--eval=" + e]])
            else:
                args.append(r.choice(words))
        names = ["u%d%s" % (i, r.choice(["", "", "", " x", ",y", ";", "caf\u00e9"])) for i in range(r.randint(1, 4))]
        ufiles = []
        for n in names:
            ufiles.append(uf(n, *[r.choice([self.form(), form("def", "of " + n), form("mine"), form("say", n), form("away") if r.random() < 0.2 else form("say", n)])
                                  for _ in range(r.randint(0, 4))]))
        # behind away, names of Clojure only
        for f in ufiles:
            k = next((i for i, x in enumerate(f["forms"]) if x["does"] == "away"), None)
            if k is not None:
                f["forms"][k + 1:] = [x for x in f["forms"][k + 1:] if x["does"] in ("say", "throw", "def", "mine") and "text" not in x]
        user = [":".join(r.choice(names + ["gone", ""][: r.choice([0, 0, 1, 2])]) for _ in range(r.randint(1, 5)))] if r.random() < 0.6 else []
        env = [r.choice(paths[:5] + paths)] if r.random() < 0.7 else []
        exprs, seen = [], set()
        for f in ex:
            if code_of(f) not in seen:
                seen.add(code_of(f))
                exprs.append(f)
        # an empty expression can't be read; and one which is no expression of these is a name of nothing, if it's a name at all
        w = world(env, user, ufiles, [self.form(True) for _ in range(r.randint(0, 6))], beans, exprs, args=args)
        w["exprs"] += [{"text": "", "form": form("unreadable", "EOF while reading")}, {"text": "-", "form": form("value", val="#")}]
        if not all(re.match(r"(--?[a-z]+|[a-z]+)$", v) or v in {e["text"] for e in w["exprs"]} for v in evals(args)):
            return self.case(id)
        return dict(w, id=id)


def evals(args):
    """what may be taken for an expression"""
    return [b for a, b in zip(args, args[1:]) if a == "--eval"] + [a[7:] for a in args if a.startswith("--eval=")]


def run_cases(workers, scratch, cases):
    d = scratch.path("runs")
    os.makedirs(d, exist_ok=True)
    jobs = [{"job": "app", "id": c["id"], "world": c, "dir": os.path.join(d, c["id"])} for c in cases]
    for c, r in zip(cases, workers.run(jobs)):
        c.update({k: r[k] for k in ("obs", "skip") if k in r})
    return [c for c in cases if "skip" not in c]


def judge(scratch, cases):
    path = scratch.path("cases.ndjson")
    out = []
    for c in cases:
        w = {k: c[k] for k in ("args", "env", "user", "ufiles", "session", "beans", "exprs")}
        out.append({"id": c["id"], "world": w, "obs": {k: c["obs"][k] for k in ("out", "err", "code")}})
    r = tlc_cases(spec_dir(scratch), "AppTrace", path, out, size=2000, env={"CASES": path}, args=("-continue",), timeout=800)
    runs = [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"([^"]*)"\s*>>$', t).groups() for t in r.prints("RUN")]
    want = {}
    for t in r.prints("EXPECTED"):
        m = re.match(r'<<\s*"EXPECTED",\s*"([^"]*)",\s*(".*")\s*>>$', t, re.S)
        if m:
            want[m.group(1)] = m.group(2)[:3000]
    return r, runs, want


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None
        self.w = Workers()

    def take(self, cases, what):
        cases = run_cases(self.w, self.s, cases)
        r, runs, want = judge(self.s, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(cases)
        n, codes = {}, {}
        for _, v in runs:
            n[v] = n.get(v, 0) + 1
        for c in cases:
            codes[c["obs"]["code"]] = codes.get(c["obs"]["code"], 0) + 1
        self.parts.append("%s: %s; exit statuses %s, runs which loaded a beanfile %d" % (what, n, codes, sum(any("directives loaded" in l for l in c["obs"]["err"]) for c in cases)))
        self.samples += [{"args": c["args"], "env": c["env"], "obs": c["obs"]} for c in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if len({x[0] for x in runs}) != len(cases) or r.violated and not bad:
            raise ToolError("TLC didn't judge every case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(json.dumps([c["args"], c["session"], c["ufiles"], c["user"]])))
            self.failed["expected"] = want.get(self.failed["id"])

    def all(self):
        depth = CONF[self.prop][self.tier]
        r, worlds = explore(self.s, depth)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append("command lines of up to %d words, and sessions: %d states of the specification explored, %d runs" % (depth, r.distinct, len(worlds)))
        for lo in range(0, len(worlds), 6000):
            self.take([dict(w, id="m%d" % (lo + i)) for i, w in enumerate(worlds[lo:lo + 6000])], "the same, done by the application")
            if self.failed:
                return
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        for lo in range(0, count, 4000):
            self.take([Gen(base + i).case(str(i)) for i in range(lo, min(count, lo + 4000))], "random runs")
            if self.failed:
                return


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        try:
            x.all()
            if x.failed:
                c = x.failed
                violation(prop, {"property": prop, "how": "the specification spec/App.tla does not allow this run of the application", "arguments": c["args"], "LIMABEAN_BEANFILE": c["env"],
                                 "LIMABEAN_USER_CLJ": c["user"], "user files": c["ufiles"], "entered": c["session"], "expressions": c["exprs"], "observed": c["obs"], "expected": c.get("expected")})
        finally:
            x.w.close()
        if x.w.lacks:
            x.parts.append("not explored, for want of a part of Clojure: " + "; ".join(sorted(x.w.lacks)))
            print("NOTE: " + x.parts[-1])
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4], "parts": x.parts,
               "explanation": "states and transitions are those of TLC over App.tla (AppMC) and over the validation of runs (AppTrace); "
                              "traces are runs of the application's own Clojure code from its -main to its exit, by the interpreter lib/clj.py"}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
