"""The checks of the launcher: Launcher explored exhaustively, each way of starting
it replayed with the real launcher and stand-ins for java and clojure on its path,
and random ones; what it did is judged by TLC (LauncherTrace)."""
import json, os, random, re, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *

ASSUME = ["stand-ins for java and clojure record how they were run", "arguments and variables are UTF-8"]

STAND_IN = """#!/bin/sh
d="$REC/$$"
/bin/mkdir "$d"
{ printf '%s\\0' "${0##*/}" "$@"; } > "$d/argv"
/usr/bin/env -0 > "$d/env"
/bin/pwd > "$d/cwd"
if [ "$1" = "--version" ] && [ $# = 1 ]; then
  echo "stand-in 1.0"; echo "more of it"; [ -n "$FAILING" ] && { echo "it is broken" >&2; exit 1; }; exit 0
fi
if [ "$END" = hang ]; then
  echo APP; echo APP >&2
  echo ready > "$d/ready"; exec /bin/sleep 20 < /dev/null > /dev/null 2>&1
fi
/bin/cat > "$d/stdin"
echo APP; echo APP >&2
[ -n "$FAILING" ] && exit 1
case "$END" in -*) kill "$END" $$; /bin/sleep 5;; esac
exit "$END"
"""


def version():
    for line in open(os.path.join(RUST, "Cargo.toml")):
        m = re.match(r'version\s*=\s*"([^"]*)"', line)
        if m:
            return m.group(1)


class Place:
    """Where the launchers and the stand-ins are."""
    def __init__(self, s):
        self.s = s
        self.built = s.path("built in.jar")
        self.jars = [self.built, s.path("there.jar")]
        for j in self.jars:
            open(j, "w").close()
        self.missing = s.path("missing.jar")
        self.launchers = {"": LAUNCHER}
        # programs: a directory for each combination
        self.paths = {}
        states = ("ok", "failing", "absent", "unusable")
        for j in states:
            for c in states:
                d = s.path("bin-%s-%s" % (j, c))
                os.mkdir(d)
                for prog, state in (("java", j), ("clojure", c)):
                    if state != "absent":
                        p = os.path.join(d, prog)
                        with open(p, "w") as f:
                            f.write(STAND_IN.replace("$FAILING", "failing" if state == "failing" else ""))
                        os.chmod(p, 0o644 if state == "unusable" else 0o755)
                self.paths[j, c] = d

    def build(self):
        """The launcher built with an uberjar."""
        t = self.s.path("target")
        os.mkdir(t)
        r = subprocess.run("cp -a %s/target/. . && rm -rf ./debug/incremental" % RUST, shell=True, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
                   CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=t, LIMABEAN_UBERJAR=self.built)
        for k in ("LIMABEAN_CLJ_LOCAL_ROOT", "LIMABEAN_CLJ_DEPS"):
            env.pop(k, None)
        r = subprocess.run(["cargo", "build", "--workspace", "--locked", "--offline", "--bin", "limabean"], cwd=RUST, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("cargo build with LIMABEAN_UBERJAR failed:\n" + r.stdout[-3000:])
        exe = self.s.path("limabean-built")
        os.rename(os.path.join(t, "debug", "limabean"), exe)
        subprocess.run(["rm", "-rf", t])
        self.launchers[self.built] = exe


# ---------------------------------------------------------------- running
def squeeze(s):
    return " ".join(s.split())


def command_shown(line, prog, args):
    """whether a line shows the program and its arguments, in order, plainly or quoted"""
    at = 0
    for a in [prog] + args:
        best = -1
        for x in {a, json.dumps(a, ensure_ascii=False)[1:-1], a.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")}:
            k = line.find(x, at)
            if k >= 0:
                best = max(best, k + len(x))
        if best < 0:
            return False
        at = best
    return True


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0] not in "ZX"
    except OSError:
        return False


def run_case(place, k, c):
    s = place.s
    d = s.path("run-%s" % k)
    os.mkdir(d)
    rec, cwd = d + "/rec", d + "/cwd"
    os.mkdir(rec)
    os.mkdir(cwd)
    hang = c.get("hang", False)
    env = {"REC": rec, "END": "hang" if hang else str(c["end"]), "PATH": place.paths[c["java"], c["clojure"]], "HOME": d, "MARK": "x y\u00e9 %s" % k,
           "LIMABEAN_BEANFILE": "/some/bean file", "LANG": "C.UTF-8"}
    for name, v in (("LIMABEAN_CLJ_LOCAL_ROOT", c["root"]), ("LIMABEAN_UBERJAR", c["uber"]), ("LIMABEAN_CLJ_DEPS", c["deps"])):
        if v:
            env[name] = v[0]
    token = b"input \xff of %s\n" % str(k).encode()
    exe = place.launchers[c["built"][0] if c["built"] else ""]
    p = subprocess.Popen([exe] + c["args"], executable=exe, env=env, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    stopped = True
    try:
        if hang:
            t = time.time() + 20
            ready = lambda: [x for x in os.listdir(rec) if os.path.exists(os.path.join(rec, x, "ready"))]
            while not ready() and time.time() < t and p.poll() is None:
                time.sleep(0.01)
            p.send_signal(signal.SIGTERM)
            t = time.time() + 10
            pids = [int(x) for x in ready()]
            while (p.poll() is None or any(alive(x) for x in pids)) and time.time() < t:
                time.sleep(0.01)
            stopped = bool(pids) and p.poll() is not None and not any(alive(x) for x in pids)
            for x in pids:
                if alive(x):
                    os.kill(x, 9)
            token = b""
        out, err = p.communicate(token, timeout=30)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return {"out": [], "err": [], "runs": [], "exit": -999, "same": False, "stopped": False}
    runs, same = [], True
    for x in sorted(os.listdir(rec)):
        r = os.path.join(rec, x)
        argv = open(r + "/argv", encoding="utf8", errors="replace", newline="").read().split("\0")[:-1]
        runs.append({"prog": argv[0], "args": argv[1:]})
        got = dict(e.split("=", 1) for e in open(r + "/env", encoding="utf8", errors="replace", newline="").read().split("\0") if "=" in e)
        same = same and all(got.get(n) == v for n, v in env.items())
        same = same and set(n for n in got if n.startswith("LIMABEAN")) == set(n for n in env if n.startswith("LIMABEAN"))
        if argv[1:] != ["--version"]:
            same = same and open(r + "/cwd").read() == os.path.realpath(cwd) + "\n"
            if not hang:
                same = same and os.path.exists(r + "/stdin") and open(r + "/stdin", "rb").read() == token
    health = c["args"][:1] == ["health"]
    version_ = place.version
    outs = ["app" if l == "APP" else "version" if "limabean.rs" in l and version_ in l else "other: " + l
            for l in out.decode("utf8", "replace").splitlines()]
    errs = []
    prog = runs[0]["prog"] if runs else None
    jar = (c["uber"] or c["built"] or [None])[0] if not c["root"] else None
    for l in err.decode("utf8", "replace").split("\n")[:-1]:
        if l == "APP":
            errs.append("app")
        elif "LIMABEAN_CLJ_DEPS" in l and "ignored" in l:
            errs.append("warning")
        elif any(command_shown(l, g, c["args"]) for g in ((prog,) if prog else ("java", "clojure"))) and not l.startswith(("limabean", "uberjar")) \
                and not health and l.count(" ") >= 3:
            errs.append("command")
        elif health and "stand-in 1.0" in l and "more of it" in l:
            errs.append("runtime")
        elif health and jar is not None and jar in l and "uberjar" in l:
            errs.append("uberjar" if p.returncode == 0 else "error uberjar")
        elif health or l.startswith("limabean"):
            errs.append("error " + " ".join(g for g in ("java", "clojure") if g in l.replace(d, "")))
        else:
            errs.append("other: " + l)
    return {"out": outs, "err": errs, "runs": runs, "exit": p.returncode, "same": same, "stopped": stopped}


def run_cases(place, cases):
    with ThreadPoolExecutor(JOBS * 2) as ex:
        for x, o in zip(cases, ex.map(lambda x: run_case(place, x["id"], x["c"]), cases)):
            x["obs"] = o
    subprocess.run("rm -rf run-*", shell=True, cwd=place.s.dir)
    return cases


def judge(s, prop, cases):
    path = s.path("cases.ndjson")
    rows = [{"id": x["id"], "c": {k: v for k, v in x["c"].items() if k != "hang"}, "obs": x["obs"]} for x in cases]
    r = tlc_cases(spec_dir(s), "LauncherTrace", path, rows, env={"CASES": path, "PROP": prop})
    runs = []
    for t in r.prints("RUN"):
        m = re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"(\w+)",\s*(-?\d+),\s*(\{[^{}]*\})\s*>>$', t)
        runs.append((m.group(1), m.group(2), int(m.group(3)), set(re.findall(r"C\d\d", m.group(4)))))
    return r, runs


# ---------------------------------------------------------------- exploration
WORDS = ["-v", "--verbose", "--version", "health", "--beanfile", "", "a b", "--"]
DEPS = 'io.github.x/y {:mvn/version "0.1.0"}'
OK, ALL = ["ok"], ["ok", "failing", "absent", "unusable"]


def themes(place):
    base = dict(root=[[]], uber=[[]], built=[[]], deps=[[]], java=OK, clojure=OK, end=[0], words=[], length=0, jars=place.jars, version=place.version)
    some = ["health", "-v", "--version"]
    built = [[], [place.built]]
    return {
        "runtimes": dict(base, root=[[], ["/src/clj"], [""]], uber=[[], [place.jars[1]], [place.missing], [""]], built=built,
                         deps=[[], [DEPS], [""]], words=some, length=1, java=["ok", "absent"], clojure=["ok", "absent"]),
        "arguments": dict(base, root=[[], ["/src/clj"]], uber=[[], [place.jars[1]]], words=WORDS, length=3),
        "arguments4": dict(base, uber=[[], [place.jars[1]]], words=WORDS, length=4),
        "programs": dict(base, root=[[], ["/src/clj"]], uber=[[], [place.jars[1]]], built=built, java=ALL, clojure=ALL, end=[0, 1, 42, 255, -15, -9],
                         words=some, length=1),
        "programs2": dict(base, root=[[], ["/src/clj"]], uber=[[], [place.jars[1]], [place.missing]], built=built, deps=[[], [DEPS]],
                          java=ALL, clojure=ALL, end=[0, 3, -2], words=some + ["x"], length=2),
    }


def explore(s, theme, name, timeout=800):
    path = s.path("theme-%s.ndjson" % name)
    write_ndjson(path, [theme])
    r = tlc(spec_dir(s), "LauncherMC", env={"THEME": path}, timeout=timeout)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
    res = []
    for t in r.prints("B"):
        res.append(json.loads(json.loads(re.match(r'<<\s*"B",\s*("(?:.*)")\s*>>$', t).group(1))))
    for c in res:
        for k in ("root", "uber", "built", "deps", "args", "jars"):
            c[k] = list(c[k])
    return r, res


def random_case(place, seed):
    r = random.Random("launcher-%s" % seed)
    texts = ["x", "two words", "caf\u00e9", "say \"hi\"", "back\\slash", "$HOME", "`id`", "*", "-", "--", "--eval", "(+ 1 2)", "", "a\nb", "\t", "-v=1", "--verbos",
             "-vv", "--versions", "VERSION", "Health", "healthy", "{:a 1}", "'q'", "\u4e2d\u6587", "-x" * 200, "--beanfile", "ledger.beancount"]
    word = lambda: r.choice(texts) if r.random() < 0.75 else r.choice(["-v", "--verbose", "--version", "health"])
    opt = lambda p, vs: [r.choice(vs)] if r.random() < p else []
    plain = lambda: r.choice(["/src/clj", "/with space/clj", "relative/dir", "/caf\u00e9", "~/x", "$HOME/clj", "/a" * 100, "."])
    st = lambda: r.choice(["ok"] * 6 + ["failing", "absent", "unusable"])
    return {"root": opt(0.35, [plain()]), "uber": opt(0.45, [place.jars[1], place.missing, "rel.jar", "/with space/x.jar", "/caf\u00e9.jar"]),
            "built": opt(0.4, [place.built]),
            "deps": opt(0.4, [DEPS, "a/b {:local/root \"/x y\"} c/d {:mvn/version \"1\"}", "  a/b {:git/sha \"0\"} ", "\u00e9/x {}"]),
            "args": [word() for _ in range(r.choice([0, 1, 2, 3, 5, 12]))], "jars": place.jars, "java": st(), "clojure": st(),
            "end": r.choice([0, 0, 1, 2, 7, 100, 128, 254, 255, -1, -2, -9, -15]), "version": place.version}


CONF = {"C26": dict(quick=["runtimes", "programs"], thorough=["runtimes", "programs", "programs2"]),
        "C27": dict(quick=["arguments", "programs"], thorough=["arguments", "arguments4", "runtimes", "programs2"])}
COUNT = {"quick": 1500, "thorough": 30000}
GLOSS = "states and transitions are those of TLC over Launcher.tla (LauncherMC) and over the validation of what was observed " \
        "(LauncherTrace); traces are runs of the real launcher, with what it printed, ran and ended with"


class Run:
    def __init__(self, prop, tier, place):
        self.prop, self.tier, self.place, self.s = prop, tier, place, place.s
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.failed = [], [], None

    def take(self, cs, what, name):
        cases = run_cases(self.place, [{"id": "%s%d" % (name, i), "c": c} for i, c in enumerate(cs)])
        r, runs = judge(self.s, self.prop, cases)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        n = {}
        for _, prog, code, _ in runs:
            n["%s %s" % (prog, "ok" if code == 0 else "fails" if code == 1 else "else")] = n.get("%s %s" % (prog, "ok" if code == 0 else "fails" if code == 1 else "else"), 0) + 1
        self.parts.append("%s: %s" % (what, n))
        self.samples += [{"started": x["c"], "observed": x["obs"]} for x in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if self.prop in x[3]}
        if r.violated and not bad:
            raise ToolError("TLC reports a violation but no case: " + r.out[-3000:])
        if bad:
            self.failed = min((x for x in cases if x["id"] in bad), key=lambda x: len(json.dumps(x["c"])))

    def all(self):
        ths = themes(self.place)
        for name in CONF[self.prop][self.tier]:
            r, cs = explore(self.s, ths[name], name)
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append("theme %s: %d states of the specification explored, %d ways of starting" % (name, r.distinct, len(cs)))
            self.take(cs, "theme %s" % name, name)
            if self.failed:
                return
        base = SEED * 1000003 + int(self.prop[1:]) * 10007
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        for lo in range(0, count, 3000):
            self.take([random_case(self.place, base + i) for i in range(lo, min(count, lo + 3000))], "random ways of starting", "r")
            if self.failed:
                return
        if self.prop == "C27":
            hang = [dict(random_case(self.place, base + i), java="ok", clojure="ok", end=-15, hang=True) for i in range(24)]
            self.take([c for c in hang if c["args"][:1] != ["health"] and c["args"] != ["--version"]], "ended by a signal while running", "h")


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        place = Place(s)
        place.version = version()
        place.build()
        x = Run(prop, tier, place)
        x.all()
        if x.failed:
            violation(prop, {"property": prop, "how": "the specification spec/LauncherTrace.tla does not allow this",
                             "started": x.failed["c"], "observed": x.failed["obs"]})
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4],
               "parts": x.parts, "explanation": GLOSS}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
