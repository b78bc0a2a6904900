"""Shared by all checks: building the code under test, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("LIMA_REPO", "/repo")
RUST = os.path.join(REPO, "rust")
BIN = os.path.join(RUST, "target", "debug")
POD = os.path.join(BIN, "limabean-pod")
LAUNCHER = os.path.join(BIN, "limabean")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def build():
    """Build both binaries from the working tree of /repo."""
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    for k in ("LIMABEAN_UBERJAR", "LIMABEAN_CLJ_LOCAL_ROOT", "LIMABEAN_CLJ_DEPS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--workspace", "--locked", "--offline"], cwd=RUST, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(POD):
        raise ToolError("cargo build failed:\n" + r.stdout[-3000:])


class Scratch:
    """A scratch directory, removed at the end."""
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vp-%s-" % name)

    def __enter__(self):
        return self

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def spec_dir(scratch):
    """A copy of the specifications with the Java evaluators compiled."""
    d = scratch.path("spec")
    if os.path.isdir(d):
        return d
    os.mkdir(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg", ".java")):
            shutil.copy(os.path.join(SPEC, f), d)
    java = [f for f in os.listdir(d) if f.endswith(".java")]
    r = subprocess.run(["javac", "-cp", CP] + java, cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("javac failed:\n" + r.stdout)
    return d


class Tlc:
    """The result of a run of TLC."""
    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        self.violated = code in (10, 11, 12, 13)
        self.ok = code == 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
        m2 = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m2[-1]) if m2 else (0, 0)

    def prints(self, tag):
        """The tuples printed by PrintT(<<tag, ...>>)."""
        res, buf, depth = [], "", 0
        for line in self.out.splitlines():
            if not buf and not line.startswith("<<\"%s\"" % tag) and not line.startswith("<< \"%s\"" % tag):
                continue
            buf += " " + line.strip()
            if buf.count("<<") == buf.count(">>") and buf.count("{") == buf.count("}"):
                res.append(buf.strip())
                buf = ""
        return res


def tlc(d, module, cfg=None, env=None, args=(), timeout=800, mem="6g", workers=JOBS):
    meta = tempfile.mkdtemp(prefix="meta", dir=d)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", d + ":" + CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
           "-config", cfg or module + ".cfg"]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on %s after %ss\n%s" % (module, timeout, (x.stdout or b"")[-2000:].decode("utf8", "replace")))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = Tlc(r.stdout.decode("utf8", "replace"), r.returncode, time.time() - t)
    if not (res.ok or res.violated):
        if os.environ.get("LIMA_TLC_OUT"):
            open(os.environ["LIMA_TLC_OUT"], "w").write(res.out)
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, r.returncode, res.out[-4000:]))
    return res


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")


def tlc_cases(d, module, path, rows, size=5000, **kw):
    """TLC on recorded cases, some at a time: it spoils characters which are not
    ASCII in states it writes to disk, as it does when more than 8192 of them wait."""
    res = None
    for lo in range(0, max(1, len(rows)), size):
        write_ndjson(path, rows[lo:lo + size])
        r = tlc(d, module, **kw)
        if res:
            r.generated += res.generated
            r.distinct += res.distinct
            r.wall += res.wall
            r.out = res.out + "\n" + r.out
            r.violated = r.violated or res.violated
        res = r
        if r.violated and "-continue" not in kw.get("args", ()):
            break
    return res


def known_findings():
    """Lines `known: property=<id> key=<key> <text>` of the committed file."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def save_replay(prop, what):
    """Keep what refuted the property where the user can find it."""
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w", errors="backslashreplace") as f:
        json.dump(what, f, indent=1, ensure_ascii=False, default=str)
    return path


def violation(prop, what):
    print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, what)))
    sys.stdout.flush()


def evidence(prop, level, coverage, wall, violations=0, assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w", errors="backslashreplace") as f:
        json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
                   "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1, ensure_ascii=False, default=str)
