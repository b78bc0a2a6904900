#!/usr/bin/env python3
"""Mutate the code of /repo, one place at a time, in scratch copies, and tell which
mutants no check reports: tools/mutate.py COUNT [FILE-PREFIX...].  LANES=n copies."""
import json, os, queue, random, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SRC = "/repo/rust/src"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
LEDGER = ["C09", "C05", "C11", "C06", "C08", "C03", "C04", "C10", "C02", "C12", "C07", "C01", "C13"]
POD = ["C20", "C21", "C18", "C19", "C22", "C23", "C24"]
LOAD = ["C14", "C16", "C15", "C17", "C28"]
ORDER = [("bin/limabean/", ["C27", "C26"]), ("bin/limabean-pod/", ["C25", "C24", "C20"]),
         ("api/booking/accumulator", LEDGER + ["C21"]), ("api/booking", LEDGER + LOAD[1:2] + ["C21"]),
         ("api/server", POD[:6] + LOAD + ["C24", "C10", "C12", "C13", "C09", "C08"]), ("api/json_rpc", POD),
         ("api/types/raw", ["C21", "C08", "C13", "C14"] + LEDGER), ("api/types/booked", ["C08"] + LEDGER),
         ("api/types/booking", LEDGER), ("api/types", LOAD + LEDGER + POD), ("api", LOAD + POD)]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w!#])!(?=[a-z(])", ""),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
       (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\.is_ok\(\)", ".is_err()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
       (r"\bif (?!let\b)([^{}]*) \{$", r"if false && (\1) {"), (r"\bif (?!let\b)([^{}]*) \{$", r"if true || (\1) {"),
       (r"^(\s*)\.\w+\(.*\)$", ""), (r"^(\s*)(?!let |use |return |pub |type |const |static |\})[^=]*\);$", r"\1;"),
       (r"^\s*#\[serde\((?!untagged|tag|transparent)[^\]]*\)\]$", ""), (r"\bcontinue;", ";"), (r"\bbreak;", ";"),
       (r"\bSome\(([^()]*(?:\([^()]*\)[^()]*)*)\)", "None"), (r"\bErr\(e\) =>", "Err(_e) if false =>"),
       (r'"([A-Za-z][^"{}]*)"', r'"\1x"'), (r"^(\s*)(\w+): [^,{(]*(?:\([^()]*\)[^,{(]*)*,$", r"\1\2: Default::default(),"),
       (r"^(\s*)(\w+): [^,{(]*(?:\([^()]*\)[^,{(]*)*,$", r"\1\2: None,"), (r"\bif let (.*) = (.*) \{$", r"if let (\1, false) = (\2, true) {"),
       (r"\.unwrap_or\((\w+)\)", r".unwrap_or(Default::default())"), (r"\.(and_then|or_else|or|filter|chain|map_or)\([^()]*(?:\([^()]*\)[^()]*)*\)", ""),
       (r"\.abs\(\)", ""), (r"\.clone\(\)\.?sort\w*\(\)", ""), (r"\bOk\((\w+)\)$", r"{ let _ = \1; Default::default() }"), (r"(\w+)\.\.(\w+)", r"\1..=\2")]


def candidates(files):
    res = []
    for f in files:
        p = os.path.join(SRC, f)
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "use ", "#[derive", "pub use", "mod ", "tracing::", "trace!", "debug!", "#[cfg", "pub(crate) use")) or "trace!" in l or "debug!" in l:
                continue
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
                    if n != l and "Default::default()" not in n[m.start():] * ("None" in l[m.start():]) and not (n.strip() == "" and "rename_all" in l):
                        res.append((f, i, l, n))
    return res


def sh(cmd, cwd, env=ENV, timeout=1500):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def work(copy, f, i, old, new):
    p = os.path.join(copy, "rust/src", f)
    s = open(os.path.join(SRC, f)).read()
    lines = s.split("\n")
    assert lines[i] == old
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    try:
        c, o = sh(["cargo", "build", "--workspace", "--locked", "--offline"], copy + "/rust")
        if c:
            return None
        c, o = sh(["cargo", "test", "--workspace", "--locked", "--offline"], copy + "/rust", timeout=120)
        if c:
            return "tests"
        t = time.time()
        odd = []
        for x in next(cs for pre, cs in ORDER if f.startswith(pre)):
            c, o = sh([V + "/bin/check", x], V, dict(os.environ, LIMA_REPO=copy))
            if "VIOLATION property=" in o:
                return "%s %.0fs%s" % (x, time.time() - t, " " + str(odd) if odd else "")
            if c:
                odd.append("%s exit %d %s" % (x, c, o.strip()[-150:]))
        return "SURVIVED %.0fs %s" % (time.time() - t, odd or "")
    finally:
        open(p, "w").write(s)


def main():
    count, pre = int(sys.argv[1]), sys.argv[2:] or [""]
    files = []
    for d, _, fs in os.walk(SRC):
        files += [os.path.relpath(os.path.join(d, f), SRC) for f in fs if f.endswith(".rs") and f != "tests.rs"]
    cs = candidates(sorted(f for f in files if any(f.startswith(x) for x in pre)))
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(cs)
    print("%d candidates" % len(cs), flush=True)
    q = queue.Queue()
    for c in cs[:count]:
        q.put(c)

    def lane(n):
        copy = "/tmp/mut/%d" % n
        os.makedirs("/tmp/mut", exist_ok=True)
        if not os.path.isdir(copy):
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
        while True:
            try:
                f, i, old, new = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = work(copy, f, i, old, new)
            except Exception as x:
                r = "EXCEPTION %r" % x
            if r:
                print("%s:%d\n  - %s\n  + %s\n  => %s" % (f, i + 1, old.strip(), new.strip(), r), flush=True)
    ts = [threading.Thread(target=lane, args=(n,)) for n in range(int(os.environ.get("LANES", "2")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
