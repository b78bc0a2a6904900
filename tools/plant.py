#!/usr/bin/env python3
"""Plant bugs: tools/plant.py [ID...] builds seeded/ID from tools/bugs/*.py in
scratch copies of /repo and confirms each (applies, builds, tests pass, the
demonstration passes without it and fails with it); with --check it also runs
the check of its property against the copy."""
import glob, json, os, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SEEDED = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV.pop("CARGO_TARGET_DIR", None)
HELP = open(os.path.join(HERE, "bugs", "demo_help.txt")).read()


def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        def bug(id, prop, edits, demo, needs, breaks):
            assert id not in bugs, id
            bugs[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    return bugs


def sh(cmd, cwd, env=ENV, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def build(copy):
    return sh(["cargo", "build", "--workspace", "--locked", "--offline"], copy + "/rust")


def plant(b, copy, check):
    out = []
    sh(["git", "checkout", "-q", "--", "."], copy)
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as f:
        f.write(HELP + "\n\n" + b["demo"].strip() + "\n")
    if "import clj," in b["demo"]:
        for f in ("clj.py", "cljcore.py", "cljextra.clj"):
            shutil.copy(os.path.join(V, "lib", f), d)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    c, o = build(copy)
    if c:
        return "clean build failed\n" + o[-2000:]
    c, o = sh(["bash", d + "/demo.sh"], copy)
    if c:
        return "demo fails on the clean tree\n" + o[-2000:]
    for file, old, new in b["edits"]:
        p = os.path.join(copy, file) if file.startswith("clj/") else os.path.join(copy, "rust/src", file)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %s" % (file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    c, o = sh(["git", "diff"], copy)
    with open(d + "/patch.diff", "w") as f:
        f.write(o)
    c, o = build(copy)
    if c:
        return "patched build failed\n" + o[-3000:]
    c, o = sh(["bash", d + "/demo.sh"], copy)
    if c == 0:
        return "demo passes with the patch"
    out.append("demo: " + o.strip().splitlines()[-1][:150] if o.strip() else "demo failed")
    c, o = sh(["cargo", "test", "--workspace", "--locked", "--offline"], copy + "/rust")
    if c:
        return "tests fail with the patch\n" + o[-2000:]
    if check:
        for p in [b["prop"]] if check is True else check:
            t = time.time()
            e = dict(os.environ, LIMA_REPO=copy)
            c, o = sh([V + "/bin/check", p], V, e)
            hit = "VIOLATION property=%s" % p in o
            out.append("check %s exit %d%s %.0fs%s" % (p, c, " CAUGHT" if hit else " MISSED", time.time() - t, "" if c in (0, 1) else o[-800:]))
    sh(["git", "checkout", "-q", "--", "."], copy)
    return "ok; " + "; ".join(out)


def main():
    args = sys.argv[1:]
    check = "--check" in args
    ps = [a[8:] for a in args if a.startswith("--props=")]
    if ps:
        check = ps[0].split(",")
    ids = [a for a in args if not a.startswith("--")]
    bugs = load()
    ids = ids or list(bugs)
    jobs = int(os.environ.get("JOBS", "2"))
    q = queue.Queue()
    for i in ids:
        for k in [k for k in bugs if k == i or k.startswith(i + "-")] or [i]:
            q.put(k)
    def work(n):
        copy = "/tmp/plant/%d" % n
        if not os.path.isdir(copy):
            os.makedirs("/tmp/plant", exist_ok=True)
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
        else:
            sh(["git", "checkout", "-q", "--", "."], copy)
            sh(["git", "pull", "-q", "/repo"], copy)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = plant(bugs[i], copy, check)
            except Exception as x:
                r = "EXCEPTION %r" % x
            print("%s: %s" % (i, r), flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
