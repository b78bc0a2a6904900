"""Running ledgers through limabean-pod and having TLC judge the answers."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import model, pod
from common import *

EMPTY = {"status": "other", "out": [], "errs": [], "why": ""}


def observe(reply, k, where):
    """What the k-th answer of a session says about a book request."""
    if k >= len(reply.lines):
        return dict(EMPTY, status="crash", why="no answer; exit %s: %s" % (reply.code, reply.err[-300:].decode("utf8", "replace")))
    try:
        r = pod.loads(reply.lines[k])
        if "result" in r:
            return dict(EMPTY, status="ok", out=[model.booked_from(d) for d in r["result"]["directives"]])
        e = r["error"]
        if e["code"] == "2" and where is not None:
            return dict(EMPTY, status="err", errs=[model.spanned_error(x, where) for x in e["data"]])
        if e["code"] == "3" and where is None:
            return dict(EMPTY, status="err", errs=[model.indexed_error(x) for x in e["data"]])
        return dict(EMPTY, why="unexpected error %s: %s" % (e["code"], e["message"]))
    except (ValueError, KeyError, TypeError, AttributeError, IndexError, model.Malformed) as x:
        return dict(EMPTY, why="malformed answer (%s): %s" % (x, reply.lines[k][:500]))


def run_file(path, dirs, opts, again=0, roundtrip=False):
    """Book a file; returns the observations of the book request, of repeated
    ones and of one which sends the parsed directives back."""
    with open(path, "w") as f:
        f.write(model.ledger_text(dirs, opts))
    reqs = [pod.request("parser.directives", 1)] + [pod.request("book", 2 + i) for i in range(1 + again)]
    r = pod.serve(path, reqs)
    try:
        p = pod.loads(r.lines[0])
        parsed = p["result"]["directives"]
        where = model.spans_of(parsed)
    except (ValueError, KeyError, IndexError, TypeError, model.Malformed) as x:
        o = dict(EMPTY, why="parser.directives: %s %s" % (x, r.lines[:1]))
        return [o] * (1 + again) + ([o] if roundtrip else [])
    res = [observe(r, 1 + i, where) for i in range(1 + again)]
    if roundtrip:
        r2 = pod.serve(path, [pod.request("book", 9, shuffled(parsed, order(path)))])
        res.append(observe(r2, 0, None))
    return res


def shuffled(x, r):
    """the same JSON, with the fields of its objects in another order"""
    if isinstance(x, list):
        return [shuffled(v, r) for v in x]
    if isinstance(x, dict):
        ks = list(x)
        r.shuffle(ks)
        return {k: shuffled(x[k], r) for k in ks}
    return x


def order(path):
    return random.Random("order of " + os.path.basename(path))


def run_params(path, dirs, opts):
    with open(path, "w") as f:
        f.write(model.options_text(opts))
    r = pod.serve(path, [pod.request("book", 1, shuffled([model.directive_json(d) for d in dirs], order(path)))])
    return observe(r, 0, None)


def run_case(scratch, c):
    """Fill in what the real server answers to the runs of case c."""
    path = scratch.path("case-%s.beancount" % c["id"])
    rt = c["pair"] == "params"
    again = 1 if c["pair"] == "again" else 0
    try:
        if rt or again:
            r = c["runs"][0]
            obs = run_file(path, r["dirs"], r["opts"], again, rt)
            for r, o in zip(c["runs"], obs):
                r["obs"] = o
        else:
            for r in c["runs"]:
                if r["mode"] == "file":
                    r["obs"] = run_file(path, r["dirs"], r["opts"])[0]
                else:
                    r["obs"] = run_params(path, r["dirs"], r["opts"])
    finally:
        if os.path.exists(path):
            os.remove(path)
    return c


def case(id, runs, pair=""):
    return {"id": id, "pair": pair,
            "runs": [{"mode": m, "dirs": d, "opts": o, "obs": EMPTY} for m, d, o in runs]}


def run_cases(scratch, cases):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda c: run_case(scratch, c), cases))


def prune(scratch, c, rounds=3):
    """A variant of a case without the directives which failed."""
    r = c["runs"][0]
    dirs, mode, obs = r["dirs"], r["mode"], r["obs"]
    for k in range(rounds):
        bad = {e["idx"][0] for e in obs["errs"]}
        if not bad:
            break
        # the index is that of the directive as booked
        order = sorted(range(len(dirs)), key=lambda i: (dirs[i]["date"], {"open": 0, "balance": 1}.get(dirs[i]["kind"], 2))) \
            if mode == "file" else range(len(dirs))
        drop = {order[i] for i in bad if i < len(dirs)}
        dirs = [d for i, d in enumerate(dirs) if i not in drop]
        c = run_case(scratch, case("%s-%d" % (c["id"].split("-")[0], k + 1), [(mode, dirs, r["opts"])]))
        obs = c["runs"][0]["obs"]
    return c


def judge(scratch, prop, cases, timeout=800, keep_going=False):
    """Have TLC check the observed answers; returns its result and the runs it
    reports, as (id, run, outcome, booked, classes, flags)."""
    d = spec_dir(scratch)
    path = scratch.path("cases.ndjson")
    r = tlc_cases(d, "LedgerTrace", path, cases, env={"CASES": path, "PROP": prop}, timeout=timeout,
                  args=["-continue"] if keep_going else [])
    runs = []
    for t in r.prints("RUN"):
        m = re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*(\d+),\s*"(\w+)",\s*(\d+),\s*(\{.*\}),\s*(\{[^{}]*\})\s*>>$', t)
        if not m:
            raise ToolError("cannot read TLC output: " + t)
        runs.append((m.group(1), int(m.group(2)), m.group(3), int(m.group(4)),
                     set(re.findall(r"C\d\d", m.group(5))), set(re.findall(r"C\d\d", m.group(6)))))
    return r, runs


def brief(out):
    """What TLC says is wrong, without the behaviours and states it prints."""
    lines = out.splitlines()
    why = [l for l in lines if l.startswith("Error:") or "violated" in l]
    state = [l for l in lines if re.match(r"/\\ (hist|o|n) =", l)]
    return "\n".join(why + state[-3:])


def explore(scratch, th, timeout=800):
    """Explore a theme exhaustively with TLC; returns its result and the
    behaviours, as (index of options, directives)."""
    d = spec_dir(scratch)
    path = scratch.path("theme-%s.ndjson" % th["name"])
    write_ndjson(path, [th])
    r = tlc(d, "LedgerMC", env={"THEME": path}, timeout=timeout)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (th["name"], brief(r.out)))
    res = []
    for m in re.finditer(r'<<"B", (\d+), <<([\d, ]*)>>>>', r.out):
        ks = [int(k) for k in m.group(2).split(",")]
        res.append((int(m.group(1)), ks))
    return r, res


def replay(scratch, th, behaviours, tag):
    """Replay behaviours of a theme against the real server, many to a session."""
    cases = []
    for i, (oi, ks) in enumerate(behaviours):
        dirs = th["scene"] + [th["universe"][k - 1] for k in ks]
        cases.append(case("%s%d" % (tag, i), [("params", dirs, th["opts"][oi - 1])]))
    chunks = []
    for oi in sorted({b[0] for b in behaviours}):
        cs = [c for c, b in zip(cases, behaviours) if b[0] == oi]
        chunks += [(oi, cs[i:i + 200]) for i in range(0, len(cs), 200)]

    def one(x):
        oi, cs = x
        path = scratch.path("opts-%s.beancount" % cs[0]["id"])
        with open(path, "w") as f:
            f.write(model.options_text(th["opts"][oi - 1]))
        while cs:
            reqs = [pod.request("book", 1, [model.directive_json(d) for d in c["runs"][0]["dirs"]]) for c in cs]
            r = pod.serve(path, reqs)
            got = len(r.lines)
            for k, c in enumerate(cs[:got + 1]):
                c["runs"][0]["obs"] = observe(r, k, None)
            cs = cs[got + 1:] if got < len(cs) else []     # after a crash, carry on with the rest
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, chunks))
    return cases
