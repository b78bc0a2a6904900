"""The check of limabean-pod tabulate: Tabulate explored exhaustively over cells
made of a few leaves, those cells and random ones given to the real program, and
what it prints judged by TLC (TabulateTrace)."""
import copy, json, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from pod import clean_env

ASSUME = ["the widths of the characters used, one, two or none, are known to the generator",
          "texts are without line breaks"]

# ---------------------------------------------------------------- cells
EMPTY = {"t": "empty"}
WIDE = {"\u4e2d": 2, "\u6587": 2, "\u0301": 0, "\U0001F631": 2, "\uff21": 2}


def width(s):
    return sum(WIDE.get(c, 1) for c in s)


def aligned(s, al="left"):
    return {"t": "aligned", "s": s, "w": width(s), "al": al, "id": ""}


def anchored(s, at):
    return {"t": "anchored", "s": s, "w": width(s), "at": at, "id": ""}


def number(s):
    """as the application does it: aligned by the last digit before the point"""
    return anchored(s, (s.index(".") if "." in s else s.index("/") if "/" in s else len(s)) - 1)


def row(cells, gut="  "):
    return {"t": "row", "cells": cells, "gut": gut, "gw": width(gut)}


def stack(cells):
    return {"t": "stack", "cells": cells}


def value(c):
    """a cell as it is sent"""
    t = c["t"]
    if t == "empty":
        return {"empty": None}
    if t == "aligned":
        return {"aligned": [c["s"], c["al"]]}
    if t == "anchored":
        return {"anchored": [c["s"], c["at"]]}
    cells = [value(x) for x in c["cells"]]
    return {"row": [cells, c["gut"]]} if t == "row" else {"stack": cells}


def escaped(c, ascii):
    """whether a gutter is written with an escape sequence"""
    return c["t"] in ("row", "stack") and ("\\" in json.dumps(c.get("gut", ""), ensure_ascii=ascii) or any(escaped(x, ascii) for x in c["cells"]))


# ---------------------------------------------------------------- running
def ask(data):
    p = subprocess.Popen([POD, "tabulate"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env())
    try:
        out, err = p.communicate(data, timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"exit": -999, "lines": [], "err": "timeout"}
    text = out.decode("utf8", "replace")
    said = err.decode("utf8", "replace")
    return {"exit": p.returncode, "lines": text[:-1].split("\n") if text.endswith("\n") else [] if text == "" else ["(not ended) " + text],
            "err": "none" if said == "" else "reason" if said.startswith("limabean-pod ") and said.strip() != "limabean-pod" else "other"}


def run_cases(cases):
    with ThreadPoolExecutor(JOBS * 2) as ex:
        for c, o in zip(cases, ex.map(lambda c: ask(c["data"]), cases)):
            c["obs"] = o
    return cases


def case(id, cell, style=0):
    v = value(cell)
    text = [lambda: json.dumps(v, separators=(",", ":"), ensure_ascii=False), lambda: json.dumps(v, ensure_ascii=True),
            lambda: "\n " + json.dumps(v, indent=2, ensure_ascii=False) + "\r\n", lambda: json.dumps(v, ensure_ascii=False) + "\n"][style]()
    return {"id": id, "bad": False, "esc": escaped(cell, style == 1), "cell": cell, "data": text.encode()}


def bad_case(id, data):
    return {"id": id, "bad": True, "esc": False, "cell": EMPTY, "data": data if isinstance(data, bytes) else data.encode()}


def judge(scratch, cases, timeout=800):
    path = scratch.path("cases.ndjson")
    r = tlc_cases(spec_dir(scratch), "TabulateTrace", path, [{k: c[k] for k in ("id", "bad", "esc", "cell", "obs")} for c in cases],
                  env={"CASES": path}, timeout=timeout)
    runs = [re.match(r'<<\s*"RUN",\s*"([^"]*)",\s*"(\w+)"\s*>>$', t).groups() for t in r.prints("RUN")]
    return r, runs


# ---------------------------------------------------------------- exploration
LEAVES = [EMPTY, aligned("a"), aligned("bcd", "right"), aligned("ef", "centre"), number("1.25"), number("-12.5"), number("100")]
THEMES = {
    "rows": dict(kind="table", leaves=LEAVES, width=2, height=2),
    "columns": dict(kind="table", leaves=LEAVES, width=1, height=3),
    "ragged": dict(kind="table", leaves=[EMPTY, aligned("ab"), number("-12.5")], width=3, height=2),
    "tall": dict(kind="table", leaves=[EMPTY, aligned("ab", "right"), number("1.5")], width=1, height=5),
    "tables": dict(kind="table", leaves=[EMPTY, aligned("ab"), number("1.25"), number("12.5")], width=2, height=3),
    "tables3": dict(kind="table", leaves=[EMPTY, number("1.25"), number("12.5")], width=2, height=3),
    "beside": dict(kind="beside", leaves=LEAVES[:2] + LEAVES[4:6], width=2, height=2),
    "beside3": dict(kind="beside", leaves=LEAVES[:2], width=3, height=3),
    "nested": dict(kind="nested", leaves=LEAVES[1:3] + [EMPTY, number("1.25")], width=2, height=1),
    "nested2": dict(kind="nested", leaves=[aligned("key"), EMPTY, number("1.25")], width=2, height=2),
}


def build(theme, x):
    if "k" in x:
        return copy.copy(theme["leaves"][x["k"] - 1])
    if "row" in x:
        return row([build(theme, y) for y in x["row"]])
    return stack([build(theme, y) for y in x["stack"]])


def explore(scratch, name, timeout=800):
    theme = THEMES[name]
    path = scratch.path("theme-%s.ndjson" % name)
    write_ndjson(path, [dict(theme, gut="  ", gw=2)])
    r = tlc(spec_dir(scratch), "TabulateMC", env={"THEME": path}, timeout=timeout)
    if not r.ok:
        raise ToolError("the specification itself violates a property on theme %s:\n%s" % (name, r.out[-3000:]))
    cells = []
    for t in r.prints("B"):
        m = re.match(r'<<\s*"B",\s*("(?:.*)")\s*>>$', t)
        cells.append(build(theme, json.loads(json.loads(m.group(1)))))
    return r, cells


# ---------------------------------------------------------------- random cells
WORDS = ["", "a", "Assets:Bank", "Caf\u00e9", "\u4e2d\u6587", "e\u0301t\u00e9", "\U0001F631!", "two words", " padded ", "  ", "say \"hi\"", "back\\slash",
         "2020-01-01", "{\"a\":1}", "\u00a3", "x" * 60, "\uff21b", "|", ":keyword", "%s%d", "<<", "0"]
GUTS = [" ", "  ", "  ", "  ", "", " | ", "\u2502", "\u4e2d", "\""]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("tab-%s" % seed)

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.15:
            return dict(EMPTY)
        if k < 0.6:
            return aligned(r.choice(WORDS) + (r.choice(WORDS) if r.random() < 0.2 else ""), r.choice(["left", "left", "right", "centre"]))
        if k < 0.95:
            n = r.choice([r.randint(-9, 9), r.randint(-99999, 99999), r.randint(-10 ** 20, 10 ** 20)])
            s = str(n) + r.choice(["", "", "." + str(r.randint(0, 9999)).zfill(r.choice([1, 2, 4])), "/%d" % r.randint(2, 9)])
            return number(s)
        s = r.choice([w for w in WORDS if w and width(w) == len(w)])
        return anchored(s, r.randint(0, len(s)))

    def cell(self, depth):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.25:
            return self.leaf()
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        if k < 0.55:
            return row([self.cell(depth - 1) for _ in range(n)], r.choice(GUTS))
        if k < 0.75:                       # a table, as the application makes them
            gut, cols = r.choice(GUTS), r.randint(1, 4)
            kinds = [r.choice(["any", "number", "text"]) for _ in range(cols)]
            def one(k):
                for _ in range(30):
                    c = self.leaf()
                    if k == "any" or c["t"] == {"number": "anchored", "text": "aligned"}[k]:
                        break
                return c
            return stack([row([one(k) for k in (kinds[:-1] if r.random() < 0.1 else kinds)], gut) for _ in range(r.randint(1, 6))])
        return stack([self.cell(depth - 1) for _ in range(n)])

    def bad(self):
        """an input which is no cell"""
        r = self.r
        v = value(self.cell(2))
        s = json.dumps(v, ensure_ascii=False)
        return r.choice([
            lambda: s[:r.randint(0, len(s) - 1)], lambda: s + s, lambda: s + "]", lambda: "", lambda: " \n", lambda: "[%s]" % s,
            lambda: s + "\n" + s + "\n", lambda: s + "\n" + r.choice(["x", "{}", "null", ",", "\0", "\ufeff"]), lambda: "\ufeff" + s,
            lambda: r.choice(["x", "[", "null", "//\n", "#!\n"]) + "\n" + s,
            lambda: '{"aligned":["x","middle"]}', lambda: '{"aligned":["x"]}', lambda: '{"aligned":["x","left",1]}', lambda: '{"anchored":["x",-1]}',
            lambda: '{"anchored":["x",1.5]}', lambda: '{"row":[[%s]]}' % s, lambda: '{"row":[%s,"  "]}' % s, lambda: '{"stack":%s}' % s,
            lambda: '{"Stack":[%s]}' % s, lambda: '{"aligned":[1,"left"]}', lambda: '{"stack":[%s,null]}' % s, lambda: "null", lambda: "1",
            lambda: '"aligned"', lambda: '{"stack":[%s],"row":[[]," "]}' % s, lambda: '{"empty":1}', lambda: "{}",
            lambda: b'{"aligned":["\xff","left"]}', lambda: b'\xc3' + s.encode(), lambda: s.replace('"', "'") if '"' in s else "'"])()


CONF = {"C25": dict(quick=["rows", "columns", "ragged", "tables3", "beside", "nested"], thorough=list(THEMES))}
COUNT = {"quick": 3000, "thorough": 60000}
GLOSS = "states and transitions are those of TLC over Tabulate.tla (TabulateMC) and over the validation of what was printed " \
        "(TabulateTrace); traces are cells given to the real program, with what it printed"


def shown(c):
    return {"input": c["data"].decode("utf8", "replace"), "printed": c["obs"]}


def parts(c):
    """smaller cells made of a cell"""
    res = []
    if c["t"] in ("row", "stack"):
        res += c["cells"]
        for k in range(len(c["cells"])):
            res.append(dict(c, cells=c["cells"][:k] + c["cells"][k + 1:]))
            res += [dict(c, cells=c["cells"][:k] + [x] + c["cells"][k + 1:]) for x in parts(c["cells"][k])]
    return res


class Run:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.s = prop, tier, scratch
        self.states = self.transitions = self.traces = self.known = 0
        self.samples, self.parts, self.failed = [], [], None

    def take(self, cases, what):
        r, runs = judge(self.s, run_cases(cases))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        n = {}
        for _, v in runs:
            n[v] = n.get(v, 0) + 1
        self.known += n.get("known", 0)
        self.parts.append("%s: %s" % (what, n))
        self.samples += [shown(c) for c in cases[len(cases) // 2:][:1]]
        bad = {x[0] for x in runs if x[1] == "BAD"}
        if r.violated and not bad:
            raise ToolError("TLC reports a violation but no case: " + r.out[-3000:])
        if bad:
            self.failed = min((c for c in cases if c["id"] in bad), key=lambda c: len(c["data"]))

    def minimize(self, c):
        for _ in range(12):
            if c["bad"]:
                break
            tries = [case("t%d" % i, x, c.get("style", 0)) for i, x in enumerate(parts(c["cell"])[:400])]
            if not tries:
                break
            # one by one: TLC stops at the first which is refuted
            r, runs = judge(self.s, run_cases(sorted(tries, key=lambda t: len(t["data"]))))
            bad = {x[0] for x in runs if x[1] == "BAD"}
            tries = [t for t in tries if t["id"] in bad]
            if not tries:
                break
            c = min(tries, key=lambda t: len(t["data"]))
        return c

    def all(self):
        for name in CONF[self.prop][self.tier]:
            r, cells = explore(self.s, name)
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append("theme %s: %d states of the specification explored, %d cells" % (name, r.distinct, len(cells)))
            self.take([dict(case("m%d" % i, c, i % 4), style=i % 4) for i, c in enumerate(cells)], "cells of theme %s" % name)
            if self.failed:
                return
        count = int(os.environ.get("LIMA_COUNT", COUNT[self.tier]))
        base = SEED * 1000003
        for lo in range(0, count, 3000):
            cases = []
            for i in range(lo, min(count, lo + 3000)):
                g = Gen(base + i)
                if i % 8 == 7:
                    d = g.bad()
                    if not is_cell(d):
                        cases.append(bad_case(str(i), d))
                    continue
                k = g.r.choice([1, 2, 2, 3, 3, 4])
                c = g.cell(k)
                if i % 500 == 0:                # many rows
                    c = stack([row([aligned(g.r.choice(WORDS)), number(str(g.r.randint(0, 10 ** 6)))]) for _ in range(400)])
                elif i % 500 == 250:            # much text
                    n = g.r.choice([5000, 9000, 40000, 70000, 200000])
                    c = stack([row([aligned(g.r.choice("x\u00e9\u4e2d") * n), number("1.5")]), aligned("y")])
                cases.append(dict(case(str(i), c, i % 4), style=i % 4))
            self.take(cases, "random cells")
            if self.failed:
                return


def is_cell(d):
    """whether an input made to be bad is good by chance"""
    try:
        v = json.loads(d)
    except ValueError:
        return False
    def cell(v):
        if v == "empty":
            return True
        if not isinstance(v, dict) or len(v) != 1:
            return False
        (k, x), = v.items()
        if k == "empty":
            return x is None
        if k == "stack":
            return isinstance(x, list) and all(cell(y) for y in x)
        if not isinstance(x, list) or len(x) != 2:
            return False
        if k == "row":
            return isinstance(x[0], list) and all(cell(y) for y in x[0]) and isinstance(x[1], str)
        if k == "aligned":
            return isinstance(x[0], str) and x[1] in ("left", "right", "centre")
        return k == "anchored" and isinstance(x[0], str) and isinstance(x[1], int) and x[1] >= 0
    return cell(v)


def run(prop, tier):
    t = time.time()
    with Scratch(prop) as s:
        x = Run(prop, tier, s)
        x.all()
        if x.failed:
            c = x.minimize(x.failed)
            violation(prop, dict(shown(c), property=prop, how="the specification spec/TabulateTrace.tla does not allow this output for this input"))
        cov = {"states": x.states, "transitions": x.transitions, "traces_validated_against_impl": x.traces, "samples": x.samples[:4],
               "parts": x.parts, "printed_as_in_the_known_findings": x.known, "explanation": GLOSS}
        evidence(prop, "model_checking", cov, time.time() - t, 1 if x.failed else 0, ASSUME)
        return 1 if x.failed else 0
