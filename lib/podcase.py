"""Requests to the server and what is read back, in the terms of Pod.tla."""
import decimal, hashlib, json, os, re, select, subprocess, time
import pod
from common import *


def cps(s):
    return [ord(c) for c in s]


def digest(x):
    return hashlib.sha1(x.encode("utf8", "surrogatepass")).hexdigest()[:16]


def norm_num(s):
    return str(decimal.Decimal(s).normalize())


BLANK = {"json": True, "id": {"k": "none", "v": ""}, "ver": "2.0", "method": "", "params": "none",
         "spans": [], "frags": [], "reports": [], "ok": True, "key": ""}
NONE = object()


def ident(id):
    """The id of a request, for the model."""
    if id is NONE:
        return {"k": "none", "v": ""}
    if id is None:
        return {"k": "null", "v": ""}
    if isinstance(id, bool) or isinstance(id, (list, dict)):
        return {"k": "bad", "v": ""}
    if isinstance(id, pod.Num) or isinstance(id, int):
        return {"k": "num", "v": norm_num(str(id))}
    return {"k": "str", "v": id}


def span(x):
    return {"src": int(x[0]), "start": int(x[1]), "end": int(x[2])}


def report_text(r):
    """What must be readable in a formatted report."""
    return [r["reason"]] + ["in this " + l for l, _ in r.get("contexts") or []] + [l for l, _ in r.get("related") or []]


def request(method=None, id=NONE, params=NONE, ver="2.0", ok=True, extra=None, order=None):
    """A request: its line, and what it is to the model."""
    a = json.loads(json.dumps(BLANK))
    o = {}
    if ver is not None:
        o["jsonrpc"] = ver
    if id is not NONE:
        o["id"] = pod.Num(id) if isinstance(id, int) and not isinstance(id, bool) else id
    if method is not None:
        o["method"] = method
    if params is not NONE:
        o["params"] = params
    o.update(extra or {})
    if order:
        o = {k: o[k] for k in sorted(o, key=order)}
    a["id"] = ident(id)
    a["ver"] = "2.0" if ver == "2.0" and not isinstance(ver, pod.Num) else "other" if isinstance(ver, str) and not isinstance(ver, pod.Num) else "bad"
    a["method"] = method if isinstance(method, str) else ""
    a["ok"] = ok
    a["params"] = "none" if params is NONE else "null" if params is None else "list" if isinstance(params, list) else "bad"
    checks = []
    if a["params"] == "list":
        try:
            if method == "parser.resolve-spans":
                a["spans"] = [span(x) for x in params]
            elif method == "parser.create-synthetic-spans":
                a["frags"] = [{"name": f["name"], "text": cps(f["content"])} for f in params]
            elif method in ("parser.format-errors", "parser.format-warnings"):
                for r in params:
                    base = {k: v for k, v in r.items() if k != "annotation" and v is not None}
                    spans = [r["span"]] + [s for _, s in (r.get("contexts") or [])] + [s for _, s in (r.get("related") or [])]
                    ann = r.get("annotation")
                    a["reports"].append({"key": digest(pod.dumps(base)), "ann": [] if ann is None else [ann],
                                         "spans": [span(s) for s in spans]})
                    a["spans"] += [span(s) for s in spans]
                checks = params
        except (KeyError, TypeError, ValueError, IndexError, AttributeError):
            a["params"] = "bad"
            a["spans"], a["frags"], a["reports"] = [], [], []
    line = pod.dumps(o)
    set_key(a, o, line)
    return {"abs": a, "line": line, "checks": checks}


METHODS = {"status", "parser.plugins", "parser.directives", "parser.options", "parser.format-errors",
           "parser.format-warnings", "parser.resolve-spans", "parser.create-synthetic-spans", "book"}


def set_key(a, o, line):
    """What identifies a request but for its id; of a malformed one, all of it
    (its answer may say at which column it is malformed)."""
    proper = a["json"] and a["id"]["k"] != "bad" and a["ver"] != "bad" and a["method"] in METHODS and a["params"] != "bad"
    a["key"] = digest(pod.dumps({k: v for k, v in o.items() if k != "id"}) if proper else line)


def raw(line):
    """A line which is no request at all."""
    a = json.loads(json.dumps(BLANK))
    a["json"] = False
    a["key"] = digest("raw:" + line)
    return {"abs": a, "line": line, "checks": []}


SETS = {"tags", "links", "curs", "currencies"}


def canonical(x, parent=None):
    """Sets are served in any order."""
    if isinstance(x, dict):
        return {k: canonical(v, k) for k, v in x.items()}
    if isinstance(x, list):
        y = [canonical(v) for v in x]
        return sorted(y, key=pod.dumps) if parent in SETS else y
    return x


def plain(s):
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


def rows(text):
    res = []
    for line in text.split("\n"):
        m = re.match(r"\s*(\d+) │(.*)$", line)
        if m:
            res.append({"line": int(m.group(1)), "text": cps(m.group(2).strip().lstrip("╭│├╰─▶┤┆┬┼╯╮ ").strip())})
    return res


def place(text):
    m = re.search(r"\[ (.*):(\d+):(\d+) \]", text)
    return {"file": m.group(1), "line": int(m.group(2))} if m else {"file": "", "line": 0}


EMPTY_OBS = {"shape": False, "id": {"k": "?", "v": ""}, "code": 99, "digest": "", "resolved": [], "spans": [],
             "text": "", "says": True, "rows": [], "at": {"file": "", "line": 0}}


def result_shape(method, x):
    """Whether a result is of the type of its method."""
    if method == "status":
        return x is None
    if method == "parser.plugins":
        return isinstance(x, list) and all(set(p) == {"name", "config"} for p in x)
    if method == "parser.directives":
        return isinstance(x, dict) and set(x) == {"directives", "warnings"} and isinstance(x["directives"], list)
    if method == "parser.options":
        return isinstance(x, dict)
    if method in ("parser.format-errors", "parser.format-warnings"):
        return isinstance(x, str) and not isinstance(x, pod.Num)
    if method == "parser.resolve-spans":
        return isinstance(x, list) and all(set(s) == {"file-name", "start-line", "end-line", "content"} for s in x)
    if method == "parser.create-synthetic-spans":
        return isinstance(x, list) and all(isinstance(s, list) and len(s) == 3 for s in x)
    if method == "book":
        return isinstance(x, dict) and set(x) == {"directives"} and isinstance(x["directives"], list)
    return True


def span_shape(s):
    return isinstance(s, list) and len(s) == 3 and all(isinstance(x, pod.Num) and x.isdigit() for x in s)


def says(code, e, r, path):
    """Whether an error reply says what went wrong."""
    if not e["message"]:
        return False
    if code == 1:
        return path in e["message"] and "data" not in e
    if code in (2, 3):
        d = e.get("data")
        if not isinstance(d, list) or not d:
            return False
        for x in d:
            if not isinstance(x.get("reason"), str) or not x["reason"]:
                return False
            if code == 2 and not (isinstance(x.get("message"), str) and x["message"] and span_shape(x.get("span"))):
                return False
            if code == 3 and not isinstance(x.get("idx"), list):
                return False
        return True
    return "data" not in e


def observe(line, req, path):
    """What one line of the server's output says."""
    o = json.loads(json.dumps(EMPTY_OBS))
    try:
        x = pod.loads(line)
        o["shape"] = isinstance(x, dict) and list(x)[0] == "jsonrpc" and x["jsonrpc"] == "2.0" \
            and not isinstance(x["jsonrpc"], pod.Num) and set(x) in ({"jsonrpc", "id", "result"}, {"jsonrpc", "id", "error"}) \
            and len(re.findall(r'"jsonrpc":', line.split('"result"')[0])) == 1
        o["id"] = ident(x["id"])
        if "result" in x:
            o["code"] = 0
            res = x["result"]
            method = req["abs"]["method"]
            o["shape"] = o["shape"] and result_shape(method, res)
            o["digest"] = digest(pod.dumps(canonical(res)))
            if method == "parser.resolve-spans":
                o["resolved"] = [{"file": s["file-name"] or "", "first": int(s["start-line"]), "last": int(s["end-line"]),
                                  "text": cps(s["content"])} for s in res]
            elif method == "parser.create-synthetic-spans":
                o["spans"] = [span(s) for s in res]
            elif isinstance(res, str) and req["checks"]:
                o["text"] = plain(res)
                kind = "Error" if method == "parser.format-errors" else "Warning"
                o["says"] = all(("%s: %s" % (kind, r["message"])) in o["text"].split("\n")
                                and all(t in o["text"] for t in report_text(r)) for r in req["checks"])
                o["rows"] = rows(o["text"])
                o["at"] = place(o["text"])
        else:
            e = x["error"]
            o["code"] = int(e["code"])
            o["shape"] = o["shape"] and isinstance(e["message"], str) and set(e) <= {"code", "message", "data"}
            o["says"] = says(o["code"], e, req, path)
            data = e.get("data")
            if o["code"] == 2 and isinstance(data, list):
                data = sorted([canonical(d) for d in data], key=pod.dumps)
            o["digest"] = digest(pod.dumps([e["code"], e["message"], data]))
    except (ValueError, KeyError, TypeError, AttributeError, IndexError, decimal.InvalidOperation) as err:
        o["shape"] = False
        o["why"] = "%s: %s" % (type(err).__name__, line[:300])
    return o


def interactive(args, lines, env, cwd, timeout):
    """Wait for the answer to each line before sending the next."""
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=cwd)
    out, got = b"", b""
    end = time.time() + timeout
    try:
        for l in lines:
            try:
                p.stdin.write(l)
                p.stdin.flush()
            except BrokenPipeError:
                break
            if not l.endswith(b"\n"):
                break
            while b"\n" not in got:
                if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]:
                    raise subprocess.TimeoutExpired(args, timeout)
                b = os.read(p.stdout.fileno(), 1 << 16)
                if not b:
                    break
                got += b
            if b"\n" not in got:
                break
            k = got.index(b"\n") + 1
            out, got = out + got[:k], got[k:]
        p.stdin.close()
        out += got + p.stdout.read()
        code = p.wait(timeout=max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        code = "timeout"
        out += got
    finally:
        p.stdout.close()
    return out, code


def run_session(s, root, cwd, logpath):
    """Run the requests of session s against the beanfile root; fills in what was observed.
    s: reqs (each with line), mode, eol, level (None: not logged)."""
    env = pod.clean_env()
    env.pop("RUST_LOG", None)
    if s.get("level") is not None:
        env["LIMABEAN_POD_LOG"] = logpath
        if s["level"]:
            env["LIMABEAN_POD_LOG_LEVEL"] = s["level"]
    reqs = s["reqs"]
    eol = s.get("eol", "\n").encode()
    lines = [r["line"].encode("utf8", "surrogateescape") + eol for r in reqs]
    if s.get("open_end") and lines:
        lines[-1] = reqs[-1]["line"].encode("utf8", "surrogateescape")
    args = [pod.POD, "serve", root]
    if s.get("mode") == "interactive":
        out, code = interactive(args, lines, env, cwd, 60)
    else:
        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=cwd)
        try:
            out, _ = p.communicate(b"".join(lines), timeout=120)
            code = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            code = "timeout"
    text = out.decode("utf8", "replace")
    got = text.split("\n")
    tail = got.pop()
    s["obs"] = [observe(l, r, root) for l, r in zip(got, reqs)]
    s["extra"] = len(got) > len(reqs) or tail != ""
    s["exit"] = str(code)
    s["raw"] = got
    s["logged"] = s.get("level") is not None
    s["log"] = check_log(s, logpath, got)
    return s


def check_log(s, logpath, got):
    """Whether the log has every request and every reply, in order, when it should."""
    level = s.get("level")
    try:
        with open(logpath, encoding="utf8", errors="replace") as f:
            text = f.read()
        os.remove(logpath)
    except FileNotFoundError:
        text = None
    if level is None:
        return text is None
    if text is None:
        return False
    wanted = level in ("", "debug", "trace")
    at = 0
    for k, r in enumerate(s["reqs"][:len(got)]):
        for mark, l in (("<- ", r["line"].strip()), ("-> ", got[k])):
            if re.search(r"[\x00-\x1f\x7f-\x9f]", l):
                continue
            if re.search(r"[\udc80-\udcff]", l):       # not UTF-8: only that it was there
                l = ""
            found = text.find(mark + l, at)
            if wanted and found < 0:
                return False
            if not wanted and mark + l in text and l:
                return False
            at = max(at, found)
    return True


def slim(case):
    """A case without what TLC does not read."""
    return {"id": case["id"], "world": case["world"],
            "sessions": [{"logged": s["logged"], "exit": s["exit"], "extra": s["extra"],
                          "log": s["log"], "reqs": [r["abs"] for r in s["reqs"]],
                          "obs": [{k: o[k] for k in EMPTY_OBS} for o in s["obs"]]} for s in case["sessions"]]}


def judge(scratch, prop, cases, name="pod"):
    d = spec_dir(scratch)
    path = scratch.path("%s.ndjson" % name)
    r = tlc_cases(d, "PodTrace", path, [slim(c) for c in cases], env={"CASES": path, "PROP": prop})
    bad = []
    for t in r.prints("BAD"):
        m = re.match(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*(\d+),\s*(\{[^{}]*\})\s*>>$', t)
        if not m:
            raise ToolError("cannot read TLC output: " + t)
        bad.append((m.group(1), int(m.group(2)), int(m.group(3)), set(re.findall(r"C\d\d", m.group(4)))))
    return r, bad
