"""Talking to limabean-pod."""
import json, os, subprocess, threading
from common import POD


class Num(str):
    """A JSON number, kept as it was written."""


def loads(s):
    return json.loads(s, parse_int=Num, parse_float=Num)


def dumps(x):
    if isinstance(x, Num):
        return str(x)
    if isinstance(x, dict):
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + dumps(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(dumps(v) for v in x) + "]"
    return json.dumps(x, ensure_ascii=False)


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("LIMABEAN")}
    env.update(extra or {})
    return env


class Reply:
    def __init__(self, out, err, code):
        self.out, self.err, self.code = out, err, code
        text = out.decode("utf8", "replace")
        self.lines = text.split("\n")
        self.complete = self.lines[-1] == ""      # the last line is terminated
        self.lines = self.lines[:-1] if self.complete else self.lines


def serve(path, lines, env=None, timeout=60, cwd=None):
    """Send the request lines, then EOF; return everything it answered."""
    data = b"".join(l if isinstance(l, bytes) else (l + "\n").encode() for l in lines)
    p = subprocess.Popen([POD, "serve", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=clean_env(env), cwd=cwd)
    try:
        out, err = p.communicate(data, timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        code = "timeout"
    return Reply(out, err, code)


def request(method, id=None, params=None):
    r = {"jsonrpc": "2.0", "id": Num(id) if isinstance(id, int) else id, "method": method}
    if params is not None:
        r["params"] = params
    return dumps(r)
