"""The known findings: each is one input on which the real code breaks a
property.  A listed one which still does so is printed, and nothing else."""
import pod
from common import *

OPENS = "2020-01-01 open Assets:Bank\n2020-01-01 open Assets:Broker \"FIFO\"\n2020-01-01 open Equity:Opening\n"


def book(scratch, text):
    path = scratch.path("probe.beancount")
    with open(path, "w") as f:
        f.write(text)
    r = pod.serve(path, [pod.request("book", 1)])
    return r, (pod.loads(r.lines[0]) if r.lines else None)


def overflow(s):
    r, a = book(s, OPENS + """
2020-01-02 * "huge"
  Assets:Bank 79228162514264337593543950335 USD
  Assets:Bank 1 USD
  Equity:Opening
""")
    return a is None


def division(s):
    r, a = book(s, OPENS + "2020-01-02 balance Assets:Bank 1/0 USD\n")
    return a is None


def relabel(s):
    r, a = book(s, OPENS + """
2020-01-02 * "buy"
  Assets:Broker 2 AAPL {10 USD}
  Equity:Opening

2020-01-03 * "buy"
  Assets:Broker 2 AAPL {11 USD}
  Equity:Opening

2020-01-03 * "cash"
  Assets:Broker 100 USD
  Equity:Opening

2020-01-04 * "sell"
  Assets:Broker -3 AAPL {}
  Equity:Opening

2020-01-05 balance Assets:Broker 100 USD
2020-01-05 balance Assets:Broker 1 AAPL
""")
    return a is not None and "error" in a


def elided(s):
    r, a = book(s, OPENS + """
2020-01-02 * "buy"
  Assets:Broker 2 VTI {5 USD}
  Equity:Opening

2020-01-03 * "sell"
  Assets:Bank 10 EUR
  Assets:Broker -2 VTI {}
""")
    return a is not None and "result" in a


def answers(scratch, text, reqs):
    path = scratch.path("probe.beancount")
    with open(path, "w") as f:
        f.write(text)
    return [pod.loads(l).get("result") for l in pod.serve(path, reqs).lines]


def multibyte(s):
    r = answers(s, "2020-01-01 open Assets:Caf\u00e9\n",
                [pod.request("parser.resolve-spans", 1, [[0, 0, len("2020-01-01 open Assets:Caf\u00e9".encode())]])])
    return r[0][0]["content"] == ""


def append(s):
    make = lambda c: pod.request("parser.create-synthetic-spans", 1, [{"name": "x", "content": c}])
    r = answers(s, "", [make("\u00e9\u00e9\n"), make("abc\ndef\n"), pod.request("parser.resolve-spans", 1, [[1, 9, 12]])])
    return r[2][0]["content"] == "def" and (r[2][0]["start-line"], r[2][0]["end-line"]) != ("3", "3")


def escapes(s):
    path = s.path("probe.beancount")
    open(path, "w").close()
    r = pod.serve(path, ['{"jsonrpc":"2.0","id":1,"method":"book","params":[{"dct":"open","date":"2020-01-01","acc":"Assets:Caf\\u00e9"}]}'])
    return not r.lines or "error" in pod.loads(r.lines[0])


def tabulate(x):
    import check_tabulate as t
    return t.ask(x.encode())


def numbers(s):
    row = lambda c: '{"row":[[%s,{"aligned":["x","left"]}],"  "]}' % c
    r = tabulate('{"stack":[%s,%s,%s]}' % (row('{"anchored":["12.5",1]}'), row('{"anchored":["1.25",0]}'), row('{"empty":null}')))
    return r["exit"] == 0 and len({l.find("x") for l in r["lines"]}) > 1


def wide(s):
    return tabulate('{"stack":[{"aligned":["wider","left"]},{"row":[[{"aligned":["x","left"]}]," "]}]}')["exit"] not in (0, 1)


def gutter(s):
    return tabulate('{"row":[[{"aligned":["x","left"]},{"aligned":["x","left"]}],"\\u2502"]}')["exit"] == 1


PROBES = {"escapes": escapes, "numbers": numbers, "wide": wide, "gutter": gutter, "multibyte": multibyte, "append": append, "overflow": overflow, "division": division, "relabel": relabel, "elided": elided}


def run(prop):
    for p, key, text in known_findings():
        if p == prop and key in PROBES:
            with Scratch("probe") as s:
                if PROBES[key](s):
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
