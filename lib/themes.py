"""Small universes of directives explored exhaustively by LedgerMC."""
import itertools
from model import *

D = dec
A, AB, E, E2, BR = "Assets:Bank", "Assets:Bank:Sub", "Equity:Opening", "Equity:Other", "Assets:Broker"


def o(date, acc, *curs, booking=None):
    return directive("open", date, acc=acc, curs=list(curs), booking=opt(booking))


def t(date, *ps, narration="n"):
    return directive("txn", date, flag="*", narration=[narration], ps=list(ps))


def bal(date, acc, n, cur, tol=None):
    return directive("balance", date, acc=acc, units=D(n), cur=cur, tol=opt(D(tol) if tol else None))


def pad(date, acc, src):
    return directive("pad", date, acc=acc, source=src)


def move(date, a, b, n, cur):
    neg = n[1:] if n.startswith("-") else "-" + n
    return t(date, posting(a, D(n), cur), posting(b, D(neg), cur))


def life():
    d = 20200102
    return {"scene": [o(20200101, E)], "universe": [
        o(d, A), o(d, A, "USD"), o(d, AB), directive("close", d, acc=A), directive("close", d, acc=AB),
        move(d, A, E, "5", "USD"), move(d, A, E, "5", "EUR"), move(d, AB, A, "3", "USD"),
        bal(d, A, "5", "USD"), bal(d, A, "0", "EUR"), pad(d, A, E), pad(d, AB, A)]}


def padbal():
    d = 20200102
    return {"scene": [o(20200101, E), o(20200101, E2, "EUR"), o(20200101, A), o(20200101, AB)], "universe": [
        pad(d, A, E), pad(d, AB, E), pad(d, A, E2), pad(d, AB, A),
        move(d, A, E, "5.00", "USD"), move(d, AB, E, "2", "USD"), t(d, posting(A, D("1"), "EUR"), posting(E)),
        bal(d, A, "5.00", "USD"), bal(d, AB, "2", "USD"), bal(d, A, "0", "USD"), bal(d, A, "7.01", "USD"),
        bal(d, A, "6", "USD", "1"), bal(d, A, "3", "EUR"), directive("close", d, acc=AB)]}


def rollup():
    """what an account and those below it hold, whatever their state"""
    d = 20200102
    B, C, X = "Assets:Bank:Sub", "Assets:Bank:Sub:Deep", "Assets:Bankers"
    close = lambda a: directive("close", d, acc=a)
    return {"scene": [o(20200101, a) for a in (A, B, C, X, E)] + [
                move(d, A, E, "1", "USD"), move(d, B, E, "20", "USD"), move(d, C, E, "300.0", "USD"), move(d, X, E, "4000", "USD")],
            "universe": [
                close(A), close(B), close(C), close(X), o(d, C), pad(d, A, E), pad(d, C, E), pad(d, E, X), move(d, B, C, "20", "USD"),
                bal(d, A, "321", "USD"), bal(d, B, "320.0", "USD"), bal(d, C, "300", "USD"), bal(d, A, "21", "USD"),
                bal(d, "Assets", "4321", "USD"), bal(d, A, "1", "USD", "1.0"), bal(d, E, "0", "USD")]}


def lots(method):
    def buy(date, n, per, cur="USD", label=None):
        return t(date, posting(BR, D(n), "AAPL", cost(per=D(per), cur=cur, label=label)), posting(E))

    def sell(n, **kw):
        return t(20200110, posting(BR, D("-" + n), "AAPL", cost(**kw), flag="!", tags=["tg"], links=["lk"], meta=[["key", "S:v"]]),
                 posting(E, meta=[["key", "N:1.0"]]))
    return {"scene": [o(20200101, E), o(20200101, BR, booking=method),
                      buy(20200102, "2", "10"), buy(20200103, "2", "12")], "universe": [
        buy(20200102, "2", "10"), buy(20200103, "2", "12"), buy(20200103, "3", "10", label="x"),
        buy(20200104, "2", "10", "EUR"),
        sell("1"), sell("2"), sell("4"), sell("5"), sell("2", per=D("10"), cur="USD"),
        sell("2", date=20200103), sell("3", label="x"), sell("2", cur="USD"),
        t(20200111, posting(BR, D("-1"), "AAPL", cost()), posting(BR, D("-2"), "AAPL", cost()), posting(E))]}


# postings of the shapes a user may write, leaving out what can be worked out
SHAPES = [
    posting(A, D("10.00"), "USD"), posting(E, D("-10.00"), "USD"), posting(E, D("-4"), "EUR"),
    posting(A), posting(E, cur="USD"), posting(E, D("-10.00")), posting(A, cur="EUR"),
    posting(A, D("4"), "EUR", price=price(per=D("2.5"), cur="USD")),
    posting(A, D("4"), "EUR", price=price(total=D("10.00"), cur="USD")),
    posting(A, cur="EUR", price=price(per=D("2.5"), cur="USD")),
    posting(A, D("4"), "EUR", price=price(cur="USD")),
    posting(A, D("4"), "EUR", price=price()),
    posting(A, D("4"), price=price(per=D("2.5"), cur="USD")),
    posting(A, D("4"), "EUR", price=price(per=D("2.5"))),
    posting(BR, D("3"), "AAPL", cost(per=D("3.50"), cur="USD")),
    posting(BR, D("3"), "AAPL", cost(total=D("10.00"), cur="USD")),
    posting(BR, D("3"), "AAPL", cost(cur="USD")),
    posting(BR, D("3"), "AAPL", cost()),
    posting(BR, None, "AAPL", cost(per=D("5"), cur="USD")),
    posting(BR, D("3"), None, cost(per=D("5"), cur="USD")),
    posting(BR, D("3"), "AAPL", cost(per=D("5"))),
    posting(BR, D("-2"), "VTI", cost()),
    posting(BR, D("-1"), "VTI", cost(), price(per=D("7"), cur="USD")),
    posting(BR, D("-5"), "VTI", cost()),
    posting(BR, None, "VTI", cost()),
]


def elide(n):
    u = [t(20200103, *ps) for ps in itertools.combinations_with_replacement(SHAPES, n)]
    return {"scene": [o(20200101, A), o(20200101, E), o(20200101, BR, booking="fifo"),
                      t(20200102, posting(BR, D("2"), "VTI", cost(per=D("5"), cur="USD")), posting(E)),
                      t(20200102, posting(BR, D("2"), "VTI", cost(per=D("6"), cur="USD")), posting(E))],
            "universe": u}


def tolerance():
    """transactions and balances off by about what is tolerated"""
    u = []
    for a in ("10", "10.0", "10.00", "10.000"):
        for off in ("0", "0.001", "0.004", "0.005", "0.006", "0.01", "0.05", "0.06", "0.1", "0.5", "0.6", "1", "2"):
            s = max(len(a.split(".")[1]) if "." in a else 0, len(off.split(".")[1]) if "." in off else 0)
            x = -(float(a) + float(off))
            u.append(t(20200102, posting(A, D(a), "USD"), posting(E, D("%.*f" % (s, x)), "USD")))
    for a in ("10", "10.0", "10.00"):
        for off in ("0", "0.001", "0.005", "0.01", "0.02", "0.1", "0.11", "0.2", "1", "2"):
            s = len(a.split(".")[1]) if "." in a else 0
            for sign in (1, -1):
                x = 10 + sign * float(off)
                base = D(a)
                u.append(bal(20200103, AB, a, "EUR", None) if off == "0" else
                         directive("balance", 20200103, acc="Assets:H%s" % off.replace(".", ""), units=base, cur="USD")
                         if sign > 0 else
                         directive("balance", 20200103, acc="Assets:L%s" % off.replace(".", ""), units=base, cur="USD"))
    for tol in ("0", "0.005", "0.01", "0.1"):
        u.append(bal(20200103, "Assets:H001", "10.00", "USD", tol))
        u.append(bal(20200103, "Assets:L001", "10", "USD", tol))
    scene = [o(20200101, A), o(20200101, E), o(20200101, AB), move(20200102, AB, E, "10", "EUR")]
    for off in ("0.001", "0.005", "0.01", "0.02", "0.1", "0.11", "0.2", "1", "2"):
        for k, sg in (("H", 1), ("L", -1)):
            acc = "Assets:%s%s" % (k, off.replace(".", ""))
            scene.append(o(20200101, acc))
            x = "%.3f" % (10 + sg * float(off))
            scene.append(move(20200102, acc, E, x, "USD"))
    opts = [NO_OPTS]
    for m in ("0", "0.1", "1", "1.5"):
        opts.append(dict(NO_OPTS, mult=[D(m)]))
    opts.append(dict(NO_OPTS, dflt=[{"cur": "USD", "tol": D("0.5")}]))
    opts.append(dict(NO_OPTS, dflt=[{"cur": "EUR", "tol": D("3")}], fb=[D("1")]))
    opts.append(dict(NO_OPTS, fb=[D("1")], mult=[D("2")]))
    return {"scene": scene, "universe": u, "opts": opts}


def methods_by_option():
    th = lots(None)
    th["opts"] = [dict(NO_OPTS, booking=[m]) for m in
                  ("strict", "strict-with-size", "none", "average", "fifo", "lifo", "hifo")]
    return th


def theme(name, depth):
    th = {"life": life, "padbal": padbal, "rollup": rollup, "tolerance": tolerance, "elide2": lambda: elide(2),
          "elide3": lambda: elide(3), "optmethods": methods_by_option}.get(name)
    th = th() if th else lots(name.split("-", 1)[1] if name != "lots-" else None)
    th.setdefault("opts", [NO_OPTS])
    th["depth"] = depth
    th["name"] = name
    return th
