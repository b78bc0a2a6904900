"""Random ledgers, biased so that most directives succeed and every rule of the
specification is exercised.  The generator knows nothing of what is right."""
import random
from decimal import Decimal as Q
from model import *

PLAIN = ["Assets:Bank", "Assets:Bank:Main", "Assets:Bank:Main:Sub", "Assets:Bank:Main:Sub:Low:Est", "Assets:BankTwo", "Liabilities:Card",
         "Expenses:Food", "Expenses:Food:Out", "Income:Job", "Equity:Opening"]
BROKER = ["Assets:Broker:A", "Assets:Broker:B", "Assets:Broker"]
CURS = ["USD", "EUR", "GBP"]
STOCKS = ["AAPL", "HOOL", "VTI"]
METHODS = ["strict", "strict-with-size", "none", "fifo", "lifo", "hifo", "average"]
WORDS = ["lunch", "Pay day", "café ☕", "say \"hi\"", "back\\slash", "a", "x  y", "naïve: note", "#tag", "1.5", "UPPER lower",
         "lunch, again"]
# such as would upset the layout of a report
ODD_WORDS = WORDS + [" around ", "  ", "tab\there", "two\nlines", "e\u0301\u200d", "null", "'P", "{}", "very " * 40, "%s;--"]
LABELS = ["lot-a", "lot-b", "first lot", "", "a", "naïve"]
FLAGS = ["!", "*", "?", "!", "*", "&", "#", "%", "'A", "'P", "'Z"]


def q(x, s=None):
    """A decimal of the specification from a Python one, with s digits."""
    x = Q(x)
    if s is not None:
        x = x.quantize(Q(1).scaleb(-s))
    return dec(format(x, "f").replace("-0", "-0") if x else format(abs(x), "f"))


class Gen:
    # relative weight of each kind of directive
    BASE = dict(simple=10, auto=5, multi=3, price=4, buy=7, sell=6, elide=4, broken=2, pad=3,
                balance=6, rollup=1, open=1, close=1, passive=3, wrongcur=1, unopened=1, reopen=1, random=2)

    def __init__(self, seed, weights=None, size=(5, 14), late_open=0.15, constrain=0.3, opts=0.25,
                 decorate=0.3, spread=12, tidy=False, params=False):
        self.r = random.Random(seed)
        self.w = dict(self.BASE)
        self.w.update(weights or {})
        self.size, self.late, self.constrain = size, late_open, constrain
        self.p_opts, self.decorate, self.spread, self.tidy = opts, decorate, spread, tidy
        self.words = ODD_WORDS if decorate > 0.5 else WORDS
        if params:          # the parser takes an empty text for none
            self.words = self.words + [""] * 4
        self.bal = {}       # (acc, cur) -> roughly what it holds
        self.lots = {}      # acc -> [(units, cur, per, cost cur, date, label)]

    # ------------------------------------------------------------ pieces
    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def amount(self, small=False):
        if not small and self.p(0.04):
            return Q(self.r.choice(["123456789.01", "0.00000001", "1000000", "98765.4321", "7.10", "0.5", "31415926535.897932"]))
        s = self.ch([0, 0, 1, 2, 2, 2, 3])
        n = self.r.randint(1, 30 if small else 500) * self.ch([1, 1, 10 ** s])
        return Q(n).scaleb(-s)

    def options(self):
        r = self.r
        if not self.p(self.p_opts):
            return NO_OPTS
        o = {"booking": [], "mult": [], "dflt": [], "fb": []}
        while o == NO_OPTS:
            if self.p(0.4):
                o["booking"] = [self.ch(METHODS)]
            if self.p(0.4):
                o["mult"] = [self.ch([dec("0"), dec("1"), dec("0.25"), dec("2"), dec("1.1"), dec("10")])]
            if self.p(0.4):
                o["dflt"] = [{"cur": c, "tol": self.ch([dec("0.5"), dec("1"), dec("0.01"), dec("3")])}
                             for c in sorted(r.sample(CURS, r.randint(1, 2)))]
            if self.p(0.3):
                o["fb"] = [self.ch([dec("0.5"), dec("2"), dec("0.05")])]
        return o

    def decorations(self, d):
        if self.p(self.decorate):
            if self.p(0.5):
                d["tags"] = sorted(self.r.sample(["tag-a", "b2", "Trip_x"], self.r.randint(1, 2)))
            if self.p(0.4):
                d["links"] = sorted(self.r.sample(["inv-1", "l2"], self.r.randint(1, 2)))
            if self.p(0.6):
                d["meta"] = sorted([k, self.ch(["S:some text", "N:12.30", "C:EUR", "A:Assets:Bank", "T:tg",
                                                "L:lk", "D:2020-02-03", "B:true", "B:false", "U:5.00 USD",
                                                "S:é \\ \"q\"", "N:-3", "Z:", "S:", "N:0.00", "U:-7 HOOL",
                                                "S:" + self.ch(self.words)])]
                                   for k in self.r.sample(["aa", "bb-x", "note"], self.r.randint(1, 2)))
        return d

    def txn(self, date, ps):
        if self.p(max(0.3, self.decorate)):
            for p in ps:
                if self.p(0.3):
                    p["flag"] = [self.ch(FLAGS)]
                if self.p(self.decorate):
                    self.decorations(p)
        d = directive("txn", date, flag=self.ch(["*"] * 8 + ["!"] * 4 + [f for f in FLAGS if f != "'P"]), ps=ps)
        if self.p(0.7):
            d["narration"] = [self.ch(self.words)]
            if self.p(0.3):
                d["payee"] = [self.ch(self.words)]
        return self.decorations(d)

    def credit(self, acc, cur, n):
        self.bal[acc, cur] = self.bal.get((acc, cur), Q(0)) + n

    def held(self, acc, cur):
        return sum((v for (a, c), v in self.bal.items() if c == cur and (a == acc or a.startswith(acc + ":"))), Q(0))

    def two(self):
        return self.r.sample([a for a in self.plain], 2)

    # ------------------------------------------------------------ kinds
    def k_simple(self, date):
        a, b = self.two()
        cur, n = self.ch(CURS), self.amount() * self.ch([1, -1])
        off = self.ch([0] * 8 + ["0.004", "0.005", "0.006", "-0.005", "0.05", "0.5", "1", "0.01", "-0.01", "0.02"])
        if self.tidy:
            off = 0
        m = -n + Q(off)
        ps = [posting(a, q(n), cur), posting(b, q(m), cur)]
        self.credit(a, cur, n)
        self.credit(b, cur, m)
        if self.p(0.25):        # a third leg
            c, x = self.ch(self.plain), self.amount()
            ps[1] = posting(b, q(m - x), cur)
            ps.append(posting(c, q(x), cur))
            self.credit(b, cur, -x)
            self.credit(c, cur, x)
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_auto(self, date):
        a, b = self.two()
        cur, n = self.ch(CURS), self.amount() * self.ch([1, -1])
        ps = [posting(a, q(n), cur)]
        tot = n
        if self.p(0.4):
            c, x = self.ch(self.plain), self.amount()
            ps.append(posting(c, q(x), cur))
            self.credit(c, cur, x)
            tot += x
        ps.append(posting(b, cur=cur if self.p(0.4) else None) if self.p(0.85) else posting(b, q(-tot)))
        self.credit(a, cur, n)
        self.credit(b, cur, -tot)
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_multi(self, date):
        """several currencies, each balanced or with one amount left out"""
        ps = []
        for cur in self.r.sample(CURS, 2):
            a, b = self.two()
            n = self.amount()
            ps.append(posting(a, q(n), cur))
            ps.append(posting(b, None if self.p(0.5) else q(-n), cur))
            self.credit(a, cur, n)
            self.credit(b, cur, -n)
        self.r.shuffle(ps)
        if self.p(0.15) and not self.tidy:
            ps.append(posting(self.ch(self.plain)))
        return self.txn(date, ps)

    def k_price(self, date):
        a, b = self.two()
        x, y = self.r.sample(CURS, 2)
        n, per = self.amount(), self.amount(True)
        tot = n * per
        sign = self.ch([1, 1, -1])
        form = self.ch(["per", "total", "nounits", "nocur", "bare", "barecur", "noprice-num", "elidedtotal"])
        pr = price(per=q(per), cur=y)
        p1 = posting(a, q(n * sign), x, None, pr)
        other = posting(b, q(-tot * sign), y)
        if form == "total":
            p1["price"] = [price(total=q(tot * sign), cur=y)]
        elif form == "nounits":
            p1["units"] = []
        elif form == "nocur":
            p1["cur"] = []
        elif form == "bare":
            p1["price"] = [price()]
        elif form == "barecur":
            p1["price"] = [price(cur=y)]
        elif form == "noprice-num":
            p1["price"] = [price(per=q(per))]
        elif form == "elidedtotal":
            p1["price"] = [price(total=q(tot * sign))]
        if self.p(0.4) and form in ("per", "total"):
            other = posting(b)
        elif self.p(0.3):
            other = posting(b, q(-tot * sign + Q(self.ch(["0.001", "0.01", "0.1", "0", "0.004"]))), y)
        self.credit(a, x, n * sign)
        self.credit(b, y, -tot * sign)
        ps = [p1, other]
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_buy(self, date):
        a, b = self.ch(self.broker), self.ch(self.plain)
        st, cur = self.ch(self.stocks.get(a, STOCKS)), self.ch(CURS if self.p(0.2) else ["USD"])
        n = Q(self.r.randint(1, 20)) if self.p(0.7) else self.amount(True)
        per = self.ch([Q(10), Q("12.5"), Q(11), Q("10.05"), self.amount(True)])
        tot = n * per
        short = self.p(0.05)
        if short:
            n, tot = -n, -tot
        label = self.ch(LABELS) if self.p(0.3) else None
        d = self.ch([20191231, 20200101, 20200102, 20200105]) if self.p(0.25) else None
        form = self.ch(["per", "per", "per", "total", "both", "nonum", "nounits", "nocur", "barecur", "nothing"])
        c = cost(per=q(per), cur=cur, date=d, label=label)
        if form == "total":
            c = cost(total=q(tot), cur=cur, date=d, label=label)
        elif form == "both":
            c = cost(per=q(per), total=q(tot), cur=cur, date=d, label=label)
        elif form in ("nonum", "barecur"):
            c = cost(cur=cur, date=d, label=label)
        elif form == "nocur":
            c = cost(per=q(per), date=d, label=label)
        elif form == "nothing":
            c = cost(date=d, label=label)
        p1 = posting(a, None if form == "nounits" else q(n), st, c)
        if self.p(0.1):
            p1["price"] = [price(per=q(per + 1), cur=cur)]
        other = posting(b, q(-tot), cur)
        if self.p(0.3) and form in ("per", "total", "both"):
            other = posting(b)
        self.credit(b, cur, -tot)
        self.lots.setdefault(a, []).append([n, st, per, cur, d or date, label])
        ps = [p1, other]
        if self.p(0.15):        # two lots at once
            per2 = per + self.ch([0, 1])
            ps = [p1, posting(a, q(n), st, cost(per=q(per2), cur=cur)), posting(b)]
            self.lots[a].append([n, st, per2, cur, date, None])
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_sell(self, date):
        accs = [a for a in self.lots if self.lots[a]]
        if not accs:
            return self.k_buy(date)
        a = self.ch(accs)
        lot = self.ch(self.lots[a])
        same = [l for l in self.lots[a] if l[1] == lot[1]]
        held = sum(l[0] for l in same)
        n = self.ch([lot[0], lot[0], held, lot[0] / 2 if lot[0] == int(lot[0]) and int(lot[0]) % 2 == 0 else lot[0],
                     max(Q(1), held - 1), held + 1, Q(1), lot[0] + 1])
        if n == 0:
            n = Q(1)
        per, cur = lot[2], lot[3]
        form = self.ch(["any", "any", "per", "perdate", "date", "label", "full", "total", "cur", "wrong", "merge"])
        c = {"any": lambda: cost(), "per": lambda: cost(per=q(per), cur=cur), "cur": lambda: cost(cur=cur),
             "perdate": lambda: cost(per=q(per), date=lot[4]), "date": lambda: cost(date=lot[4]),
             "label": lambda: cost(label=lot[5] or "lot-a"),
             "full": lambda: cost(per=q(per), cur=cur, date=lot[4], label=lot[5]),
             "total": lambda: cost(total=q(n * per), cur=cur), "wrong": lambda: cost(per=q(per + 3), cur=cur),
             "merge": lambda: cost(merge=True)}[form]()
        sale = n * (per + self.ch([0, 2, -1]))
        p1 = posting(a, q(-n), lot[1], c)
        if self.p(0.4):
            p1["price"] = [price(per=q(sale / n if (sale / n) == (sale / n).quantize(Q("0.0001")) else Q(5)), cur=cur)]
        ps = [p1, posting(self.ch(self.plain), q(sale.quantize(Q("0.01"))), cur), posting(self.gains)]
        if self.p(0.2):
            ps = [p1, posting(self.ch(self.plain))]
        if self.p(0.1):
            ps.insert(1, posting(a, q(-Q(self.r.randint(1, 3))), lot[1], cost()))
        # what is left, roughly
        rest = n
        for l in list(same):
            t = min(rest, l[0])
            l[0] -= t
            rest -= t
            if l[0] <= 0 and l in self.lots[a]:
                self.lots[a].remove(l)
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_elide(self, date):
        """drop parts of a transaction"""
        d = getattr(self, self.ch(["k_simple", "k_price", "k_buy", "k_multi", "k_sell"]))(date)
        for _ in range(self.r.randint(1, 2)):
            p = self.ch(d["ps"])
            what = self.ch(["units", "cur", "all", "costnum", "costcur", "pricenum", "pricecur"])
            if what in ("units", "all"):
                p["units"] = []
            if what in ("cur", "all"):
                p["cur"] = []
            if what == "all" and self.p(0.7):
                p["cost"], p["price"] = [], []
            if what.startswith("cost") and p["cost"]:
                for k in (("per", "total") if what == "costnum" else ("cur",)):
                    p["cost"][0][k] = []
            if what.startswith("price") and p["price"]:
                for k in (("per", "total") if what == "pricenum" else ("cur",)):
                    p["price"][0][k] = []
        return d

    def k_broken(self, date):
        """a transaction which is off by some amount"""
        d = getattr(self, self.ch(["k_simple", "k_price", "k_buy", "k_multi"]))(date)
        ps = [p for p in d["ps"] if p["units"]]
        if ps and not self.tidy:
            p = self.ch(ps)
            p["units"] = [q(Q(num(p["units"][0])) + self.ch([1, -1, Q("0.01"), Q("0.1"), Q("0.005")]))]
        return d

    def k_random(self, date):
        ps = []
        for _ in range(self.r.randint(1, 4)):
            a = self.ch(self.plain + self.broker)
            p = posting(a, q(self.amount(True) * self.ch([1, -1])) if self.p(0.7) else None,
                        self.ch(CURS + STOCKS) if self.p(0.8) else None)
            if self.p(0.3):
                p["cost"] = [cost(per=q(self.amount(True)) if self.p(0.5) else None,
                                  cur=self.ch(CURS) if self.p(0.6) else None)]
            elif self.p(0.3):
                p["price"] = [price(per=q(self.amount(True)) if self.p(0.6) else None,
                                    cur=self.ch(CURS) if self.p(0.7) else None)]
            ps.append(p)
        return self.txn(date, ps)

    def k_pad(self, date):
        a, b = self.two()
        if self.p(0.2):
            a = self.ch(["Assets:Bank", "Assets:Bank:Main"])
        if a == b:
            b = "Equity:Opening"
        self.padded.append(a)
        return self.decorations(directive("pad", date, acc=a, source=b if self.p(0.6) else "Equity:Opening"))

    def k_balance(self, date):
        padded = self.padded and self.p(0.6)
        a = self.padded.pop(self.r.randrange(len(self.padded))) if padded else self.ch(self.plain + ["Assets:Bank"] * 2 + ["Expenses:Food"])
        cur = self.ch(CURS)
        held = self.held(a, cur)
        if padded and self.p(0.7):
            n = held + self.ch([0, 5, -7, Q("10.50")])
        else:
            n = held + Q(self.ch([0] * 6 + ["0.01", "-0.01", "0.02", "0.011", "0.001", "1", "-100", "0.1", "0.2"]))
        if self.tidy and not padded:
            n = held
        tol = None
        if self.p(0.25):
            tol = self.ch([dec("0"), dec("0.02"), dec("0.5"), dec("0.001"), dec("100")])
        u = q(n, self.ch([None, None, 2, 2, 3, 1, 0])) if self.p(0.6) else q(n)
        if n != held:
            self.credit(a, cur, n - held)
        return self.decorations(directive("balance", date, acc=a, units=u, cur=cur, tol=opt(tol)))

    def k_rollup(self, date):
        """close a sub-account which holds something, and look at what is above"""
        subs = [(a, b) for a in self.plain for b in self.plain if b.startswith(a + ":")]
        if not subs:
            return self.k_balance(date)
        a, b = self.ch(subs)
        cur, n = self.ch(CURS), self.amount()
        other = self.ch([x for x in self.plain if x != b])
        self.credit(b, cur, n)
        self.credit(other, cur, -n)
        res = [self.txn(date, [posting(b, q(n), cur), posting(other, q(-n), cur)])]
        if self.p(0.7):
            res.append(directive("close", date, acc=b))
            self.closing.append(b)
        res.append(directive("balance", date + 1, acc=a, units=q(self.held(a, cur)), cur=cur))
        return res

    def k_open(self, date):
        return self.opening(self.ch(self.plain + self.broker), date)

    def k_reopen(self, date):
        return self.opening(self.ch(self.closing or self.plain), date)

    def k_close(self, date):
        a = self.ch(self.plain + self.broker)
        self.closing.append(a)
        return self.decorations(directive("close", date, acc=a))

    def k_unopened(self, date):
        a = self.ch(["Assets:Never", "Assets:Bank:Other", "Expenses:Foo", "Assets:Broker:C"])
        k = self.r.randrange(5)
        if k == 0:
            return directive("close", date, acc=a)
        if k == 1:
            return directive("balance", date, acc=a, units=dec("0"), cur="USD")
        if k == 2:
            return directive("pad", date, acc=a, source=self.ch(self.plain))
        if k == 3:
            return directive("pad", date, acc=self.ch(self.plain), source=a)
        n = self.amount()
        ps = [posting(a, q(n), "USD"), posting(self.ch(self.plain), q(-n), "USD")]
        if self.p(0.3):
            ps = [posting(a, q(n), "AAPL", cost(per=dec("2"), cur="USD")), posting(self.ch(self.plain))]
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_wrongcur(self, date):
        a, b = self.two()
        n = self.amount()
        cur = self.ch(["JPY", "CHF", "VTI"])
        k = self.r.randrange(4)
        if k == 0:
            return directive("balance", date, acc=a, units=q(n), cur=cur)
        ps = [posting(a, q(n), cur), posting(b, None if k == 1 else q(-n), cur)]
        self.r.shuffle(ps)
        return self.txn(date, ps)

    def k_passive(self, date):
        r = self.ch
        d = r([lambda: directive("price", date, body=[r(STOCKS + CURS), r(["1.50", "10", "0.001"]), r(CURS)]),
               lambda: directive("commodity", date, body=[r(STOCKS + CURS)]),
               lambda: directive("document", date, body=[r(self.plain), r(["/tmp/a b.pdf", "doc.pdf"])]),
               lambda: directive("note", date, body=[r(self.plain + ["Assets:Never"]), r(self.words)]),
               lambda: directive("event", date, body=["location", r(self.words)]),
               lambda: directive("query", date, body=["a query", "SELECT \"x\""]),
               lambda: directive("custom", date, body=["budget"] + self.r.sample(
                   ["S:text", "N:1.50", "U:2.00 USD", "B:true", "D:2020-01-01", "A:Assets:Bank"], self.r.randint(1, 3)))])()
        d = self.decorations(d)
        if d["kind"] == "custom":       # tags and links would be among its values
            d["tags"], d["links"] = [], []
        return d

    def opening(self, a, date):
        d = directive("open", date, acc=a)
        if a in self.broker:
            if self.p(0.9):
                d["booking"] = [self.ch(METHODS)] if self.p(0.75) else []
            if self.p(self.constrain / 2):
                d["curs"] = STOCKS
        elif self.p(self.constrain):
            d["curs"] = self.r.sample(CURS, self.r.randint(1, 3)) + (["JPY"] if self.p(0.2) else [])
        elif self.p(0.1):
            d["booking"] = [self.ch(METHODS)]
        return self.decorations(directive("open", date, acc=a, curs=d["curs"], booking=d["booking"]))

    # ------------------------------------------------------------ ledgers
    def ledger(self):
        r = self.r
        self.padded, self.closing = [], []
        self.gains = "Income:Job"
        self.plain = r.sample(PLAIN[:-1], r.randint(3, 6)) + ["Equity:Opening"]
        if "Assets:Bank" not in self.plain:
            self.plain.append("Assets:Bank")
        self.broker = r.sample(BROKER, r.randint(1, 2))
        self.stocks = {b: [s] if self.p(0.8) else STOCKS[:2] for b, s in zip(self.broker, r.sample(STOCKS, len(self.broker)))}
        if self.gains not in self.plain:
            self.plain.append(self.gains)
        first = 20200101
        dirs = []
        for a in self.plain + self.broker:
            if self.p(0.04):
                continue
            dirs.append(self.opening(a, first + r.randint(0, 3) if self.p(self.late) else first))
        kinds = [k for k in self.w for _ in range(self.w[k])]
        day = 1
        for _ in range(r.randint(*self.size) if not self.p(0.03) else 45):
            day = min(28, day + r.choice([0, 0, 1, 1, 2]))
            k = self.ch(kinds)
            d = getattr(self, "k_" + k)(20200100 + day)
            dirs += d if isinstance(d, list) else [d]
        if not self.tidy:
            for a in self.padded[:]:
                if self.p(0.6):
                    dirs.append(directive("balance", 20200100 + min(28, day + 1), acc=a, units=q(self.amount()), cur="USD"))
            if self.p(0.06):        # pads which nothing needs
                for a in r.sample(PLAIN, r.randint(4, 9)):
                    if a not in self.plain:
                        dirs.append(self.opening(a, first))
                    if a != "Equity:Opening":
                        dirs.append(directive("pad", 20200100 + r.randint(1, 28), acc=a, source="Equity:Opening"))
        if self.p(0.25):        # not written in the order of dates
            for _ in range(r.randint(1, 3)):
                i, k = r.randrange(len(dirs)), r.randrange(len(dirs))
                dirs[i], dirs[k] = dirs[k], dirs[i]
        if self.p(0.2):
            month = self.ch([190001, 196912, 199912, 200002, 201910, 202412, 203801, 210003, 299911])
            for d in dirs:
                d["date"] = moved(d["date"], month)
                for p in d["ps"]:
                    for c in p["cost"]:
                        c["date"] = [moved(x, month) for x in c["date"]]
        return dirs, self.options()


def moved(date, month):
    return month * 100 + date % 100 if date // 100 == 202001 else date
