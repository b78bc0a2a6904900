"""The core library of the interpreter clj, and those others which limabean uses."""
import datetime, functools, io, json, os, re, subprocess
from decimal import Decimal
import clj
from clj import *
from clj import _gensym

CORE = ns_of("clojure.core")
S, K, L = Symbol, Keyword, lambda *xs: plist(xs)


def lib(ns, name):
    BUILTIN.add(ns)
    def deco(f):
        ns_of(ns).intern(name, f)
        return f
    return deco


def core(*names):
    def deco(f):
        for n in names:
            CORE.intern(n, f)
        return f
    return deco


def macro(name, ns="clojure.core"):
    def deco(f):
        v = ns_of(ns).intern(name, f)
        v.macro = "py"
        return f
    return deco


CORE.vars["*ns*"], CORE.vars["*out*"], CORE.vars["*err*"] = NS, OUT, ERR
for v in (NS, OUT, ERR):
    v.bound = True
for n in ("*warn-on-reflection*", "*print-length*", "*command-line-args*", "*e"):
    CORE.intern(n).bound = True
KNOWN_CORE |= set("agent send ref dosync alter promise deliver future pmap bean proxy reify deftype defrecord defprotocol extend-type extend-protocol extend "
                  "slurp spit read line-seq rseq subvec array-map sorted-map sorted-set sorted-map-by bit-and bit-or rand rand-int shuffle iterate cycle "
                  "tree-seq file-seq format-time aget aset make-array to-array into-array long-array import requiring-resolve resolve find-var vary-meta "
                  "partition-all reductions replace rationalize biginteger bigint numerator denominator ratio? num unchecked-add tap> add-watch "
                  "future-call time with-redefs defstruct definline gen-class parse-long parse-double random-uuid update-keys update-vals".split())


# ---------------------------------------------------------------- macros
def let1(b, *body):
    return L(S("let*"), Vec(list(b)), *body)


def gen():
    return S("g__%d#" % gensym())


def do(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else L(S("do"), *xs)


@macro("let")
def _(form, sc, b, *body):
    return L(S("let*"), b, *body)


@macro("fn")
def _(form, sc, *a):
    return L(S("fn*"), *a)


@macro("loop")
def _(form, sc, *a):
    return L(S("loop*"), *a)


@macro("defn")
def m_defn(form, sc, name, *a):
    a = list(a)
    if type(a[0]) is str:
        a = a[1:]
    if type(a[0]) is PMap:
        a = a[1:]
    return L(S("def"), name, L(S("fn*"), *a))


CORE.intern("defn-", m_defn).macro = "py"


@macro("defmacro")
def _(form, sc, name, *a):
    m = name.meta or PMap()
    return m_defn(form, sc, S(name.name, conj1(m, hash_map(K("macro"), True))), *a)


@macro("defonce")
def _(form, sc, name, x):
    return L(S("def"), name, x)


@macro("declare")
def _(form, sc, *names):
    return do([L(S("def"), n) for n in names] or [None])


@macro("comment")
def _(form, sc, *a):
    return None


@macro("when")
def _(form, sc, c, *body):
    return L(S("if"), c, do(body) if body else None)


@macro("when-not")
def _(form, sc, c, *body):
    return L(S("if"), c, None, do(body) if body else None)


@macro("if-not")
def _(form, sc, c, a, b=None):
    return L(S("if"), c, b, a)


@macro("cond")
def _(form, sc, *a):
    if len(a) % 2:
        throw("IllegalArgumentException", "cond requires an even number of forms")
    r = None
    for i in range(len(a) - 2, -1, -2):
        r = L(S("if"), a[i], a[i + 1], r)
    return r


@macro("and")
def m_and(form, sc, *a):
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    g = gen()
    return let1([g, a[0]], L(S("if"), g, m_and(form, sc, *a[1:]), g))


@macro("or")
def m_or(form, sc, *a):
    if not a:
        return None
    if len(a) == 1:
        return a[0]
    g = gen()
    return let1([g, a[0]], L(S("if"), g, g, m_or(form, sc, *a[1:])))


def if_let(test):
    def f(form, sc, b, then, els=None):
        g = gen()
        return let1([g, b.l[1]], L(S("if"), test(g), let1([b.l[0], g], then), els))
    return f


some = lambda g: L(S("clojure.core/some?"), g)
CORE.intern("if-let", if_let(lambda g: g)).macro = "py"
CORE.intern("if-some", if_let(some)).macro = "py"
CORE.intern("when-let", lambda form, sc, b, *body: if_let(lambda g: g)(form, sc, b, do(body))).macro = "py"
CORE.intern("when-some", lambda form, sc, b, *body: if_let(some)(form, sc, b, do(body))).macro = "py"


@macro("when-first")
def _(form, sc, b, *body):
    g = gen()
    return let1([g, L(S("clojure.core/seq"), b.l[1])], L(S("if"), g, let1([b.l[0], L(S("clojure.core/first"), g)], *body)))


def thread(x, f, last=False):
    if type(f) is Seq and f.has():
        l = list(it(f))
        if type(l[0]) is Symbol and l[0].name in ("fn", "fn*"):
            return L(f, x)
        r = plist(l + [x] if last else [l[0], x] + l[1:])
        return r
    return L(f, x)


@macro("->")
def _(form, sc, x, *fs):
    for f in fs:
        x = thread(x, f)
    return x


@macro("->>")
def _(form, sc, x, *fs):
    for f in fs:
        x = thread(x, f, True)
    return x


@macro("as->")
def _(form, sc, x, name, *fs):
    b = [name, x]
    for f in fs:
        b += [name, f]
    return let1(b, name)


def cond_thread(last):
    def f(form, sc, x, *cs):
        g = gen()
        b = [g, x]
        for i in range(0, len(cs), 2):
            b += [g, L(S("if"), cs[i], thread(g, cs[i + 1], last), g)]
        return let1(b, g)
    return f


def some_thread(last):
    def f(form, sc, x, *fs):
        g = gen()
        b = [g, x]
        for y in fs:
            b += [g, L(S("if"), some(g), thread(g, y, last), None)]
        return let1(b, g)
    return f


CORE.intern("cond->", cond_thread(False)).macro = "py"
CORE.intern("cond->>", cond_thread(True)).macro = "py"
CORE.intern("some->", some_thread(False)).macro = "py"
CORE.intern("some->>", some_thread(True)).macro = "py"


@macro("doto")
def _(form, sc, x, *fs):
    g = gen()
    return let1([g, x], *([thread(g, f) for f in fs] + [g]))


@macro("case")
def _(form, sc, x, *cs):
    g = gen()
    cs = list(cs)
    r = cs.pop() if len(cs) % 2 else L(S("throw"), L(S("clojure.core/illegal-argument"), L(S("clojure.core/str"), "No matching clause: ", g)))
    for i in range(len(cs) - 2, -1, -2):
        t = cs[i]
        test = L(S("clojure.core/contains?"), L(S("quote"), hash_set(*it(t))), g) if type(t) is Seq else L(S("clojure.core/="), L(S("quote"), t), g)
        r = L(S("if"), test, cs[i + 1], r)
    return let1([g, x], r)


@macro("condp")
def _(form, sc, pred, x, *cs):
    g, p = gen(), gen()
    cs = list(cs)
    r = L(S("throw"), L(S("clojure.core/illegal-argument"), L(S("clojure.core/str"), "No matching clause: ", g)))
    clauses = []
    while len(cs) > 1:
        n = 3 if cs[1] is K(">>") and len(cs) > 2 else 2
        clauses.append(cs[:n])
        cs = cs[n:]
    if cs:
        r = cs[0]
    for c in reversed(clauses):
        if len(c) == 3:
            q = gen()
            r = L(S("let*"), Vec([q, L(p, c[0], g)]), L(S("if"), q, L(c[2], q), r))
        else:
            r = L(S("if"), L(p, c[0], g), c[1], r)
    return let1([p, pred, g, x], r)


def nested(b, inner, f):
    l = b.l
    if not l:
        return inner
    x, y, more = l[0], l[1], Vec(l[2:])
    if type(x) is Keyword:
        if x.name == "let":
            return L(S("let*"), y, nested(more, inner, f))
        if x.name == "when":
            return L(S("if"), y, nested(more, inner, f))
        if x.name == "while":
            return L(S("if"), y, nested(more, inner, f), L(S("quote"), STOP))
    return L(S("clojure.core/" + f), L(S("fn*"), Vec([x]), nested(more, inner, f)), y)


class Stop:
    pass


STOP = Stop()


@macro("for")
def _(form, sc, b, body):
    return nested(b, L(S("clojure.core/list"), body), "for*")


@macro("doseq")
def _(form, sc, b, *body):
    return nested(b, do(list(body) + [None]), "doseq*")


@core("for*")
def _(f, c):
    def g():
        for x in it(c):
            r = f(x)
            if r is STOP:
                return
            yield from it(r)
    return lazy(g())


@core("doseq*")
def _(f, c):
    for x in it(c):
        if f(x) is STOP:
            return


@macro("dotimes")
def _(form, sc, b, *body):
    return L(S("clojure.core/doseq*"), L(S("fn*"), Vec([b.l[0]]), *body), L(S("clojure.core/range"), b.l[1]))


@macro("while")
def _(form, sc, c, *body):
    return L(S("loop*"), Vec([]), L(S("if"), c, do(list(body) + [L(S("recur"))])))


@macro("binding")
def _(form, sc, b, *body):
    vs = [L(S("var"), x) for x in b.l[::2]]
    return L(S("clojure.core/binding*"), Vec(vs), Vec(b.l[1::2]), L(S("fn*"), Vec([]), *body))


@core("binding*")
def _(vs, xs, f):
    old = [v.v for v in vs.l]
    for v, x in zip(vs.l, xs.l):
        v.v = x
    try:
        return f()
    finally:
        for v, x in zip(vs.l, old):
            v.v = x


@macro("with-open")
def _(form, sc, b, *body):
    r = do(body)
    for i in range(len(b.l) - 2, -1, -2):
        r = L(S("let*"), Vec(b.l[i:i + 2]), L(S("try"), r, L(S("finally"), L(S(".close"), b.l[i]))))
    return r


@macro("with-out-str")
def _(form, sc, *body):
    return L(S("clojure.core/with-out-str*"), L(S("fn*"), Vec([]), *body))


@core("with-out-str*")
def _(f):
    w, old = Obj("java.io.StringWriter", parts=[]), OUT.v
    OUT.v = w
    try:
        f()
    finally:
        OUT.v = old
    return "".join(w.parts)


@macro("delay")
def _(form, sc, *body):
    return L(S("clojure.core/delay*"), L(S("fn*"), Vec([]), *body))


CORE.intern("delay*", Delay)


@macro("lazy-seq")
def _(form, sc, *body):
    return L(S("clojure.core/lazy*"), L(S("fn*"), Vec([]), *body))


@core("lazy*")
def _(f):
    def g():
        yield from it(f())
    return lazy(g())


@macro("lazy-cat")
def _(form, sc, *xs):
    return L(S("clojure.core/concat"), *[L(S("clojure.core/lazy-seq"), x) for x in xs])


@macro("assert")
def _(form, sc, c, m=None):
    return L(S("if"), c, None, L(S("throw"), L(S("clojure.core/assertion-error"), m)))


@macro("defmulti")
def _(form, sc, name, *a):
    a = [x for x in a if type(x) not in (str, PMap)]
    return L(S("def"), name, L(S("clojure.core/multi*"), name.name, *a))


@core("multi*")
def _(name, dispatch, *opts):
    o = {opts[i].name: opts[i + 1] for i in range(0, len(opts), 2)}
    if set(o) - {"default"}:
        raise Unsupported("hierarchy of a multimethod")
    return Multi(name, dispatch, o.get("default", K("default")))


@macro("defmethod")
def _(form, sc, name, val, *a):
    a = list(a)
    if type(a[0]) is Symbol:
        a = a[1:]
    return L(S("clojure.core/method*"), name, val, L(S("fn*"), *a))


@core("method*")
def _(m, val, f):
    m.methods[Key(val)] = f
    return m


@core("get-method")
def _(m, v):
    return m.find(v)


clj.PRINT = Multi("print-method", lambda x, w: K("none"), K("default"))
CORE.intern("print-method", clj.PRINT)


@macro("ns")
def _(form, sc, name, *clauses):
    n = ns_of(name.name)
    NS.v = n
    for c in clauses:
        if type(c) is not Seq:
            continue
        h, *args = list(it(c))
        if h.name == "require" or h.name == "use":
            for a in args:
                require1(n, a)
        elif h.name == "import":
            for a in args:
                import1(n, a)
        elif h.name == "refer-clojure":
            o = as_map(plist(args))
            for x in it(get(o, K("exclude"))):
                n.excluded.add(x.name)
            if get(o, K("only")) is not None or get(o, K("rename")) is not None:
                raise Unsupported("refer-clojure")
        elif h.name not in ("gen-class",):
            raise Unsupported("ns clause " + h.name)
    return None


def require1(n, a):
    if type(a) in (Symbol, Keyword):
        if type(a) is Symbol:
            load_ns(a.name)
        return
    l = list(it(a))
    m = load_ns(l[0].name)
    for i in range(1, len(l), 2):
        if l[i].name in ("as", "as-alias"):
            n.aliases[l[i + 1].name] = m.name
        elif l[i].name == "refer":
            if type(l[i + 1]) is Keyword:
                n.refers.update(m.vars)
            else:
                for s in it(l[i + 1]):
                    if s.name not in m.vars:
                        if m.name in BUILTIN:
                            raise Unsupported("%s/%s" % (m.name, s.name))
                        throw("RuntimeException", "%s does not exist" % s.name)
                    n.refers[s.name] = m.vars[s.name]
        else:
            raise Unsupported("require " + pr_str(l[i]))


def import1(n, a):
    if type(a) is Symbol:
        n.imports[a.name.rpartition(".")[2]] = a.name
    else:
        l = [x.name for x in it(a)]
        for x in l[1:]:
            n.imports[x] = l[0] + "." + x


@core("require")
def _(*a):
    for x in a:
        require1(NS.v, x)


@core("use")
def _(*a):
    raise Unsupported("use")


@core("find-ns")
def _(s):
    return NSS.get(s.name)


@core("the-ns")
def _(s):
    return s if isinstance(s, Ns) else NSS[s.name]


@core("ns-name")
def _(n):
    return S(n.name)


@core("ns-resolve")
def _(n, s):
    n = n if isinstance(n, Ns) else NSS.get(n.name)
    if n is None:
        throw("Exception", "No namespace found")
    return n.find(s.name)


@core("in-ns")
def _(s):
    NS.v = ns_of(s.name)
    return NS.v


@core("load-file")
def _(path):
    old = NS.v
    try:
        return load_text(open(path, encoding="utf8").read())
    finally:
        NS.v = old


@core("load-string")
def _(s):
    return load_text(s)


@core("eval")
def _(x):
    return evaluate(x)


@core("read-string")
def _(s):
    if s is None:
        throw("NullPointerException", None)
    return Reader(s, NS.v).read()


@core("alter-var-root")
def _(v, f, *a):
    v.v = f(v.v, *a)
    v.bound = True
    return v.v


@core("var-get")
def _(v):
    return v.v


# ---------------------------------------------------------------- functions
@core("identity")
def _(x):
    return x


@core("constantly")
def _(x):
    return lambda *a: x


@core("partial")
def _(f, *a):
    return lambda *b: f(*a, *b)


@core("comp")
def _(*fs):
    if not fs:
        return lambda x: x
    def c(*a):
        r = fs[-1](*a)
        for f in fs[-2::-1]:
            r = f(r)
        return r
    return c


@core("complement")
def _(f):
    return lambda *a: not truth(f(*a))


@core("juxt")
def _(*fs):
    return lambda *a: Vec([f(*a) for f in fs])


@core("fnil")
def _(f, *ds):
    return lambda *a: f(*[d if i < len(a) and a[i] is None else a[i] for i, d in enumerate(ds) if i < len(a)], *a[len(ds):])


@core("memoize")
def _(f):
    d = {}
    def g(*a):
        k = Key(Vec(list(a)))
        if k not in d:
            d[k] = f(*a)
        return d[k]
    return g


@core("every-pred")
def _(*ps):
    return lambda *xs: all(truth(p(x)) for x in xs for p in ps)


@core("some-fn")
def _(*ps):
    def f(*xs):
        r = None
        for x in xs:
            for p in ps:
                r = p(x)
                if truth(r):
                    return r
        return r
    return f


@core("apply")
def _(f, *a):
    return f(*a[:-1], *it(a[-1]))


@core("not")
def _(x):
    return not truth(x)


@core("boolean")
def _(x):
    return truth(x)


@core("=")
def _eq(x, *ys):
    for y in ys:
        if not equiv(x, y):
            return False
        x = y
    return True


@core("not=")
def _(*a):
    return not _eq(*a)


@core("==")
def _(*a):
    return all(num(a[i]) == num(a[i + 1]) for i in range(len(a) - 1))


@core("identical?")
def _(a, b):
    return a is b or (type(a) is type(b) and type(a) in (int, str) and a == b)


def pred(name, f):
    CORE.intern(name, f)


for n, f in {
    "nil?": lambda x: x is None, "some?": lambda x: x is not None, "true?": lambda x: x is True, "false?": lambda x: x is False,
    "map?": lambda x: type(x) is PMap, "vector?": lambda x: type(x) is Vec, "set?": lambda x: type(x) is PSet, "seq?": lambda x: type(x) is Seq,
    "list?": lambda x: type(x) is Seq and x.src is None, "string?": lambda x: type(x) is str, "keyword?": lambda x: type(x) is Keyword,
    "symbol?": lambda x: type(x) is Symbol, "char?": lambda x: type(x) is Char, "boolean?": lambda x: type(x) is bool,
    "number?": lambda x: type(x) in (int, Decimal, float), "int?": lambda x: type(x) is int and -2**63 <= x < 2**63, "integer?": lambda x: type(x) is int,
    "decimal?": lambda x: type(x) is Decimal, "float?": lambda x: type(x) is float, "double?": lambda x: type(x) is float,
    "coll?": lambda x: type(x) in (PMap, PSet, Vec, Seq), "sequential?": lambda x: type(x) in (Vec, Seq), "seqable?": lambda x: x is None or type(x) in (PMap, PSet, Vec, Seq, str, Eduction),
    "associative?": lambda x: type(x) in (PMap, Vec), "fn?": lambda x: callable(x) and not isinstance(x, (Keyword, PMap, PSet, Vec, Symbol, Var, Multi)),
    "ifn?": callable, "var?": lambda x: type(x) is Var, "delay?": lambda x: type(x) is Delay, "reduced?": lambda x: type(x) is Reduced,
    "map-entry?": lambda x: type(x) is Vec and x.ent, "ident?": lambda x: type(x) in (Keyword, Symbol), "counted?": lambda x: type(x) in (PMap, PSet, Vec),
    "simple-keyword?": lambda x: type(x) is Keyword and "/" not in x.name, "qualified-keyword?": lambda x: type(x) is Keyword and "/" in x.name,
    "any?": lambda x: True, "indexed?": lambda x: type(x) is Vec, "rational?": lambda x: type(x) in (int, Decimal),
}.items():
    pred(n, f)


# ---- numbers
def num(x):
    if type(x) in (int, Decimal, float):
        return x
    if x is None:
        throw("NullPointerException", None)
    throw("ClassCastException", "class %s cannot be cast to class java.lang.Number" % type_name(x))


def arith(op, x, y):
    x, y = num(x), num(y)
    if type(x) is float or type(y) is float:
        return {"add": float.__add__, "sub": float.__sub__, "mul": float.__mul__}[op](float(x), float(y))
    if type(x) is int and type(y) is int:
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        if not -2**63 <= r < 2**63 and -2**63 <= x < 2**63 and -2**63 <= y < 2**63:
            throw("ArithmeticException", "long overflow")
        return r
    f = {"add": CTX.add, "sub": CTX.subtract, "mul": CTX.multiply}[op]
    return norm(f(Decimal(x), Decimal(y)))


@core("+", "+'")
def _(*a):
    r = 0
    for i, x in enumerate(a):
        r = arith("add", r, x) if i else num(x)
    return r


@core("-", "-'")
def _(x, *a):
    if not a:
        return norm(CTX.minus(x)) if type(num(x)) is Decimal else -x
    for y in a:
        x = arith("sub", x, y)
    return x


@core("*", "*'")
def _(*a):
    r = 1
    for i, x in enumerate(a):
        r = arith("mul", r, x) if i else num(x)
    return r


@core("/")
def _(x, *a):
    if not a:
        x, a = 1, (x,)
    for y in a:
        x = divide(num(x), num(y))
    return x


def divide(x, y):
    if type(x) is float or type(y) is float:
        if float(y) == 0:
            raise Unsupported("division of floats by zero")
        return float(x) / float(y)
    if y == 0:
        throw("ArithmeticException", "Divide by zero")
    if type(x) is int and type(y) is int:
        if x % y:
            raise Unsupported("ratio")
        return x // y
    x, y = Decimal(x), Decimal(y)
    n = y.as_integer_ratio()[0] * x.as_integer_ratio()[1]
    import math
    n //= math.gcd(n, x.as_integer_ratio()[0] * y.as_integer_ratio()[1])
    n = abs(n)
    for p in (2, 5):
        while n % p == 0:
            n //= p
    if n != 1:
        throw("ArithmeticException", "Non-terminating decimal expansion; no exact representable decimal result.")
    r = CTX.divide(x, y)
    want = -x.as_tuple().exponent + y.as_tuple().exponent
    r = CTX.normalize(r) if r else Decimal(0)
    if -r.as_tuple().exponent < want:
        r = CTX.quantize(r, Decimal((0, (1,), -want)))
    elif r.as_tuple().exponent > 0 and want >= 0:
        r = CTX.quantize(r, Decimal(1))
    return norm(r)


@core("inc", "inc'")
def _(x):
    return arith("add", x, 1)


@core("dec", "dec'")
def _(x):
    return arith("sub", x, 1)


@core("quot")
def _(x, y):
    if type(x) is not int or type(y) is not int:
        raise Unsupported("quot")
    if y == 0:
        raise ZeroDivisionError
    return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


@core("mod")
def _(x, y):
    if type(x) is not int or type(y) is not int:
        raise Unsupported("mod")
    return x % y


@core("rem")
def _(x, y):
    return x - CORE.vars["quot"].v(x, y) * y


def compare_all(f):
    return lambda *a: all(f(num(a[i]), num(a[i + 1])) for i in range(len(a) - 1))


for n, f in {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}.items():
    CORE.intern(n, compare_all(f))
for n, f in {"zero?": lambda x: num(x) == 0, "pos?": lambda x: num(x) > 0, "neg?": lambda x: num(x) < 0,
             "even?": lambda x: num(x) % 2 == 0, "odd?": lambda x: num(x) % 2 == 1}.items():
    CORE.intern(n, f)


@core("abs")
def _(x):
    return abs(x) if type(num(x)) is int else x.copy_abs()


@core("max")
def _(x, *a):
    for y in a:
        x = x if num(x) > num(y) else y
    return x


@core("min")
def _(x, *a):
    for y in a:
        x = x if num(x) < num(y) else y
    return x


@core("max-key")
def _max_key(k, *a):
    if not a:
        throw("ArityException", "Wrong number of args (1) passed to: clojure.core/max-key")
    x, a = a[0], a[1:]
    if not a:
        return x
    m, kx = x, k(x)
    for y in a:
        ky = k(y)
        if num(ky) >= num(kx):
            m, kx = y, ky
    return m


@core("min-key")
def _(k, x, *a):
    m, kx = x, k(x)
    for y in a:
        ky = k(y)
        if num(ky) <= num(kx):
            m, kx = y, ky
    return m


@core("bigdec")
def _(x):
    if type(x) is str:
        try:
            return norm(Decimal(x))
        except Exception:
            throw("NumberFormatException", x)
    return Decimal(num(x))


@core("int", "long")
def _(x):
    return ord(x) if type(x) is Char else int(num(x))


@core("compare")
def compare(x, y):
    if x is None or y is None:
        return 0 if x is y else -1 if x is None else 1
    tx, ty = type(x), type(y)
    if tx in (int, Decimal, float) and ty in (int, Decimal, float):
        return (x > y) - (x < y)
    if tx is not ty:
        throw("ClassCastException", "class %s cannot be cast to class %s" % (type_name(x), type_name(y)))
    if tx in (Keyword, Symbol):
        a, b = x.name.rpartition("/"), y.name.rpartition("/")
        a, b = (a[0], a[2]), (b[0], b[2])
        return (a > b) - (a < b)
    if tx is Vec:
        if len(x.l) != len(y.l):
            return (len(x.l) > len(y.l)) - (len(x.l) < len(y.l))
        for a, b in zip(x.l, y.l):
            c = compare(a, b)
            if c:
                return c
        return 0
    if tx in (str, Char):
        a, b = str(x).encode("utf-16-be", "surrogatepass"), str(y).encode("utf-16-be", "surrogatepass")
        return (a > b) - (a < b)
    if tx in (bool, datetime.date):
        return (x > y) - (x < y)
    throw("ClassCastException", "class %s cannot be cast to class java.lang.Comparable" % type_name(x))


def comparator(f):
    if f is compare:
        return functools.cmp_to_key(compare)
    def c(a, b):
        r = f(a, b)
        if type(r) is bool or r is None:
            return -1 if truth(r) else 1 if truth(f(b, a)) else 0
        return r
    return functools.cmp_to_key(c)


@core("sort")
def _(*a):
    f, c = (compare, a[0]) if len(a) == 1 else a
    return plist(sorted(it(c), key=comparator(f)))


@core("sort-by")
def _(k, *a):
    f, c = (compare, a[0]) if len(a) == 1 else a
    key = comparator(f)
    return plist(sorted(it(c), key=lambda x: key(k(x))))


# ---- collections
CORE.intern("get", get)
CORE.intern("contains?", contains)
CORE.intern("assoc", assoc)
CORE.intern("first", first)
CORE.intern("rest", rest)
CORE.intern("seq", seq)
CORE.intern("hash-map", lambda *a: hash_map(*a))
CORE.intern("hash-set", hash_set)
CORE.intern("vector", lambda *a: Vec(list(a)))
CORE.intern("list", lambda *a: plist(a))
CORE.intern("list*", lambda *a: plist(list(a[:-1]) + list(it(a[-1]))))
CORE.intern("vec", lambda c: Vec(list(it(c))))
CORE.intern("set", lambda c: hash_set(*it(c)))
CORE.intern("next", lambda c: seq(rest(c)))
CORE.intern("second", lambda c: first(rest(c)))
CORE.intern("ffirst", lambda c: first(first(c)))
CORE.intern("fnext", lambda c: first(rest(c)))
CORE.intern("nfirst", lambda c: seq(rest(first(c))))
CORE.intern("cons", lambda x, c: lazy_cons(x, c))
CORE.intern("not-empty", lambda c: c if seq(c) is not None else None)


@core("last")
def _(c):
    r = None
    for x in it(c):
        r = x
    return r


@core("butlast")
def _(c):
    l = list(it(c))[:-1]
    return plist(l) if l else None


@core("peek")
def _(c):
    return None if c is None else (c.l[-1] if c.l else None) if type(c) is Vec else first(c)


@core("pop")
def _(c):
    if type(c) is Vec:
        if not c.l:
            throw("IllegalStateException", "Can't pop empty vector")
        return Vec(c.l[:-1], c.meta)
    return rest(c)


@core("nth")
def _(c, k, *d):
    if type(k) is not int:
        throw("ClassCastException", "index")
    l = None if c is None else c.l if type(c) is Vec else None
    if c is None:
        return d[0] if d else None
    if l is None:
        for i, x in enumerate(it(c)):
            if i == k:
                return x
    elif 0 <= k < len(l):
        return l[k]
    if d:
        return d[0]
    throw("IndexOutOfBoundsException", None)


@core("count")
def _(c):
    if c is None:
        return 0
    t = type(c)
    if t is Vec:
        return len(c.l)
    if t in (PMap, PSet):
        return len(c.d)
    if t is list:
        return len(c)
    if t is str:
        return len(c.encode("utf-16-be", "surrogatepass")) // 2
    if t is Transient:
        return CORE.vars["count"].v(c.c)
    if t in (int, Decimal, bool, Keyword, Symbol):
        throw("UnsupportedOperationException", "count not supported on this type: " + type_name(c))
    return sum(1 for _ in it(c))


@core("empty?")
def _(c):
    return seq(c) is None


@core("empty")
def _(c):
    t = type(c)
    return Vec([], c.meta) if t is Vec else like(c, {}) if t in (PMap, PSet) else plist() if t is Seq else None


@core("conj")
def _(*a):
    if not a:
        return Vec([])
    c = a[0]
    for x in a[1:]:
        c = conj1(c, x)
    return c


@core("dissoc")
def _(m, *ks):
    if m is None:
        return None
    if type(m) is not PMap:
        throw("ClassCastException", "dissoc")
    d = dict(m.d)
    for k in ks:
        d.pop(Key(k), None)
    if m.rec is not None and any(Key(k) in m.d and k.name in m.rec.names for k in ks if type(k) is Keyword):
        return PMap(d, m.meta)
    return like(m, d)


@core("disj")
def _(s, *ks):
    if s is None:
        return None
    d = dict(s.d)
    for k in ks:
        d.pop(Key(k), None)
    return like(s, d)


@core("keys")
def _(m):
    if m is None or type(m) is PMap and not m.d:
        return None
    if type(m) is not PMap:
        return seq(plist([first(e) for e in it(m)]))
    return plist([k for k, _ in m.d.values()])


@core("vals")
def _(m):
    return plist([v for _, v in m.d.values()]) if m is not None and m.d else None


@core("key")
def _(e):
    return e.l[0]


@core("val")
def _(e):
    return e.l[1]


@core("find")
def _(m, k):
    if m is None:
        return None
    e = m.d.get(Key(k)) if type(m) is PMap else (k, m.l[k]) if type(m) is Vec and contains(m, k) else None
    return Vec(list(e), None, True) if e is not None else None


@core("select-keys")
def _(m, ks):
    d = {}
    for k in it(ks):
        if m is not None and contains(m, k):
            d[Key(k)] = (k, get(m, k))
    return PMap(d, getattr(m, "meta", None))


@core("merge")
def _(*ms):
    if not any(truth(m) for m in ms):
        return None
    r = ms[0] if ms[0] is not None else PMap()
    for m in ms[1:]:
        r = conj1(r, m) if m is not None else r
    return r


@core("merge-with")
def _(f, *ms):
    if not any(m is not None for m in ms):
        return None
    d = {}
    for m in ms:
        if m is not None:
            for kk, (k, v) in m.d.items():
                d[kk] = (d[kk][0], f(d[kk][1], v)) if kk in d else (k, v)
    return PMap(d)


@core("zipmap")
def _(ks, vs):
    return hash_map(*[y for p in zip(it(ks), it(vs)) for y in p])


@core("get-in")
def _(m, ks, d=None):
    for k in it(ks):
        if not (m is not None and type(m) in (PMap, Vec, PSet, str) and (type(m) is str or contains(m, k) or type(m) is Vec)):
            return d
        if type(m) in (PMap, PSet, Vec) and not contains(m, k):
            return d
        m = get(m, k)
    return m


@core("assoc-in")
def assoc_in(m, ks, v):
    k, more = first(ks), seq(rest(ks))
    return assoc1(m, k, v if more is None else assoc_in(get(m, k), more, v))


@core("update")
def update(m, k, f, *a):
    return assoc1(m, k, f(get(m, k), *a))


@core("update-in")
def update_in(m, ks, f, *a):
    k, more = first(ks), seq(rest(ks))
    return assoc1(m, k, f(get(m, k), *a) if more is None else update_in(get(m, k), more, f, *a))


@core("transient")
def _(c):
    return Transient(c)


@core("persistent!")
def _(t):
    c, t.c = t.c, None
    return c


@core("assoc!")
def _(t, *kv):
    if type(t.c) is PMap:
        d = t.c.d = dict(t.c.d) if not getattr(t, "own", False) else t.c.d
        for i in range(0, len(kv), 2):
            kk = Key(kv[i])
            d[kk] = (d[kk][0], kv[i + 1]) if kk in d else (kv[i], kv[i + 1])
        t.c = PMap(d)
    else:
        t.c = assoc(t.c, *kv)
    return t


@core("conj!")
def _(*a):
    if not a:
        return Transient(Vec([]))
    if len(a) == 1:
        return a[0]
    a[0].c = conj1(a[0].c, a[1])
    return a[0]


@core("dissoc!")
def _(t, *ks):
    t.c = CORE.vars["dissoc"].v(t.c, *ks)
    return t


@core("disj!")
def _(t, *ks):
    t.c = CORE.vars["disj"].v(t.c, *ks)
    return t


@core("range")
def _(*a):
    if not a:
        import itertools
        return lazy(itertools.count())
    return lazy(iter(range(*a)))


@core("repeat")
def _(*a):
    if len(a) == 1:
        def g():
            while True:
                yield a[0]
        return lazy(g())
    return plist([a[1]] * max(0, a[0]))


@core("repeatedly")
def _(*a):
    if len(a) == 1:
        def g():
            while True:
                yield a[0]()
        return lazy(g())
    return lazy(a[1]() for _ in range(a[0]))


@core("reverse")
def _(c):
    return plist(list(it(c))[::-1])


@core("concat")
def _(*cs):
    def g():
        for c in cs:
            yield from it(c)
    return lazy(g())


@core("into")
def _(*a):
    if len(a) == 0:
        return Vec([])
    if len(a) == 1:
        return a[0]
    to = a[0]
    l = into_list(a[1], a[2]) if len(a) == 3 else list(it(a[1]))
    t = type(to)
    if t is Vec:
        return Vec(to.l + l, to.meta)
    if t is PSet:
        d = dict(to.d)
        for x in l:
            d.setdefault(Key(x), x)
        return like(to, d)
    if t is PMap:
        d = dict(to.d)
        for x in l:
            if x is None:
                continue
            if type(x) is PMap:
                d.update(x.d)
                continue
            if type(x) is not Vec or len(x.l) != 2:
                throw("IllegalArgumentException", "Vector arg to map conj must be a pair")
            kk = Key(x.l[0])
            d[kk] = (d[kk][0] if kk in d else x.l[0], x.l[1])
        return like(to, d)
    for x in l:
        to = conj1(to, x)
    return to


@core("reduce")
def reduce_(f, *a):
    if len(a) == 2:
        acc, i = a[0], it(a[1])
    else:
        i = it(a[0])
        try:
            acc = next(i)
        except StopIteration:
            return f()
    for x in i:
        acc = f(acc, x)
        if type(acc) is Reduced:
            return acc.v
    return acc


@core("reduce-kv")
def _(f, acc, m):
    for e in it(m) if type(m) is PMap else [Vec([i, x]) for i, x in enumerate(it(m))]:
        acc = f(acc, e.l[0], e.l[1])
        if type(acc) is Reduced:
            return acc.v
    return acc


CORE.intern("reduced", Reduced)
CORE.intern("unreduced", lambda x: x.v if type(x) is Reduced else x)


@core("transduce")
def _(xf, f, *a):
    acc, c = a if len(a) == 2 else (f(), a[0])
    g = xf(f)
    for x in it(c):
        acc = g(acc, x)
        if type(acc) is Reduced:
            acc = acc.v
            break
    return g(acc)


@core("eduction")
def _(*a):
    return Eduction(CORE.vars["comp"].v(*a[:-1]), a[-1])


@core("sequence")
def _(*a):
    if len(a) > 2:
        out = []
        f = a[0](lambda *y: out.append(y[1]) if len(y) == 2 else y[0] if y else None)
        for xs in zip(*[it(c) for c in a[1:]]):
            if type(f(None, *xs)) is Reduced:
                break
        f(None)
        return plist(out)
    return plist(it(a[0])) if len(a) == 1 else plist(into_list(a[0], a[1]))


@core("completing")
def _(f, cf=lambda x: x):
    return lambda *a: f() if not a else cf(a[0]) if len(a) == 1 else f(*a)


@core("run!")
def _(f, c):
    for x in it(c):
        if type(f(x)) is Reduced:
            return


@core("dorun")
def _(*a):
    for _ in it(a[-1]):
        pass


@core("doall")
def _(*a):
    for _ in it(a[-1]):
        pass
    return a[-1]


def xform(step):
    """a transducer from a function of the reducing function, the result and the input"""
    def xf(rf):
        def g(*a):
            if len(a) == 2:
                return step(rf, a[0], a[1])
            return rf(*a)
        return g
    return xf


def both(name):
    """defines a function which gives a transducer without collection"""
    def deco(f):
        def g(x, *cs):
            if not cs:
                return f(x, None)
            return f(x, cs)
        CORE.intern(name, g)
        return f
    return deco


@both("map")
def _(f, cs):
    if cs is None:
        def xf(rf):
            def g(*a):
                if len(a) == 2:
                    return rf(a[0], f(a[1]))
                if len(a) > 2:
                    return rf(a[0], f(*a[1:]))
                return rf(*a)
            return g
        return xf
    if len(cs) == 1:
        return lazy(f(x) for x in it(cs[0]))
    return lazy(f(*xs) for xs in zip(*[it(c) for c in cs]))


@core("mapv")
def _(f, *cs):
    return Vec([f(*xs) for xs in zip(*[it(c) for c in cs])])


@both("filter")
def _(f, cs):
    if cs is None:
        return xform(lambda rf, r, x: rf(r, x) if truth(f(x)) else r)
    return lazy(x for x in it(cs[0]) if truth(f(x)))


@core("filterv")
def _(f, c):
    return Vec([x for x in it(c) if truth(f(x))])


@both("remove")
def _(f, cs):
    if cs is None:
        return xform(lambda rf, r, x: r if truth(f(x)) else rf(r, x))
    return lazy(x for x in it(cs[0]) if not truth(f(x)))


@both("keep")
def _(f, cs):
    def step(rf, r, x):
        y = f(x)
        return r if y is None else rf(r, y)
    if cs is None:
        return xform(step)
    return lazy(y for y in (f(x) for x in it(cs[0])) if y is not None)


def keep_red(r):
    return Reduced(r) if type(r) is Reduced else r


@core("cat")
def cat(rf):
    def g(*a):
        if len(a) == 2:
            r = a[0]
            for x in it(a[1]):
                r = rf(r, x)
                if type(r) is Reduced:
                    return r
            return r
        return rf(*a)
    return g


@both("mapcat")
def _(f, cs):
    if cs is None:
        def step(rf, r, x):
            for y in it(f(x)):
                r = rf(r, y)
                if type(r) is Reduced:
                    return r
            return r
        return xform(step)
    def g():
        for xs in zip(*[it(c) for c in cs]):
            yield from it(f(*xs))
    return lazy(g())


@both("map-indexed")
def _(f, cs):
    if cs is None:
        def xf(rf):
            n = [-1]
            def g(*a):
                if len(a) == 2:
                    n[0] += 1
                    return rf(a[0], f(n[0], a[1]))
                return rf(*a)
            return g
        return xf
    return lazy(f(i, x) for i, x in enumerate(it(cs[0])))


@both("keep-indexed")
def _(f, cs):
    if cs is None:
        def xf(rf):
            n = [-1]
            def g(*a):
                if len(a) == 2:
                    n[0] += 1
                    y = f(n[0], a[1])
                    return a[0] if y is None else rf(a[0], y)
                return rf(*a)
            return g
        return xf
    return lazy(y for y in (f(i, x) for i, x in enumerate(it(cs[0]))) if y is not None)


@both("take")
def _(n, cs):
    if cs is None:
        def xf(rf):
            left = [n]
            def g(*a):
                if len(a) == 2:
                    k = left[0]
                    left[0] -= 1
                    r = rf(a[0], a[1]) if k > 0 else a[0]
                    return (r if type(r) is Reduced else Reduced(r)) if left[0] <= 0 else r
                return rf(*a)
            return g
        return xf
    def g():
        if n > 0:
            for i, x in enumerate(it(cs[0])):
                yield x
                if i + 1 >= n:
                    return
    return lazy(g())


@both("drop")
def _(n, cs):
    if cs is None:
        def xf(rf):
            left = [n]
            def g(*a):
                if len(a) == 2:
                    left[0] -= 1
                    return a[0] if left[0] >= 0 else rf(a[0], a[1])
                return rf(*a)
            return g
        return xf
    return lazy(x for i, x in enumerate(it(cs[0])) if i >= n)


@both("take-while")
def _(f, cs):
    if cs is None:
        return xform(lambda rf, r, x: rf(r, x) if truth(f(x)) else Reduced(r))
    def g():
        for x in it(cs[0]):
            if not truth(f(x)):
                return
            yield x
    return lazy(g())


@both("drop-while")
def _(f, cs):
    if cs is None:
        def xf(rf):
            on = [False]
            def g(*a):
                if len(a) == 2:
                    on[0] = on[0] or not truth(f(a[1]))
                    return rf(a[0], a[1]) if on[0] else a[0]
                return rf(*a)
            return g
        return xf
    def g():
        on = False
        for x in it(cs[0]):
            on = on or not truth(f(x))
            if on:
                yield x
    return lazy(g())


@both("interpose")
def _(sep, cs):
    if cs is None:
        def xf(rf):
            on = [False]
            def g(*a):
                if len(a) == 2:
                    if on[0]:
                        r = rf(a[0], sep)
                        return r if type(r) is Reduced else rf(r, a[1])
                    on[0] = True
                return rf(*a)
            return g
        return xf
    def g():
        for i, x in enumerate(it(cs[0])):
            if i:
                yield sep
            yield x
    return lazy(g())


@core("distinct")
def _(*a):
    if not a:
        def xf(rf):
            seen = set()
            def g(*b):
                if len(b) == 2:
                    if Key(b[1]) in seen:
                        return b[0]
                    seen.add(Key(b[1]))
                return rf(*b)
            return g
        return xf
    def g():
        seen = set()
        for x in it(a[0]):
            if Key(x) not in seen:
                seen.add(Key(x))
                yield x
    return lazy(g())


@core("dedupe")
def _(*a):
    if not a:
        def xf(rf):
            prev = [object()]
            def g(*b):
                if len(b) == 2:
                    same, prev[0] = equiv(prev[0], b[1]), b[1]
                    return b[0] if same else rf(*b)
                return rf(*b)
            return g
        return xf
    def g():
        prev = object()
        for x in it(a[0]):
            if not equiv(prev, x):
                yield x
            prev = x
    return lazy(g())


@core("interleave")
def _(*cs):
    return lazy(x for xs in zip(*[it(c) for c in cs]) for x in xs)


@core("flatten")
def _(c):
    def g(x):
        for y in it(x):
            if type(y) in (Vec, Seq):
                yield from g(y)
            else:
                yield y
    return lazy(g(c))


@core("partition")
def _(n, *a):
    if len(a) > 2:
        step, pad, l = a[0], list(it(a[1])), list(it(a[2]))
        return plist([plist(l[i:i + n] if i + n <= len(l) else (l[i:] + pad)[:n]) for i in range(0, len(l), step) if i + n <= len(l) or i < len(l) and (i == 0 or i - step + n <= len(l))])
    step, c = (n, a[0]) if len(a) == 1 else a
    l = list(it(c))
    return plist([plist(l[i:i + n]) for i in range(0, len(l) - n + 1, step)])


@core("partition-by")
def _(f, *a):
    if not a:
        def xf(rf):
            buf, prev = [], [None]
            def flush(r):
                v = Vec(list(buf))
                buf.clear()
                return rf(r, v)
            def g(*b):
                if len(b) == 2:
                    k = f(b[1])
                    if not buf or equiv(k, prev[0]):
                        buf.append(b[1])
                        prev[0] = k
                        return b[0]
                    r = flush(b[0])
                    prev[0] = k
                    if type(r) is not Reduced:
                        buf.append(b[1])
                    return r
                if len(b) == 1 and buf:
                    r = flush(b[0])
                    return rf(r.v if type(r) is Reduced else r)
                return rf(*b)
            return g
        return xf
    res, prev = [], object()
    for x in it(a[0]):
        k = f(x)
        if res and equiv(k, prev):
            res[-1].append(x)
        else:
            res.append([x])
        prev = k
    return plist([plist(x) for x in res])


@core("split-at")
def _(n, c):
    l = list(it(c))
    return Vec([plist(l[:n]), plist(l[n:])])


@core("split-with")
def _(f, c):
    return Vec([CORE.vars["take-while"].v(f, c), CORE.vars["drop-while"].v(f, c)])


@core("group-by")
def _(f, c):
    d = {}
    for x in it(c):
        k = f(x)
        d.setdefault(Key(k), (k, []))[1].append(x)
    return PMap({kk: (k, Vec(l)) for kk, (k, l) in d.items()})


@core("frequencies")
def _(c):
    d = {}
    for x in it(c):
        k = Key(x)
        d[k] = (x, d[k][1] + 1 if k in d else 1)
    return PMap(d)


@core("some")
def _(f, c):
    for x in it(c):
        r = f(x)
        if truth(r):
            return r


@core("every?")
def _(f, c):
    return all(truth(f(x)) for x in it(c))


@core("not-any?")
def _(f, c):
    return not any(truth(f(x)) for x in it(c))


@core("not-every?")
def _(f, c):
    return not all(truth(f(x)) for x in it(c))


@core("take-last")
def _(n, c):
    return seq(plist(list(it(c))[-n:] if n > 0 else []))


@core("drop-last")
def _(*a):
    n, c = a if len(a) == 2 else (1, a[0])
    l = list(it(c))
    return plist(l[:len(l) - n] if n > 0 else l)


@core("subvec")
def _(v, a, b=None):
    b = len(v.l) if b is None else b
    if not 0 <= a <= b <= len(v.l):
        throw("IndexOutOfBoundsException", None)
    return Vec(v.l[a:b])


@core("rseq")
def _(v):
    return seq(plist(list(it(v))[::-1]))


@core("reductions")
def _(f, *a):
    l = list(it(a[-1]))
    if len(a) == 1:
        if not l:
            return plist([f()])
        acc, l = l[0], l[1:]
    else:
        acc = a[0]
    res = [acc]
    for x in l:
        acc = f(acc, x)
        res.append(acc)
    return plist(res)


@core("array-map")
def _(*a):
    return hash_map(*a)


@core("iterate")
def _(f, x):
    def g():
        y = x
        while True:
            yield y
            y = f(y)
    return lazy(g())


@core("update-vals")
def _(m, f):
    return like(m, {kk: (k, f(v)) for kk, (k, v) in m.d.items()}) if m is not None else PMap()


@core("update-keys")
def _(m, f):
    return hash_map(*[y for k, v in m.d.values() for y in (f(k), v)]) if m is not None else PMap()


# ---- state
CORE.intern("volatile!", Ref)
CORE.intern("atom", lambda x, *a: Ref(x))


@core("vreset!", "reset!", "ref-set")
def _(r, x):
    if type(r) is not Ref:
        throw("ClassCastException", "reset!")
    old, r.v = r.v, x
    for k, f in list(r.watches or ()):
        f(k, r, old, x)
    return x


@core("swap!", "alter", "commute", "send", "send-off")
def _(r, f, *a):
    if type(r) is not Ref:
        throw("ClassCastException", "swap!")
    CORE.vars["reset!"].v(r, f(r.v, *a))
    return r.v


@macro("vswap!")
def _(form, sc, r, f, *a):
    return L(S("clojure.core/swap!"), r, f, *a)


@core("deref")
def _(x, *more):
    if type(x) is Delay:
        return x.force()
    if type(x) is Reduced:
        return x.v
    if type(x) is Obj and hasattr(x, "deref"):
        return x.deref(*more)
    if type(x) not in (Ref, Var):
        throw("ClassCastException", "deref")
    return x.v


@core("force")
def _(x):
    return x.force() if type(x) is Delay else x


@core("realized?")
def _(x):
    if type(x) is Obj and hasattr(x, "deref"):
        return x.realized()
    if type(x) is Seq:
        return len(x.buf) > x.i or x.src is None or x.src.it is None
    return x.f is None


@core("meta")
def _(x):
    return getattr(x, "meta", None)


@core("with-meta")
def with_meta(x, m):
    t = type(x)
    if t is Vec:
        return Vec(x.l, m)
    if t is PMap:
        return PMap(x.d, m, x.cmp, x.rec)
    if t is PSet:
        return PSet(x.d, m, x.cmp)
    if callable(x) and t.__name__ == "function":
        f = lambda *a: x(*a)
        f.meta = m
        return f
    if t is Seq:
        return Seq(x.buf, x.src, x.i, m)
    if t is Symbol:
        return Symbol(x.name, m)
    throw("ClassCastException", "class %s cannot be cast to class clojure.lang.IObj" % type_name(x))


@core("vary-meta")
def _(x, f, *a):
    return with_meta(x, f(getattr(x, "meta", None), *a))


@core("type")
def _(x):
    m = getattr(x, "meta", None)
    t = get(m, K("type")) if m is not None else None
    return t if t is not None else type_name(x)


@core("class")
def _(x):
    return None if x is None else type_name(x)


# ---- names and texts
@core("name")
def _(x):
    if type(x) is str:
        return x
    if type(x) not in (Keyword, Symbol):
        if x is None:
            throw("NullPointerException", None)
        throw("ClassCastException", "class %s cannot be cast to class clojure.lang.Named" % type_name(x))
    return x.name.rpartition("/")[2] if len(x.name) > 1 else x.name


@core("namespace")
def _(x):
    return x.name.rpartition("/")[0] or None


@core("keyword")
def _(*a):
    if len(a) == 2:
        return K(a[0] + "/" + a[1])
    x = a[0]
    return x if type(x) is Keyword or x is None else K(x if type(x) is str else x.name) if type(x) in (str, Symbol) else None


@core("symbol")
def _(*a):
    return S("/".join(a) if len(a) == 2 else a[0] if type(a[0]) is str else a[0].name)


@core("gensym")
def _(p="G__"):
    return S("%s%d" % (p, gensym()))


@core("str")
def _(*a):
    return "".join(str1(x) for x in a)


@core("subs")
def _(s, a, b=None):
    b = len(s) if b is None else b
    if not 0 <= a <= b <= len(s):
        throw("IndexOutOfBoundsException", None)
    return s[a:b]


@core("format")
def fmt(f, *a):
    a = list(a)
    def sub(m):
        flags, width, prec, c = m.groups()
        if c == "%":
            return "%"
        if c == "n":
            return "\n"
        if not a:
            throw("IllegalArgumentException", "Format specifier '%s'" % m.group())
        x = a.pop(0)
        if c in "sS":
            s = "null" if x is None else str1(x)
            s = s[:int(prec[1:])] if prec else s
            s = s.upper() if c == "S" else s
        elif c == "d":
            if type(x) is not int:
                throw("IllegalArgumentException", "d != " + type_name(x))
            s = ("%" + flags.replace("-", "").replace(",", "") + (width or "") + "d") % x if "," not in flags else format(x, ",d")
        elif c == "f" and type(x) in (Decimal, float):
            q = int(prec[1:]) if prec else 6
            s = format(Decimal(x).quantize(Decimal((0, (1,), -q)), rounding="ROUND_HALF_UP", context=CTX), (",f" if "," in flags else "f"))
            s = "+" + s if "+" in flags and x >= 0 else s
            if "0" in flags and width:
                s = ("-" if s[0] == "-" else "") + s.lstrip("-").rjust(int(width) - (s[0] == "-"), "0")
        elif c == "f" and type(x) is int:
            throw("IllegalFormatConversionException", "f != java.lang.Long")
        elif c in "bB":
            s = "true" if truth(x) else "false"
        elif c in "xX" and type(x) is int and x >= 0:
            s = "%x" % x if c == "x" else "%X" % x
        elif c == "c" and type(x) is Char:
            s = str(x)
        else:
            raise Unsupported("format %" + c)
        w = int(width or 0)
        return s.ljust(w) if "-" in flags else s.rjust(w)
    return re.sub(r"%([-0+ ,]*)(\d+)?(\.\d+)?([a-zA-Z%])", sub, f)


def flush():
    if OUT.v.cls == "fd":
        OUT.v.f.flush()


@core("print")
def _(*a):
    write(" ".join(print1(x) for x in a))


@core("println")
def _(*a):
    write(" ".join(print1(x) for x in a) + "\n")
    flush()


@core("pr")
def _(*a):
    write(" ".join(pr_str(x) for x in a))


@core("prn")
def _(*a):
    write(" ".join(pr_str(x) for x in a) + "\n")
    flush()


@core("newline")
def _():
    write("\n")


@core("flush")
def _():
    flush()


CORE.intern("pr-str", lambda *a: " ".join(pr_str(x) for x in a))
CORE.intern("print-str", lambda *a: " ".join(print1(x) for x in a))
CORE.intern("println-str", lambda *a: " ".join(print1(x) for x in a) + "\n")


@core("slurp")
def _(p, *a):
    return open(p.path if type(p) is Obj else p, encoding="utf8", newline="").read()


@core("ex-info")
def _(m, d, cause=None):
    return Thrown("ExceptionInfo", m, d, cause)


@core("ex-data")
def _(e):
    return e.data if isinstance(e, Thrown) else None


@core("ex-message")
def _(e):
    return e.message if isinstance(e, Thrown) else None


@core("ex-cause")
def _(e):
    return e.cause


@core("illegal-argument")
def _(m):
    return Thrown("IllegalArgumentException", m)


@core("assertion-error")
def _(m):
    return Thrown("AssertionError", m)


@core("Throwable->map")
def _(e):
    return to_map({"cause": e.message, "message": e.message, "via": Vec([to_map({"type": S(e.cls), "message": e.message})]), "data": e.data})


# ---- regular expressions
@core("re-pattern")
def _(s):
    return s if type(s) is Regex else Regex(s)


def groups(m):
    return m.group() if m.re.groups == 0 else Vec([m.group()] + list(m.groups()))


@core("re-find")
def _(r, s):
    m = r.re.search(s)
    return groups(m) if m else None


@core("re-matches")
def _(r, s):
    m = r.re.fullmatch(s)
    return groups(m) if m else None


@core("re-seq")
def _(r, s):
    if type(s) is not str:
        throw("ClassCastException", "re-seq")
    return seq(plist([groups(m) for m in r.re.finditer(s)]))


STR = "clojure.string"


def replacement(r):
    return re.sub(r"\\(.)|\$(\d)", lambda m: m.group(1).replace("\\", "\\\\") if m.group(1) else "\\g<%s>" % m.group(2), r)


@lib(STR, "replace")
def _(s, a, b):
    if type(a) is Regex:
        return a.re.sub((lambda m: b(groups(m))) if callable(b) else lambda m: m.expand(replacement(b)), s)
    return s.replace(str(a), str(b))


@lib(STR, "replace-first")
def _(s, a, b):
    if type(a) is Regex:
        return a.re.sub((lambda m: b(groups(m))) if callable(b) else lambda m: m.expand(replacement(b)), s, count=1)
    return s.replace(str(a), str(b), 1)


@lib(STR, "join")
def _(*a):
    sep, c = a if len(a) == 2 else ("", a[0])
    return str1(sep).join(str1(x) for x in it(c))


def java_split(r, s, n=0):
    if r.groups:
        raise Unsupported("split by groups")
    if n == 1 or not r.search(s):
        return [s]
    l, at = [], 0
    for m in r.finditer(s):
        if n > 0 and len(l) == n - 1:
            break
        if m.end() == 0:
            continue
        l.append(s[at:m.start()])
        at = m.end()
    l.append(s[at:])
    while n == 0 and l and l[-1] == "":
        l.pop()
    return l


@lib(STR, "split")
def _(s, r, n=0):
    return Vec(java_split(r.re, s, n))


@lib(STR, "split-lines")
def _(s):
    return Vec(java_split(re.compile(r"\r?\n"), s))


for n, f in {"upper-case": str.upper, "lower-case": str.lower, "trim": lambda s: s.strip(), "triml": lambda s: s.lstrip(), "trimr": lambda s: s.rstrip(),
             "trim-newline": lambda s: s.rstrip("\r\n"), "blank?": lambda s: s is None or not s.strip(), "starts-with?": lambda s, p: s.startswith(p),
             "ends-with?": lambda s, p: s.endswith(p), "includes?": lambda s, p: p in s, "reverse": lambda s: s[::-1],
             "capitalize": lambda s: s[:1].upper() + s[1:].lower(),
             "index-of": lambda s, x, i=0: None if s.find(str(x), i) < 0 else s.find(str(x), i),
             "last-index-of": lambda s, x: None if s.rfind(str(x)) < 0 else s.rfind(str(x))}.items():
    def strict(f):
        def g(*a):
            if a[0] is None and f is not None and len(a) and a[0] is None:
                throw("NullPointerException", None)
            return f(*a)
        return g
    lib(STR, n)(f if n == "blank?" else strict(f))

SET = "clojure.set"


@lib(SET, "difference")
def _(a, *bs):
    d = dict(a.d) if a is not None else {}
    for b in bs:
        for k in (b.d if b is not None else ()):
            d.pop(k, None)
    return PSet(d)


@lib(SET, "union")
def _(*ss):
    d = {}
    for s in ss:
        d.update({k: v for k, v in (s.d.items() if s is not None else ()) if k not in d})
    return PSet(d)


@lib(SET, "intersection")
def _(a, *bs):
    return PSet({k: v for k, v in a.d.items() if all(k in b.d for b in bs)})


@lib(SET, "subset?")
def _(a, b):
    return all(k in b.d for k in a.d)


@lib(SET, "superset?")
def _(a, b):
    return all(k in a.d for k in b.d)


@lib(SET, "rename-keys")
def _(m, km):
    d = dict(m.d)
    for k, (_, new) in km.d.items():
        if k in m.d:
            d.pop(k, None)
    for k, (_, new) in km.d.items():
        if k in m.d:
            d[Key(new)] = (new, m.d[k][1])
    return like(m, d)


@lib("clojure.walk", "postwalk")
def postwalk(f, x):
    t = type(x)
    if t is Vec:
        return f(Vec([postwalk(f, y) for y in x.l], x.meta))
    if t is Seq:
        return f(plist([postwalk(f, y) for y in it(x)]))
    if t is PSet:
        return f(hash_set(*[postwalk(f, y) for y in it(x)]))
    if t is PMap:
        return f(CORE.vars["into"].v(PMap({}, x.meta), plist([f(Vec([postwalk(f, k), postwalk(f, v)])) for k, v in x.d.values()])))
    return f(x)


@lib("clojure.pprint", "pprint")
def _(x, *a):
    write(pr_str(x) + "\n")


@lib("clojure.edn", "read-string")
def _(*a):
    o, s = a if len(a) == 2 else (PMap(), a[0])
    if s is None:
        return None
    r = Reader(s, NS.v, get(o, K("readers")) or PMap(), edn=True)
    x = r.read(Reader.EOF)
    return None if x is Reader.EOF else x


# ---------------------------------------------------------------- Java
for n in SUPERS:
    CLASSES[n] = n
    STATICS[n] = {"new": (lambda n: lambda m=None, cause=None: m if False else Thrown(n, m, None, cause))(n)}
for n in ("System", "String", "Integer", "Long", "Boolean", "Math", "Character", "java.lang.String", "java.math.BigDecimal", "BigDecimal", "java.time.LocalDate", "java.io.IOException",
          "java.io.File", "java.util.Properties", "java.io.OutputStreamWriter", "java.io.PrintWriter", "java.util.concurrent.TimeUnit", "java.time.Instant",
          "java.time.ZonedDateTime", "java.time.ZoneId", "java.time.format.DateTimeFormatter", "Number", "Object", "Double", "java.io.StringWriter"):
    CLASSES.setdefault(n, n)
    STATICS.setdefault(n, {})
STATICS["java.util.Properties"]["new"] = lambda: Obj("java.util.Properties")
STATICS["java.io.OutputStreamWriter"]["new"] = lambda s: s
STATICS["java.io.PrintWriter"]["new"] = lambda s: s
STATICS["java.io.StringWriter"]["new"] = lambda: Obj("java.io.StringWriter", parts=[])
STATICS["java.io.File"]["new"] = lambda *a: io_file(*a)
STATICS["java.util.concurrent.TimeUnit"]["SECONDS"] = 1
STATICS["java.time.LocalDate"].update(parse=lambda s: local_date(s), of=lambda *a: local_date(*a))
ENVIRON = os.environ
SHELL = None          # what runs programs instead
ns_of("user")


def getenv(*a):
    return ENVIRON.get(a[0]) if a else hash_map(*[y for e in ENVIRON.items() for y in e])


class Exit(BaseException):
    pass


def sys_exit(n):
    raise Exit(n)


_kept = {}


def identity_hash(x):
    _kept[id(x)] = x            # so that it is not used again
    return id(x)


STATICS["System"].update(getenv=getenv, identityHashCode=identity_hash, exit=sys_exit, currentTimeMillis=lambda: 0, nanoTime=lambda: 0)
STATICS["String"]["valueOf"] = lambda x: "null" if x is None else str1(x)


def io_file(*a):
    return Obj("java.io.File", path=os.path.join(*[x.path if type(x) is Obj else x for x in a]))


def close(o):
    if getattr(o, "f", None) is not None:
        o.f.close()


METHODS.update({
    "getMessage": lambda e: e.message, "getCause": lambda e: e.cause, "getPath": lambda f: f.path, "getName": lambda f: os.path.basename(f.path),
    "exists": lambda f: os.path.exists(f.path), "isFile": lambda f: os.path.isfile(f.path), "isDirectory": lambda f: os.path.isdir(f.path),
    "toString": str1, "write": lambda w, s: w.f.write(s) if w.cls == "fd" else w.parts.append(s), "close": close, "flush": lambda w: w.f.flush(),
    "readLine": lambda r: (lambda l: None if l == "" else l.rstrip("\n"))(r.f.readline()), "equals": lambda a, b: equiv(a, b),
    "load": lambda p, i: None, "getProperty": lambda p, k: None, "length": lambda s: len(s), "isEmpty": lambda s: len(s) == 0,
    "startsWith": lambda s, x: s.startswith(x), "endsWith": lambda s, x: s.endswith(x), "trim": lambda s: s.strip(), "toUpperCase": lambda s: s.upper(),
    "toLowerCase": lambda s: s.lower(), "contains": lambda s, x: x in s, "getAbsolutePath": lambda f: os.path.abspath(f.path),
    "getYear": lambda d: d.year, "getMonthValue": lambda d: d.month, "getDayOfMonth": lambda d: d.day, "isBefore": lambda a, b: a < b, "isAfter": lambda a, b: a > b,
    "isEqual": lambda a, b: a == b, "plusDays": lambda d, n: d + datetime.timedelta(n), "signum": lambda d: (d > 0) - (d < 0), "negate": lambda d: norm(-d),
    "compareTo": lambda a, b: compare(a, b), "toPlainString": lambda d: format(d, "f"), "scale": lambda d: -d.as_tuple().exponent, "isAlive": lambda p: p.p.poll() is None,
    "destroyForcibly": lambda p: p.p.kill(), "destroy": lambda p: p.p.terminate(),
})


def wait_for(p, *a):
    try:
        p.p.wait(a[0] if a else None)
        return True
    except subprocess.TimeoutExpired:
        return False


METHODS["waitFor"] = wait_for


def parse_int(s):
    if type(s) is not str or not re.fullmatch(r"[+-]?[0-9]+", s):
        throw("NumberFormatException", "For input string: " + str1(s))
    return int(s)


def substring(s, a, b=None):
    b = len(s) if b is None else b
    if not 0 <= a <= b <= len(s):
        throw("IndexOutOfBoundsException", "begin %d, end %d, length %d" % (a, b, len(s)))
    return s[a:b]


METHODS.update({
    "substring": substring, "indexOf": lambda s, x, *a: s.find(str(x), *a), "lastIndexOf": lambda s, x: s.rfind(str(x)), "concat": lambda a, b: a + b,
    "strip": lambda s: s.strip(), "isBlank": lambda s: not s.strip(), "add": lambda a, b: arith("add", Decimal(a), b), "subtract": lambda a, b: arith("sub", Decimal(a), b),
    "multiply": lambda a, b: arith("mul", Decimal(a), b), "abs": lambda d: abs(d), "intValue": int, "longValue": int, "plusMonths": None, "minusDays": lambda d, n: d - datetime.timedelta(n),
    "getFileName": lambda f: os.path.basename(f.path), "getParent": lambda f: os.path.dirname(f.path) or None, "delete": None, "name": lambda k: k.name,
})
for n in [n for n, f in METHODS.items() if f is None]:
    del METHODS[n]
STATICS["Long"].update(parseLong=parse_int, valueOf=lambda x: x if type(x) is int else parse_int(x), MAX_VALUE=2**63 - 1, MIN_VALUE=-2**63)
STATICS["Integer"].update(parseInt=parse_int, valueOf=lambda x: x if type(x) is int else parse_int(x), MAX_VALUE=2**31 - 1, MIN_VALUE=-2**31)
STATICS["Math"].update(abs=lambda x: abs(num(x)), max=lambda a, b: max(num(a), num(b)), min=lambda a, b: min(num(a), num(b)))
for c in ("BigDecimal", "java.math.BigDecimal"):
    STATICS[c].update(ZERO=Decimal(0), ONE=Decimal(1), TEN=Decimal(10), valueOf=lambda x: Decimal(x))
STATICS["String"]["join"] = lambda sep, xs: str1(sep).join(str1(x) for x in it(xs))
lib("clojure.core", "parse-long*")(parse_int)

lib("clojure.java.io", "file")(io_file)


@lib("clojure.java.io", "reader")
def _(x):
    return x if type(x) is Obj and x.cls == "fd" else Obj("fd", f=open(x.path if type(x) is Obj else x, encoding="utf8", newline=""))


@lib("clojure.java.io", "writer")
def _(x, *a):
    return x if type(x) is Obj and x.cls == "fd" else Obj("fd", f=open(x.path if type(x) is Obj else x, "w", encoding="utf8", newline=""))


@lib("clojure.java.io", "resource")
def _(x):
    return None


@lib("clojure.java.io", "input-stream")
def _(x):
    throw("IllegalArgumentException", "Cannot open <nil> as an InputStream.")


@lib("clojure.java.shell", "sh")
def _(*a):
    args = []
    o = {}
    for i, x in enumerate(a):
        if type(x) is Keyword:
            o = {a[j].name: a[j + 1] for j in range(i, len(a), 2)}
            break
        args.append(x)
    if set(o) - {"in"}:
        raise Unsupported("options of sh")
    if SHELL is not None:
        code, out, err = SHELL(args, o.get("in", ""))
        return to_map({"exit": code, "out": out, "err": err})
    p = subprocess.run(args, input=o.get("in", "").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENVIRON, cwd=ENVIRON.get("PWD_") or None)
    return to_map({"exit": p.returncode, "out": p.stdout.decode(), "err": p.stderr.decode()})


STARTED = None      # told of each process started


@lib("clojure.java.process", "start")
def _(*a):
    if type(a[0]) is PMap:
        o, a = a[0], a[1:]
        for k, v in o.d.values():
            if k is not K("err") or v is not K("inherit"):
                raise Unsupported("option of process/start")
    p = subprocess.Popen(list(a), stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=ENVIRON, cwd=ENVIRON.get("PWD_") or None,
                         stderr=None if ERR.v.cls != "fd" or ERR.v.f.closed else None)
    p.stdin = io.TextIOWrapper(p.stdin, encoding="utf8", newline="\n")
    p.stdout = io.TextIOWrapper(p.stdout, encoding="utf8", newline="\n")
    if STARTED:
        STARTED(p)
    return Obj("java.lang.Process", p=p)


lib("clojure.java.process", "stdin")(lambda p: Obj("fd", f=p.p.stdin))
lib("clojure.java.process", "stdout")(lambda p: Obj("fd", f=p.p.stdout))

# ---- dates
JT = "java-time.api"


@lib(JT, "local-date")
def local_date(*a):
    try:
        if len(a) == 1:
            x = a[0]
            if type(x) is datetime.date:
                return x
            if type(x) is str:
                if not re.fullmatch(r"\d{4}-\d\d-\d\d", x):
                    raise ValueError("Text '%s' could not be parsed at index 0" % x)
                return datetime.date(int(x[:4]), int(x[5:7]), int(x[8:]))
            if type(x) is int:
                return datetime.date(x, 1, 1)
        elif len(a) in (2, 3) and all(type(x) is int for x in a):
            return datetime.date(*(list(a) + [1])[:3])
        elif a == ():
            raise Unsupported("today")
        raise ValueError("Can not convert")
    except (ValueError, OverflowError) as e:
        c = Thrown("DateTimeException", str(e))
        raise Thrown("ExceptionInfo", "Conversion failed", PMap(), c)


lib(JT, "local-date?")(lambda x: type(x) is datetime.date)


def before(a, b):
    if type(a) is not datetime.date or type(b) is not datetime.date:
        throw("ClassCastException", "dates")
    return a < b


lib(JT, "before?")(before)
lib(JT, "after?")(lambda a, b: before(b, a))
lib(JT, "not-before?")(lambda a, b: not before(a, b))
lib(JT, "not-after?")(lambda a, b: not before(b, a))

# ---- JSON
CH = "cheshire.core"
BIG = ns_of("cheshire.parse").intern("*use-bigdecimals?*", False)
BIG.bound = True
BUILTIN.add("cheshire.parse")


def encode(x):
    t = type(x)
    if x is None:
        return "null"
    if t is bool:
        return "true" if x else "false"
    if t is int or t is float:
        return str(x)
    if t is Decimal:
        return str(x)
    if t in (str, Char):
        return json.dumps(str(x), ensure_ascii=False)
    if t in (Keyword, Symbol):
        return json.dumps(x.name, ensure_ascii=False)
    if t is datetime.date:
        return json.dumps(x.isoformat())
    if t in (Vec, Seq, PSet):
        return "[" + ",".join(encode(y) for y in it(x)) + "]"
    if t is PMap:
        return "{" + ",".join(json.dumps(k.name if type(k) is Keyword else str1(k), ensure_ascii=False) + ":" + encode(v) for k, v in x.d.values()) + "}"
    throw("JsonParseException", "Cannot JSON encode object of class: " + type_name(x))


@lib(CH, "generate-string")
def _(x, *a):
    if a:
        raise Unsupported("options of generate-string")
    return encode(x)


class Num(str):
    pass


@lib(CH, "parse-string")
def _(s, key=None, coerce=None):
    if s is None:
        return None
    try:
        v = json.loads(s, parse_float=lambda x: norm(Decimal(x)) if truth(BIG.v) else float(x))
    except ValueError as e:
        throw("JsonParseException", str(e))
    kf = (lambda k: K(k)) if key is True else (lambda k: k) if not truth(key) else key
    def conv(v, name):
        if isinstance(v, dict):
            d = {}
            for k, x in v.items():
                kk = kf(k)
                d[Key(kk)] = (kk, conv(x, k))
            return PMap(d)
        if isinstance(v, list):
            c = coerce(name) if coerce is not None else Vec([])
            return CORE.vars["into"].v(c, Vec([conv(x, None) for x in v]))
        return v
    return conv(v, None)


lib("cheshire.generate", "add-encoder")(lambda *a: None)

# ---- logging, command line
TEL = "taoensso.telemere"
BUILTIN.add(TEL)


@macro("log!", TEL)
def _(form, sc, *a):
    return True


for n in ("remove-handler!", "add-handler!", "call-on-shutdown!", "stop-handlers!", "handler:file", "pr-signal-fn"):
    lib(TEL, n)(lambda *a: None)

lib("rebel-readline.clojure.main", "repl")(lambda *a: (_ for _ in ()).throw(Unsupported("repl")))


CLI = "clojure.tools.cli"


def cli_specs(specs):
    res = []
    for s in it(specs):
        if isinstance(s, PMap):
            raise Unsupported("an option as a map")
        head = []
        l = list(it(s))
        while l and (l[0] is None or type(l[0]) is str) and len(head) < 3:
            head.append(l.pop(0))
        o = {l[i].name: l[i + 1] for i in range(0, len(l), 2)}
        if set(o) - {"default", "default-fn", "parse-fn", "validate", "validate-fn", "validate-msg", "id", "assoc-fn", "update-fn", "missing", "default-desc", "multi"}:
            raise Unsupported("option " + str(set(o)))
        short, long_, desc = (head + [None] * 3)[:3]
        m = re.match(r"(--[^ =]+)(?:[ =](.*))?", long_ or "")
        if "[no-]" in (long_ or "") or " " in (short or ""):
            raise Unsupported("option " + str(long_))
        o["short"], o["long"], o["arg"], o["desc"] = short, m and m.group(1), m and m.group(2), desc
        o.setdefault("id", K(m.group(1)[2:]) if m else None)
        vs = list(it(o["validate"])) if "validate" in o else [x for f, m in zip(many(o.get("validate-fn")), many(o.get("validate-msg"))) for x in (f, m)]
        o["checks"] = list(zip(vs[::2], vs[1::2]))
        res.append(o)
    return res


def many(x):
    return [] if x is None else list(it(x)) if type(x) is Vec else [x]


@lib(CLI, "summarize")
def cli_summary(ss):
    show = any(o.get("default") is not None or "default-desc" in o for o in ss)
    parts = []
    for o in ss:
        a = ((o["short"] + ", " if o["short"] else "    ") + o["long"] if o["long"] else o["short"] or "") + (" " + o["arg"] if o["arg"] else "")
        d = o.get("default-desc") or ("" if o.get("default") is None else str1(o["default"]))
        parts.append([a] + ([d] if show else []) + [o["desc"] or ""])
    widths = [max(len(x) for x in c) for c in zip(*parts)]
    return "\n".join("".join("  " + x.ljust(w) for x, w in zip(q, widths)).rstrip() for q in parts)


@lib(CLI, "parse-opts")
def _(args, specs, *a):
    how = {a[i].name: a[i + 1] for i in range(0, len(a), 2)}
    if set(how) - {"in-order", "no-defaults", "strict", "summary-fn"}:
        raise Unsupported("options of parse-opts")
    ss = cli_specs(specs)
    named = lambda n: next((o for o in ss if n in (o["short"], o["long"])), None)
    tokens, arguments = [], []
    l = list(it(args))
    while l:
        x = l.pop(0)
        if x == "--":
            arguments += l
            break
        if re.match(r"--\S+=", x):
            tokens.append(x.split("=", 1))
        elif x.startswith("--"):
            o = named(x)
            tokens.append([x, l.pop(0) if o and o["arg"] and l else None])
        elif re.match("-.", x, re.S):
            cs = x[1:]
            while cs:
                c, cs = "-" + cs[0], cs[1:]
                o = named(c)
                if o and o["arg"]:
                    tokens.append([c, cs if cs else l.pop(0) if l else None])
                    break
                tokens.append([c, None])
        else:
            arguments.append(x)
            if truth(how.get("in-order")):
                arguments += l
                break
    res, given, errors = {}, set(), []
    if not truth(how.get("no-defaults")):
        res = {o["id"]: o["default"] for o in ss if "default" in o}
    for name, v in tokens:
        o = named(name)
        if o is None:
            errors.append("Unknown option: " + pr_str(name))
            continue
        if o["arg"] and v is None or truth(how.get("strict")) and o["arg"] and named(v):
            errors.append("Missing required argument for " + pr_str("%s %s" % (name, o["arg"])))
            continue
        v = v if o["arg"] else True
        text = pr_str(name + (" " + v if o["arg"] else ""))
        if o.get("parse-fn") is not None:
            try:
                v = o["parse-fn"](v)
            except Exception as e:
                errors.append("Error while parsing option %s: %s" % (text, str1(java_error(e))))
                continue
        bad = next((m for f, m in o["checks"] if not truth(f(v))), None)
        if bad is not None:
            errors.append("Failed to validate %s: %s" % (text, bad(v) if callable(bad) else bad))
            continue
        given.add(o["id"])
        if "assoc-fn" in o:
            res = dict(((e.l[0], e.l[1]) for e in it(o["assoc-fn"](hash_map(*[y for e in res.items() for y in e]), o["id"], v))))
        elif "update-fn" in o:
            res[o["id"]] = o["update-fn"](res.get(o["id"]), *([v] if truth(o.get("multi")) else []))
        else:
            res[o["id"]] = v
    if not truth(how.get("no-defaults")):
        for o in ss:
            if "default-fn" in o and o["id"] not in given:
                res[o["id"]] = o["default-fn"](hash_map(*[y for e in res.items() for y in e]))
    for o in ss:
        if "missing" in o and res.get(o["id"]) is None:
            m = o["missing"]
            errors.append(m(hash_map(*[y for e in res.items() for y in e])) if callable(m) else m)
    summary = how.get("summary-fn") or cli_summary
    return to_map({"options": hash_map(*[y for e in res.items() for y in e]), "arguments": Vec(arguments), "errors": Vec(errors) if errors else None,
                   "summary": summary(ss)})


# ---------------------------------------------------------------- spec
SP = "clojure.spec.alpha"
SPECS = {}
ASSERTS = [False]


def spec_of(x):
    """a predicate"""
    if type(x) is Keyword:
        def p(v):
            if x not in SPECS:
                throw("Exception", "Unable to resolve spec: " + repr(x))
            return spec_of(SPECS[x])(v)
        return p
    if callable(x):
        return lambda v: truth(x(v))
    raise Unsupported("spec " + pr_str(x))


@macro("def", SP)
def _(form, sc, k, spec):
    return L(S("clojure.spec.alpha/def*"), k, spec)


@lib(SP, "def*")
def _(k, spec):
    SPECS[k] = spec
    return k


@lib(SP, "or")
def _(*a):
    ps = [spec_of(x) for x in a[1::2]]
    return lambda v: any(p(v) for p in ps)


@lib(SP, "and")
def _(*a):
    ps = [spec_of(x) for x in a]
    return lambda v: all(p(v) for p in ps)


@lib(SP, "nilable")
def _(a):
    p = spec_of(a)
    return lambda v: v is None or p(v)


@lib(SP, "keys")
def _(*a):
    o = {a[i].name: a[i + 1] for i in range(0, len(a), 2)}
    if set(o) - {"req", "opt", "req-un", "opt-un"}:
        raise Unsupported("s/keys")
    un = lambda k: K(k.name.rpartition("/")[2])
    req = [(k, k) for k in it(o.get("req"))] + [(un(k), k) for k in it(o.get("req-un"))]
    opt = [(un(k), k) for k in it(o.get("opt-un"))]
    def p(v):
        if type(v) is not PMap:
            return False
        if not all(contains(v, k) for k, _ in req):
            return False
        for k, s in req + opt:
            if contains(v, k) and s in SPECS and not spec_of(s)(get(v, k)):
                return False
        # all keys with a namespace which are specs
        return all(spec_of(k)(x) for k, x in v.d.values() if type(k) is Keyword and "/" in k.name and k in SPECS)
    return p


@lib(SP, "coll-of")
def _(s, *a):
    o = {a[i].name: a[i + 1] for i in range(0, len(a), 2)}
    if set(o) - {"kind", "count", "min-count"}:
        raise Unsupported("s/coll-of")
    p = spec_of(s)
    return lambda v: type(v) in (Vec, PSet, Seq, PMap) and (("kind" not in o) or truth(o["kind"](v))) and \
        ("count" not in o or sum(1 for _ in it(v)) == o["count"]) and \
        ("min-count" not in o or sum(1 for _ in it(v)) >= o["min-count"]) and all(p(x) for x in it(v))


@lib(SP, "map-of")
def _(k, s, *a):
    o = {a[i].name: a[i + 1] for i in range(0, len(a), 2)}
    if set(o) - {"count"}:
        raise Unsupported("s/map-of")
    pk, pv = spec_of(k), spec_of(s)
    return lambda v: type(v) is PMap and ("count" not in o or len(v.d) == o["count"]) and all(pk(a) and pv(b) for a, b in v.d.values())


@macro("multi-spec", SP)
def _(form, sc, mm, tag):
    return L(S("clojure.spec.alpha/multi*"), mm)


@lib(SP, "multi*")
def _(mm):
    def p(v):
        k = mm.dispatch(v)
        m = mm.methods.get(Key(k)) or mm.methods.get(Key(mm.default))
        return m is not None and spec_of(m(v))(v)
    return p


@lib(SP, "valid?")
def _(s, v):
    return spec_of(s)(v)


@lib(SP, "assert")
def _(s, v):
    if ASSERTS[0] and not spec_of(s)(v):
        throw("ExceptionInfo", "Spec assertion failed\n%s" % pr_str(v))
    return v


@lib(SP, "check-asserts")
def _(x):
    ASSERTS[0] = truth(x)
    return x
