"""More of Clojure for the interpreter clj, which the sources of limabean don't use
as they are, but which changes of them may: sorted collections, records, types and
protocols, hierarchies, references, arrays, and more of Java."""
import re as _re
import clj
from clj import *
from cljcore import CORE, S, K, L, core, lib, macro, compare, comparator, do, fmt, KNOWN_CORE, arith, num, parse_int, local_date, contains

# ---------------------------------------------------------------- classes
LANG = "String Integer Long Boolean Math Character Number Object Double Float Comparable CharSequence StringBuilder Iterable Thread Runnable Class System Byte Short Throwable".split()
for n in LANG:
    full = "java.lang." + n
    CLASSES[n] = CLASSES[full] = n if n in SUPERS else full
    STATICS.setdefault(n, {})
    STATICS[full] = STATICS[n]
for n in ("java.math.BigDecimal", "java.math.BigInteger"):
    CLASSES[n] = CLASSES[n.rpartition(".")[2]] = n
    STATICS.setdefault(n, {})
    STATICS[n.rpartition(".")[2]] = STATICS[n]
for n in ("java.util.ArrayList", "java.util.LinkedList", "java.util.HashMap", "java.util.LinkedHashMap", "java.util.TreeMap", "java.util.HashSet", "java.util.LinkedHashSet",
          "java.util.Collections", "java.util.Arrays", "java.util.Objects", "java.util.Map", "java.util.List", "java.util.Set", "java.util.Collection", "java.util.Comparator",
          "java.util.Iterator", "java.util.ArrayDeque", "java.util.regex.Pattern", "java.util.UUID", "java.util.Date", "java.util.Locale",
          "java.math.RoundingMode", "java.math.MathContext", "java.time.format.DateTimeParseException", "java.time.DateTimeException", "java.io.Writer", "java.io.Reader",
          "java.io.Closeable", "java.io.StringReader", "java.io.BufferedReader", "java.nio.file.Paths", "java.nio.file.Files", "java.nio.file.Path",
          "clojure.lang.IPersistentMap", "clojure.lang.IPersistentVector", "clojure.lang.IPersistentSet", "clojure.lang.IPersistentCollection", "clojure.lang.ISeq",
          "clojure.lang.Sequential", "clojure.lang.Keyword", "clojure.lang.Symbol", "clojure.lang.IFn", "clojure.lang.Fn", "clojure.lang.ExceptionInfo", "clojure.lang.IExceptionInfo",
          "clojure.lang.MapEntry", "clojure.lang.PersistentVector", "clojure.lang.PersistentArrayMap", "clojure.lang.PersistentHashMap", "clojure.lang.PersistentHashSet",
          "clojure.lang.LazySeq", "clojure.lang.PersistentList", "clojure.lang.IDeref", "clojure.lang.Associative", "clojure.lang.Named", "clojure.lang.Var", "clojure.lang.Namespace",
          "clojure.lang.PersistentQueue", "clojure.lang.IRecord", "clojure.lang.ILookup", "clojure.lang.Seqable", "clojure.lang.Counted", "clojure.lang.IObj", "clojure.lang.IMeta",
          "clojure.lang.BigInt", "clojure.lang.Ratio", "clojure.lang.Atom", "clojure.lang.Delay"):
    CLASSES.setdefault(n, n)
    STATICS.setdefault(n, {})

OF = {str: "String CharSequence Comparable", int: "Long Number Comparable", Decimal: "BigDecimal Number Comparable", bool: "Boolean Comparable",
      float: "Double Number Comparable", Char: "Character Comparable", datetime.date: "LocalDate Comparable ChronoLocalDate Temporal",
      Keyword: "Keyword Named IFn Comparable", Symbol: "Symbol Named IFn Comparable IObj IMeta",
      Vec: "PersistentVector APersistentVector IPersistentVector IPersistentCollection Sequential Associative IFn List Collection Iterable Seqable Counted ILookup Comparable IObj IMeta",
      PMap: "PersistentArrayMap PersistentHashMap APersistentMap IPersistentMap IPersistentCollection Associative IFn Map Iterable Seqable Counted ILookup IObj IMeta",
      PSet: "PersistentHashSet IPersistentSet IPersistentCollection IFn Set Collection Iterable Seqable Counted IObj IMeta",
      Seq: "LazySeq PersistentList ISeq IPersistentList IPersistentCollection Sequential List Collection Iterable Seqable IObj IMeta",
      Regex: "Pattern", Ref: "Atom IDeref Volatile", Var: "Var IDeref IFn", Delay: "Delay IDeref", Ns: "Namespace", Multi: "MultiFn IFn"}
OF = {k: tuple(v.split()) for k, v in OF.items()}


def kinds(x):
    """the simple names of the classes a value is of, its own first"""
    t = type(x)
    if x is None:
        return ()
    if isinstance(x, Thrown):
        r, c = [], x.cls
        while c:
            r.append(c)
            c = SUPERS.get(c)
        return tuple(r) + (("IExceptionInfo",) if x.cls == "ExceptionInfo" else ()) + ("Object",)
    if t is PMap and x.rec is not None:
        return (x.rec.cls, x.rec.cls.rpartition(".")[2], "IRecord") + OF[PMap][2:] + ("Object",)
    if t is Obj:
        s = x.cls.rpartition(".")[2]
        return (x.cls, s) + tuple(getattr(x, "kinds", ())) + {"ArrayList": ("List", "Collection", "Iterable"), "HashMap": ("Map",), "StringWriter": ("Writer",), "fd": ("Writer", "Reader")}.get(s, ()) + ("Object",)
    if t is Vec and x.ent:
        return ("MapEntry",) + OF[Vec] + ("Object",)
    if t in OF:
        return OF[t] + ("Object",)
    if callable(x):
        return ("Fn", "IFn", "Runnable", "Object", "Comparator", "AFn", "AFunction", "Callable")
    return ("Object",)


def simple(c):
    return c.rpartition(".")[2]


@core("instance?")
def instance(c, x):
    if type(c) is not str:
        throw("ClassCastException", "instance?")
    if c in SUPERS:
        return isinstance(x, Thrown) and is_a(x, c)
    k = kinds(x)
    return c in k or simple(c) in k


CORE.intern("class?", lambda x: type(x) is str and x in CLASSES.values() and ("." in x or x in SUPERS))
INHERIT = {}
for t, ks in OF.items():
    INHERIT.setdefault(ks[0], set()).update(ks[1:] + ("Object",))

# ---- hierarchies
PARENTS = {}


def isa(c, p):
    if equiv(c, p):
        return True
    if type(c) is Vec and type(p) is Vec and len(c.l) == len(p.l):
        return all(isa(a, b) for a, b in zip(c.l, p.l))
    if type(c) is str and type(p) is str and ("." in c or c in SUPERS) and c in CLASSES.values() and ("." in p or p in SUPERS):
        a, b = simple(c), simple(p)
        return b in INHERIT.get(a, ()) or b == "Object" or a in SUPERS and b in SUPERS and is_a(Thrown(a, None), b)
    return any(isa(q, p) for q in PARENTS.get(Key(c), ()))


@core("isa?")
def _(*a):
    if len(a) == 3:
        raise Unsupported("hierarchy")
    return isa(*a)


@core("derive")
def _(*a):
    if len(a) == 3:
        raise Unsupported("hierarchy")
    PARENTS.setdefault(Key(a[0]), []).append(a[1])


def ancestors(x):
    r = []
    for p in PARENTS.get(Key(x), ()):
        r += [p] + ancestors(p)
    return r


CORE.intern("parents", lambda x: (lambda l: hash_set(*l) if l else None)(PARENTS.get(Key(x), ())))
CORE.intern("ancestors", lambda x: (lambda l: hash_set(*l) if l else None)(ancestors(x)))
CORE.intern("descendants", lambda x: (lambda l: hash_set(*l) if l else None)([k.v for k in PARENTS if any(equiv(x, a) for a in ancestors(k.v))]))
CORE.intern("methods", lambda m: hash_map(*[y for k, f in m.methods.items() for y in (k.v, f)]))


@core("remove-method")
def _(m, k):
    m.methods.pop(Key(k), None)
    return m


# ---------------------------------------------------------------- sorted collections
def cmp_of(f):
    if f is compare:
        return compare
    def c(x, y):
        r = f(x, y)
        if type(r) is bool:
            return -1 if r else 1 if truth(f(y, x)) else 0
        return r
    return c


def sorted_map_by(f, *kv):
    if len(kv) % 2:
        throw("IllegalArgumentException", "No value supplied for key: " + pr_str(kv[-1]))
    c = cmp_of(f)
    ks = []
    m = {}
    for i in range(0, len(kv), 2):
        old = next((k for k in ks if c(k, kv[i]) == 0), None) if c is not compare else None
        k = kv[i] if old is None else old
        if old is None:
            ks.append(k)
        m[Key(k)] = (k, kv[i + 1])
    return like(PMap(None, None, c), m)


CORE.intern("sorted-map", lambda *kv: sorted_map_by(compare, *kv))
CORE.intern("sorted-map-by", sorted_map_by)
CORE.intern("sorted-set", lambda *xs: like(PSet(None, None, compare), {Key(x): x for x in reversed(xs)}))
CORE.intern("sorted-set-by", lambda f, *xs: like(PSet(None, None, cmp_of(f)), {Key(x): x for x in reversed(xs)}))
CORE.intern("sorted?", lambda x: type(x) in (PMap, PSet) and x.cmp is not None)
CORE.intern("reversible?", lambda x: type(x) is Vec or type(x) in (PMap, PSet) and x.cmp is not None)


def subseq(sc, *a):
    key = (lambda e: e.l[0]) if type(sc) is PMap else (lambda e: e)
    l = [e for e in it(sc) if all(truth(a[i](sc.cmp(key(e), a[i + 1]), 0)) for i in range(0, len(a), 2))]
    return l


CORE.intern("subseq", lambda *a: seq(plist(subseq(*a))))
CORE.intern("rsubseq", lambda *a: seq(plist(subseq(*a)[::-1])))


# ---------------------------------------------------------------- records, types, protocols
class Proto:
    def __init__(self, name, sigs):
        self.name, self.sigs, self.impls = name, sigs, {}

    def find(self, name, x):
        if type(x) is Obj and name in getattr(x, "impl", {}) and self in x.protos:
            return x.impl[name]
        for k in kinds(x) if x is not None else (None,):
            f = self.impls.get(k)
            if f is not None and name in f:
                return f[name]

    def has(self, x):
        return type(x) is Obj and self in getattr(x, "protos", ()) or any(k in self.impls for k in (kinds(x) if x is not None else (None,)))


def here(n):
    return clj.NS.v.name + "." + n


@macro("defprotocol")
def _(form, sc, name, *sigs):
    sigs = [x for x in sigs if type(x) is Seq]
    names = [first(x).name for x in sigs]
    if any(type(x) is Keyword for x in sigs):
        raise Unsupported("options of defprotocol")
    return do([L(S("def"), name, L(S("clojure.core/protocol*"), name.name, Vec(names)))] +
              [L(S("def"), S(n), L(S("clojure.core/protofn*"), name, n)) for n in names] + [L(S("quote"), name)])


core("protocol*")(lambda name, sigs: Proto(name, sigs.l))


@core("protofn*")
def _(p, n):
    def call(x, *a):
        f = p.find(n, x)
        if f is None:
            throw("IllegalArgumentException", "No implementation of method: :%s of protocol: #'%s found for class: %s" % (n, p.name, type_name(x) if x is not None else "nil"))
        return f(x, *a)
    return call


def impls(specs):
    """[(protocol or class, {method: [(params, body)]})] of what follows a type"""
    res = []
    for x in specs:
        if type(x) is Seq:
            l = list(it(x))
            m = res[-1][1].setdefault(l[0].name, [])
            if type(l[1]) is Vec:
                m.append((l[1], l[2:]))
            else:
                m += [(first(y), list(it(rest(y)))) for y in l[1:]]
        else:
            res.append((x, {}))
    return res


def method_map(ms, wrap=lambda params, body: L(S("clojure.core/fn"), params, *body)):
    """code for a map of functions"""
    d = {}
    for n, arities in ms.items():
        fs = [wrap(p, b) for p, b in arities]
        f = fs[0] if len(fs) == 1 else L(S("clojure.core/fn"), *[rest(x) for x in fs])
        d[Key(n)] = (n, f)
    return PMap(d)


def with_fields(names, get_field):
    def wrap(params, body):
        g = [S("p__%d" % clj.gensym()) for _ in params.l]
        b = []
        for f in names:
            b += [S(f), get_field(g[0], f)]
        ps = []
        for p, x in zip(params.l, g):
            if type(p) is Symbol and p.name == "&":
                raise Unsupported("a method with &")
            ps += [p, x]
        return L(S("clojure.core/fn"), Vec(g), L(S("clojure.core/let"), Vec(b + ps), *body))
    return wrap


def named(x):
    return CLASSES[clj.NS.v.imports.get(x.name, x.name)] if type(x) is Symbol and clj.NS.v.imports.get(x.name, x.name) in CLASSES else x


def define_class(name, new):
    CLASSES[name] = name
    clj.NS.v.imports[simple(name)] = name
    STATICS[name] = {"new": new}


@macro("defrecord")
def _(form, sc, name, fields, *specs):
    cls = here(name.name)
    names = [f.name for f in fields.l]
    t = Obj(cls, names=names)
    def new(*a):
        if len(a) != len(names):
            throw("ArityException", "Wrong number of args (%d) passed to: %s" % (len(a), cls))
        return PMap({Key(K(n)): (K(n), v) for n, v in zip(names, a)}, None, None, t)
    def of_map(m):
        d = {Key(K(n)): (K(n), None) for n in names}
        d.update({kk: (k, v) for kk, (k, v) in m.d.items()} if m is not None else {})
        return PMap(d, None, None, t)
    define_class(cls, new)
    clj.NS.v.intern("->" + name.name, new)
    clj.NS.v.intern("map->" + name.name, of_map)
    wrap = with_fields(names, lambda g, f: L(K(f), g))
    return do([L(S("clojure.core/extend*"), cls, named(p), method_map(ms, wrap)) for p, ms in impls(specs)] + [L(S("quote"), name)])


@macro("deftype")
def _(form, sc, name, fields, *specs):
    cls = here(name.name)
    if any(f.meta is not None and any(truth(get(f.meta, K(m))) for m in ("mutable", "volatile-mutable", "unsynchronized-mutable")) for f in fields.l):
        raise Unsupported("mutable field")
    names = [f.name for f in fields.l]
    kind = {"impl": {}, "protos": [], "kinds": []}
    def new(*a):
        if len(a) != len(names):
            throw("ArityException", "Wrong number of args (%d) passed to: %s" % (len(a), cls))
        return Obj(cls, fields=dict(zip(names, a)), **kind)
    define_class(cls, new)
    clj.NS.v.intern("->" + name.name, new)
    k = "k%d" % clj.gensym()
    TYPES[k] = kind
    wrap = with_fields(names, lambda g, f: L(S("." + "-" + f), g))
    return do([L(S("clojure.core/implement*"), k, named(p), method_map(ms, wrap)) for p, ms in impls(specs)] + [L(S("quote"), name)])


TYPES = {}


@core("implement*")
def _(k, p, ms):
    t = TYPES[k] if type(k) is str else k
    t["impl"].update({n: f for n, f in ms.d.values()})
    if type(p) is Proto:
        t["protos"].append(p)
    elif type(p) is str:
        p = "java.lang." + p if p in ("Object",) else p
        if simple(p) in ("ILookup", "IFn", "Seqable", "Counted", "IDeref", "Comparable", "Associative", "IPersistentMap", "Iterable"):
            raise Unsupported("a type which is a " + p)
        t["kinds"].append(simple(p))
    else:
        raise Unsupported("a type which is a %s" % p)


@core("extend*")
def _(c, p, ms):
    if type(p) is Symbol and p.name in ("Object", "java.lang.Object"):
        raise Unsupported("methods of Object of a record")
    if type(p) is not Proto:
        raise Unsupported("extension of %s" % p)
    k = c if c is None or c in p.impls or any(c == x for x in CLASSES.values()) and "clojure.lang" not in c and not c.startswith("java.") else simple(c)
    p.impls.setdefault(k, {}).update({n: f for n, f in ms.d.values()})


@macro("extend-type")
def _(form, sc, t, *specs):
    return do([L(S("clojure.core/extend*"), t, p, method_map(ms)) for p, ms in impls(specs)] + [None])


@macro("extend-protocol")
def _(form, sc, p, *specs):
    return do([L(S("clojure.core/extend*"), t, p, method_map(ms)) for t, ms in impls(specs)] + [None])


@core("extend")
def _(t, *a):
    for i in range(0, len(a), 2):
        CORE.vars["extend*"].v(t, a[i], hash_map(*[y for k, f in a[i + 1].d.values() for y in (k.name, f)]))


CORE.intern("satisfies?", lambda p, x: p.has(x))
CORE.intern("extends?", lambda p, c: c in p.impls or simple(c) in p.impls)
CORE.intern("record?", lambda x: type(x) is PMap and x.rec is not None)


@macro("reify")
def _(form, sc, *specs):
    k = S("k__%d" % clj.gensym())
    return L(S("clojure.core/let"), Vec([k, L(S("clojure.core/reify*"))]),
             *[L(S("clojure.core/implement*"), L(S("clojure.core/reify-kind*"), k), named(p), method_map(ms)) for p, ms in impls(specs)], k)


@core("reify*")
def _():
    o = Obj(here("reify__%d" % clj.gensym()), impl={}, protos=[], kinds=[])
    return o


CORE.intern("reify-kind*", lambda o: o.__dict__)


# ---------------------------------------------------------------- references
CORE.intern("ref", lambda x, *a: Ref(x))
CORE.intern("agent", lambda x, *a: Ref(x))
CORE.intern("await", lambda *a: None)
CORE.intern("shutdown-agents", lambda *a: None)
CORE.intern("ensure", lambda r: r.v)
CORE.intern("volatile?", lambda x: type(x) is Ref)


@macro("dosync")
def _(form, sc, *body):
    return do(body or [None])


@core("add-watch")
def _(r, k, f):
    r.watches = [w for w in r.watches or [] if not equiv(w[0], k)] + [(k, f)]
    return r


@core("remove-watch")
def _(r, k):
    r.watches = [w for w in r.watches or [] if not equiv(w[0], k)]
    return r


@macro("future")
def _(form, sc, *body):
    return L(S("clojure.core/future-call"), L(S("clojure.core/fn"), Vec([]), *body))


@core("future-call")
def future_call(f):
    res, err = None, None
    try:
        res = f()
    except Exception as e:
        err = java_error(e)
    def deref(*a):
        if err is not None:
            raise Thrown("ExecutionException", "%s: %s" % (err.cls, err.message), None, err)
        return res
    return Obj("java.util.concurrent.Future", deref=deref, realized=lambda: True)


SUPERS["ExecutionException"] = "Exception"
for n in ("ExecutionException",):
    CLASSES[n] = CLASSES["java.util.concurrent." + n] = n
    STATICS[n] = {}
CORE.intern("future?", lambda x: type(x) is Obj and x.cls == "java.util.concurrent.Future")
CORE.intern("future-done?", lambda x: True)


@core("promise")
def _():
    o = Obj("clojure.core.promise", v=[])
    def deref(*a):
        if not o.v:
            if len(a) == 2:
                return a[1]
            raise Unsupported("a promise is awaited")
        return o.v[0]
    o.deref, o.realized = deref, lambda: bool(o.v)
    return o


@core("deliver")
def _(p, x):
    if p.v:
        return None
    p.v.append(x)
    return p


CORE.intern("pmap", lambda *a: CORE.vars["map"].v(*a))
CORE.intern("pcalls", lambda *fs: plist([f() for f in fs]))


# ---------------------------------------------------------------- names, vars
def rec_meta(v, f, *a):
    v.meta = f(v.meta, *a)
    return v.meta


core("alter-meta!")(rec_meta)


@core("reset-meta!")
def _(v, m):
    v.meta = m
    return m


@core("intern")
def _(n, s, *v):
    n = n if isinstance(n, Ns) else NSS[n.name]
    x = n.intern(s.name)
    if v:
        x.v, x.bound = v[0], True
    return x


@core("find-var")
def _(s):
    a, _, n = s.name.partition("/")
    return NSS[a].vars.get(n) if a in NSS else throw("IllegalArgumentException", "No such namespace: " + a)


def ns_vars(n):
    n = n if isinstance(n, Ns) else NSS[n.name]
    return hash_map(*[y for k, v in n.vars.items() for y in (S(k), v)])


core("ns-publics", "ns-interns")(ns_vars)
CORE.intern("bound?", lambda *vs: all(v.bound for v in vs))
CORE.intern("qualified-symbol?", lambda x: type(x) is Symbol and "/" in x.name)
CORE.intern("simple-symbol?", lambda x: type(x) is Symbol and "/" not in x.name)
CORE.intern("qualified-ident?", lambda x: type(x) in (Symbol, Keyword) and "/" in x.name)
CORE.intern("simple-ident?", lambda x: type(x) in (Symbol, Keyword) and "/" not in x.name)
CORE.intern("find-keyword", lambda *a: CORE.vars["keyword"].v(*a))
CORE.intern("special-symbol?", lambda s: s.name in SPECIAL)
CORE.intern("hash", hash_of)


@core("macroexpand-1", "macroexpand")
def _(x):
    if type(x) is Seq and type(first(x)) is Symbol:
        v = clj.NS.v.find(first(x).name)
        if v is not None and v.macro:
            xs = list(it(x))[1:]
            return v.v(x, clj.Scope(), *xs) if v.macro == "py" else v.v(*xs)
    return x


@macro("with-bindings")
def _(form, sc, m, *body):
    return L(S("clojure.core/with-bindings*"), m, L(S("clojure.core/fn"), Vec([]), *body))


@core("with-bindings*")
def _(m, f, *a):
    return CORE.vars["binding*"].v(Vec([k for k, _ in m.d.values()]), Vec([v for _, v in m.d.values()]), lambda: f(*a))


@macro("with-local-vars")
def _(form, sc, b, *body):
    return L(S("clojure.core/let"), Vec([y for i in range(0, len(b.l), 2) for y in (b.l[i], L(S("clojure.core/local-var*"), b.l[i + 1]))]), *body)


CORE.intern("local-var*", lambda x: Var("local", "v", x))


@core("var-set")
def _(v, x):
    v.v = x
    return x


# ---------------------------------------------------------------- numbers
for n, f in {"bit-and": lambda x, y: x & y, "bit-or": lambda x, y: x | y, "bit-xor": lambda x, y: x ^ y, "bit-not": lambda x: ~x,
             "bit-shift-left": lambda x, n: x << n, "bit-shift-right": lambda x, n: x >> n, "bit-test": lambda x, n: bool(x >> n & 1),
             "bit-set": lambda x, n: x | 1 << n, "bit-clear": lambda x, n: x & ~(1 << n), "unchecked-inc": lambda x: x + 1, "unchecked-dec": lambda x: x - 1,
             "unchecked-add": lambda x, y: x + y, "unchecked-subtract": lambda x, y: x - y, "unchecked-multiply": lambda x, y: x * y, "unchecked-add-int": lambda x, y: x + y,
             "double": lambda x: float(num(x)), "float": lambda x: float(num(x)), "byte": int, "short": int, "num": num, "char": lambda x: Char(chr(x)) if type(x) is int else x,
             "cast": lambda c, x: x if instance(c, x) else throw("ClassCastException", "Cannot cast"), "bytes?": lambda x: False, "inst?": lambda x: False, "uuid?": lambda x: False, "uri?": lambda x: False,
             "NaN?": lambda x: x != x, "infinite?": lambda x: x in (float("inf"), float("-inf")),
             "parse-boolean": lambda s: {"true": True, "false": False}.get(s), "numerator": lambda x: x, "denominator": lambda x: 1,
             "parse-double": lambda s: float(s) if _re.fullmatch(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*", s) else None}.items():
    CORE.intern(n, f)


# ---------------------------------------------------------------- arrays
def array(x):
    return [None] * x if type(x) is int else list(it(x))


for n in ("object-array", "to-array", "long-array", "int-array", "into-array*", "boolean-array", "double-array"):
    CORE.intern(n, array)
CORE.intern("into-array", lambda *a: array(a[-1]))
CORE.intern("make-array", lambda t, n: [None] * n)
CORE.intern("aget", lambda a, i: a[i] if 0 <= i < len(a) else throw("IndexOutOfBoundsException", "Index %d out of bounds for length %d" % (i, len(a))))
CORE.intern("alength", len)
CORE.intern("aclone", list)


@core("aset")
def _(a, i, x):
    if not 0 <= i < len(a):
        throw("IndexOutOfBoundsException", "Index %d out of bounds for length %d" % (i, len(a)))
    a[i] = x
    return x


# ---------------------------------------------------------------- transients, sequences
@core("pop!")
def _(t):
    t.c = CORE.vars["pop"].v(t.c)
    return t


CORE.intern("replicate", lambda n, x: plist([x] * n))
CORE.intern("seque", lambda *a: a[-1])
CORE.intern("line-seq", lambda r: seq(lazy(iter(lambda: METHODS["readLine"](r), None))))


@core("spit")
def _(f, x, *o):
    if o and not (len(o) == 2 and o[0] is K("append") and truth(o[1])):
        raise Unsupported("options of spit")
    with open(f.path if type(f) is Obj else f, "a" if o else "w", encoding="utf8", newline="") as h:
        h.write(str1(x))


# ---------------------------------------------------------------- matchers
@core("re-matcher")
def _(r, s):
    return Obj("java.util.regex.Matcher", re=r.re, s=s, it=r.re.finditer(s), m=None)


def m_find(x):
    x.cur = next(x.it, None)
    return x.cur is not None


# the field m marks a map for the sequence functions, so what was found is in cur
def matcher(r, s):
    return Obj("java.util.regex.Matcher", re=r.re, s=s, it=r.re.finditer(s), cur=None)


CORE.intern("re-matcher", matcher)
_find = CORE.vars["re-find"].v


@core("re-find")
def _(*a):
    if len(a) == 1:
        return CORE.vars["re-groups"].v(a[0]) if m_find(a[0]) else None
    return _find(*a)


@core("re-groups")
def _(x):
    if x.cur is None:
        throw("IllegalStateException", "No match found")
    m = x.cur
    return m.group() if m.re.groups == 0 else Vec([m.group()] + list(m.groups()))


# ---------------------------------------------------------------- Java
def size(x):
    t = type(x)
    return len(x.parts and "".join(x.parts)) if t is Obj and hasattr(x, "parts") else len(x.l) if t is Obj and hasattr(x, "l") else \
        len(x.m) if t is Obj and hasattr(x, "m") else len(x) if t in (str, list) else CORE.vars["count"].v(x)


def append(b, *a):
    b.parts.append(str1(a[0]) if a[0] is not None else "null") if len(a) == 1 else b.parts.append(str1(a[0])[a[1]:a[2]])
    return b


def add(a, *b):
    if type(a) is Obj and hasattr(a, "l"):
        if len(b) == 2:
            a.l.insert(b[0], b[1])
            return None
        if "Set" in a.cls and any(equiv(b[0], x) for x in a.l):
            return False
        a.l.append(b[0])
        return True
    return arith("add", Decimal(num(a)), b[0])


def put(o, k, v):
    old = o.m.get(Key(k))
    o.m[Key(k)] = (k, v)
    return old and old[1]


def char_at(s, i):
    s = s if type(s) is str else str1(s)
    if not 0 <= i < len(s):
        throw("IndexOutOfBoundsException", "index %d, length %d" % (i, len(s)))
    return Char(s[i])


def java_get(o, k, *d):
    if type(o) is Obj and hasattr(o, "l") or type(o) in (Vec, list):
        l = o if type(o) is list else o.l
        return l[k] if 0 <= k < len(l) else throw("IndexOutOfBoundsException", "Index %d out of bounds for length %d" % (k, len(l)))
    return get(o, k, *d)


def add_months(d, n):
    m = d.year * 12 + d.month - 1 + n
    y, m = divmod(m, 12)
    for day in range(d.day, 27, -1):
        try:
            return datetime.date(y, m + 1, day)
        except ValueError:
            pass
    return datetime.date(y, m + 1, d.day)


def group(x, n=0):
    if x.cur is None:
        throw("IllegalStateException", "No match found")
    return x.cur.group(n)


def matches(x, *a):
    if type(x) is str:
        return Regex(a[0]).re.fullmatch(x) is not None
    x.cur = x.re.fullmatch(x.s)
    return x.cur is not None


_contains = METHODS["contains"]
_abs, _split = METHODS["abs"], ns_of("clojure.string").vars["split"].v


def set_scale(d, n, mode=None):
    q = Decimal((0, (1,), -n))
    ctx = clj.CTX.copy()
    mode = mode or "UNNECESSARY"
    ctx.rounding = {"HALF_UP": "ROUND_HALF_UP", "HALF_EVEN": "ROUND_HALF_EVEN", "DOWN": "ROUND_DOWN", "UP": "ROUND_UP", "FLOOR": "ROUND_FLOOR", "CEILING": "ROUND_CEILING",
                    "HALF_DOWN": "ROUND_HALF_DOWN"}.get(mode, "ROUND_DOWN")
    r = d.quantize(q, context=ctx)
    if mode == "UNNECESSARY" and r != d:
        throw("ArithmeticException", "Rounding necessary")
    return r


for m in ("HALF_UP", "HALF_EVEN", "DOWN", "UP", "FLOOR", "CEILING", "HALF_DOWN", "UNNECESSARY"):
    STATICS["java.math.RoundingMode"][m] = m

METHODS.update({
    "add": add, "addAll": lambda o, xs: (o.l.extend(it(xs)), True)[1], "append": append, "charAt": char_at, "size": size, "count": size,
    "length": size, "isEmpty": lambda o: size(o) == 0, "get": java_get, "put": put, "putIfAbsent": lambda o, k, v: None if Key(k) in o.m else put(o, k, v) or None,
    "getOrDefault": lambda o, k, d: get(o, k, d), "containsKey": lambda o, k: Key(k) in o.m if type(o) is Obj else contains(o, k),
    "containsValue": lambda o, v: any(equiv(v, x.l[1]) for x in it(o)), "keySet": lambda o: hash_set(*[x.l[0] for x in it(o)]),
    "values": lambda o: plist([x.l[1] for x in it(o)]), "entrySet": lambda o: plist(list(it(o))), "getKey": lambda e: e.l[0], "getValue": lambda e: e.l[1],
    "contains": lambda s, x: str1(x) in s if type(s) is str else any(equiv(x, y) for y in it(s)), "iterator": lambda o: Obj("java.util.Iterator", rest=list(it(o))),
    "hasNext": lambda i: bool(i.rest), "next": lambda i: i.rest.pop(0), "nth": lambda c, *a: CORE.vars["nth"].v(c, *a), "valAt": get,
    "toArray": lambda o: list(it(o)), "cons": lambda c, x: conj1(c, x), "first": lambda c: first(c), "seq": seq,
    "equals": lambda a, b: type(a) is type(b) is Decimal and a.as_tuple() == b.as_tuple() or type(a) is not Decimal and equiv(a, b), "equalsIgnoreCase": lambda a, b: b is not None and a.lower() == b.lower(), "hashCode": hash_of, "getClass": type_name, "getSimpleName": simple,
    "getCanonicalName": lambda c: c, "replaceAll": lambda s, r, t: ns_of("clojure.string").vars["replace"].v(s, Regex(r), t),
    "replaceFirst": lambda s, r, t: ns_of("clojure.string").vars["replace-first"].v(s, Regex(r), t), "matches": matches,
    "replace": lambda s, a, b: s.replace(str(a), str(b)), "repeat": lambda s, n: s * n if n >= 0 else throw("IllegalArgumentException", "count is negative: %d" % n),
    "split": lambda s, r, *n: list(it(_split(s, Regex(r), *n))), "lines": lambda s: plist(s.splitlines()), "toCharArray": lambda s: [Char(c) for c in s],
    "stripLeading": lambda s: s.lstrip(), "stripTrailing": lambda s: s.rstrip(), "intern": lambda s: s, "codePointAt": lambda s, i: ord(s[i]),
    "compareToIgnoreCase": lambda a, b: compare(a.lower(), b.lower()), "chars": lambda s: plist([ord(c) for c in s]), "regionMatches": None,
    "reverse": lambda b: (b.parts.__setitem__(slice(None), ["".join(b.parts)[::-1]]), b)[1], "setLength": lambda b, n: b.parts.__setitem__(slice(None), ["".join(b.parts)[:n]]),
    "insert": lambda b, i, x: (b.parts.__setitem__(slice(None), ["".join(b.parts)[:i] + str1(x) + "".join(b.parts)[i:]]), b)[1],
    "deleteCharAt": lambda b, i: (b.parts.__setitem__(slice(None), ["".join(b.parts)[:i] + "".join(b.parts)[i + 1:]]), b)[1],
    "setScale": set_scale, "stripTrailingZeros": lambda d: (lambda n: n if n != 0 else Decimal(0))(clj.CTX.create_decimal(d).normalize(clj.CTX)),
    "precision": lambda d: len(d.as_tuple().digits), "unscaledValue": lambda d: int(d.scaleb(-d.as_tuple().exponent, clj.CTX)), "doubleValue": float,
    "divide": None, "max": lambda a, b: a if compare(a, b) >= 0 else b, "min": lambda a, b: a if compare(a, b) <= 0 else b, "pow": None,
    "multiply": lambda a, b: arith("mul", Decimal(a), b), "subtract": lambda a, b: arith("sub", Decimal(a), b), "intValueExact": int, "longValueExact": int,
    "toBigInteger": int, "plusMonths": add_months, "minusMonths": lambda d, n: add_months(d, -n), "plusYears": lambda d, n: add_months(d, 12 * n),
    "minusYears": lambda d, n: add_months(d, -12 * n), "plusWeeks": lambda d, n: d + datetime.timedelta(7 * n), "minusWeeks": lambda d, n: d - datetime.timedelta(7 * n),
    "withDayOfMonth": lambda d, n: d.replace(day=n), "withMonth": lambda d, n: d.replace(month=n), "withYear": lambda d, n: d.replace(year=n),
    "lengthOfMonth": lambda d: (add_months(d.replace(day=1), 1) - datetime.timedelta(1)).day, "toEpochDay": lambda d: d.toordinal() - 719163, "getDayOfYear": lambda d: d.timetuple().tm_yday,
    "isLeapYear": lambda d: d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0),
    "deref": lambda r: CORE.vars["deref"].v(r), "applyTo": lambda f, xs: f(*it(xs)), "invoke": lambda f, *a: f(*a), "compare": lambda f, a, b: cmp_of(f)(a, b),
    "getLocalizedMessage": lambda e: e.message, "printStackTrace": lambda e, *a: None, "getData": lambda e: e.data, "getParentFile": lambda f: (lambda p: Obj("java.io.File", path=p) if p else None)(os.path.dirname(f.path)),
    "isAbsolute": lambda f: os.path.isabs(f.path), "getAbsoluteFile": lambda f: Obj("java.io.File", path=os.path.abspath(f.path)), "getCanonicalPath": lambda f: os.path.realpath(f.path),
    "canRead": lambda f: os.access(f.path, os.R_OK), "group": group, "find": m_find, "groupCount": lambda x: x.re.groups, "matcher": lambda r, s: matcher(r, s), "pattern": lambda r: r.src,
    "getNamespace": lambda k: k.name.rpartition("/")[0] or None, "sym": lambda k: S(k.name), "meta": lambda x: getattr(x, "meta", None), "withMeta": lambda x, m: CORE.vars["with-meta"].v(x, m),
    "remove": lambda o, k: (lambda e: e and e[1])(o.m.pop(Key(k), None)) if hasattr(o, "m") else o.l.pop(k) if type(k) is int else throw("UnsupportedOperationException", "remove"),
    "push": lambda o, x: o.l.insert(0, x), "pop": lambda o: o.l.pop(0), "peek": lambda o: o.l[0] if o.l else None, "addLast": lambda o, x: o.l.append(x), "addFirst": lambda o, x: o.l.insert(0, x),
    "clear": lambda o: o.l.clear() if hasattr(o, "l") else o.m.clear(), "set": lambda o, i, x: o.l.__setitem__(i, x), "println": lambda w, *a: (METHODS["write"](w, "".join(str1(x) for x in a) + "\n"), None)[1],
    "print": lambda w, x: (METHODS["write"](w, str1(x)), None)[1], "newLine": lambda w: (METHODS["write"](w, "\n"), None)[1],
})
for n in [n for n, f in METHODS.items() if f is None]:
    del METHODS[n]
_write = METHODS["write"]
METHODS["write"] = lambda w, s: _write(w, chr(s) if type(s) is int else str(s))
METHODS["indexOf"] = lambda s, x, *a: next((i for i, y in enumerate(it(s)) if equiv(x, y)), -1) if type(s) is not str else s.find(chr(x) if type(x) is int else str(x), *a)


def char(f):
    return lambda c: f(c if isinstance(c, str) else chr(c))


STATICS["Character"].update(isDigit=char(lambda c: c.isdigit()), isWhitespace=char(lambda c: c.isspace() and c not in "\u00a0\u2007\u202f"), isLetter=char(lambda c: c.isalpha()),
                            isUpperCase=char(lambda c: c.isupper()), isLowerCase=char(lambda c: c.islower()), isLetterOrDigit=char(lambda c: c.isalnum()),
                            toUpperCase=char(lambda c: Char(c.upper())), toLowerCase=char(lambda c: Char(c.lower())), toString=str, getNumericValue=char(int), isAlphabetic=char(lambda c: c.isalpha()))
STATICS["String"].update(format=lambda *a: fmt(a[0], *a[1:]) if len(a) != 2 or type(a[1]) is not list else fmt(a[0], *a[1]), new=lambda x="": x if type(x) is str else "".join(str(c) for c in it(x)))
STATICS["Long"].update(toString=lambda x: str(x), compare=compare, sum=lambda a, b: a + b)
STATICS["Long"].setdefault("max", max)
STATICS["Integer"].update(toString=lambda x: str(x), compare=compare)
STATICS["Boolean"].update(parseBoolean=lambda s: s is not None and s.lower() == "true", TRUE=True, FALSE=False, valueOf=lambda s: s if type(s) is bool else s.lower() == "true")
STATICS["Math"].update(pow=lambda a, b: float(a) ** float(b), floorDiv=lambda a, b: a // b, floorMod=lambda a, b: a % b, signum=lambda x: float((x > 0) - (x < 0)), ceil=lambda x: float(-(-x // 1)),
                       floor=lambda x: float(x // 1))
STATICS["Double"].update(parseDouble=float)
STATICS["java.util.Objects"].update(equals=lambda a, b: equiv(a, b), requireNonNull=lambda x, *a: x if x is not None else throw("NullPointerException", a[0] if a else None), isNull=lambda x: x is None,
                                    nonNull=lambda x: x is not None, toString=lambda x, *d: str1(x) if x is not None else d[0] if d else "null", hash=lambda *a: hash_of(Vec(list(a))))
STATICS["StringBuilder"]["new"] = lambda x="": Obj("java.lang.StringBuilder", parts=[x] if type(x) is str else [])
for n in ("ArrayList", "LinkedList", "ArrayDeque"):
    STATICS["java.util." + n]["new"] = (lambda n: lambda x=(): Obj("java.util." + n, l=[] if type(x) is int else list(it(x)) if x != () else []))(n)
for n in ("HashSet", "LinkedHashSet"):
    STATICS["java.util." + n]["new"] = (lambda n: lambda x=None: Obj("java.util." + n, l=list(it(hash_set(*it(x)))) if type(x) is not int else []))(n)
for n in ("HashMap", "LinkedHashMap"):
    STATICS["java.util." + n]["new"] = (lambda n: lambda x=None: Obj("java.util." + n, m={} if x is None or type(x) is int else {Key(e.l[0]): (e.l[0], e.l[1]) for e in it(x)}))(n)
STATICS["java.util.regex.Pattern"].update(compile=lambda s, *a: Regex(s) if not a else (_ for _ in ()).throw(Unsupported("flags of a pattern")), quote=lambda s: "\\Q" + s + "\\E" if "\\E" not in s else _re.escape(s),
                                          matches=lambda r, s: Regex(r).re.fullmatch(s) is not None)
STATICS["java.util.Collections"].update(emptyList=lambda: plist(), sort=lambda l, *c: l.l.sort(key=comparator(c[0] if c else compare)), reverse=lambda l: l.l.reverse(), unmodifiableList=lambda l: l)
STATICS["java.util.Arrays"].update(asList=lambda *a: plist(a), sort=lambda l: l.sort(key=comparator(compare)))
STATICS["BigDecimal"]["new"] = lambda x, *a: Decimal(x) if type(x) in (str, int, Decimal) else Decimal(x)
STATICS["java.io.StringReader"]["new"] = lambda s: Obj("fd", f=io.StringIO(s))
STATICS["java.io.BufferedReader"]["new"] = lambda r: r
STATICS["clojure.lang.MapEntry"].update(create=lambda k, v: Vec([k, v], None, True), new=lambda k, v: Vec([k, v], None, True))
STATICS["clojure.lang.PersistentQueue"]["EMPTY"] = plist()
del STATICS["clojure.lang.PersistentQueue"]["EMPTY"]

# ---- files
IO = "clojure.java.io"
path = lambda f: f.path if type(f) is Obj else f
lib(IO, "as-file")(lambda f: f if type(f) is Obj or f is None else Obj("java.io.File", path=f))
lib(IO, "make-parents")(lambda *a: os.makedirs(os.path.dirname(os.path.join(*[path(x) for x in a])), exist_ok=True))
lib(IO, "output-stream")(lambda f, *a: Obj("fd", f=open(path(f), "w", encoding="utf8", newline="")))


@lib(IO, "copy")
def _(a, b, *o):
    text = open(path(a), encoding="utf8", newline="").read() if not (type(a) is Obj and a.cls == "fd") else a.f.read()
    if type(b) is Obj and b.cls == "fd":
        b.f.write(text)
    elif type(b) is Obj and hasattr(b, "parts"):
        b.parts.append(text)
    else:
        open(path(b), "w", encoding="utf8", newline="").write(text)


# what of clojure.core isn't here is only missed when it is run
KNOWN_CORE |= set("all-ns create-ns remove-ns destructure iteration make-hierarchy underive prefer-method push-thread-bindings pop-thread-bindings read-line rand-nth shuffle rand rand-int "
                  "struct supers bases test unsigned-bit-shift-right vector-of with-in-str with-precision xml-seq parse-uuid random-uuid *in* file-seq get-validator set-validator! set-error-handler! "
                  "proxy-super accessor load compile bigint mix-collection-hash hash-ordered-coll hash-unordered-coll definterface gen-interface ns-unmap ns-unalias ns-map ns-refers alias "
                  "restart-agent send-via get-thread-bindings thread-bound? cancel future-cancel future-cancelled? read+string print-ctor print-dup sync unchecked-int unchecked-long aset-int "
                  "amap areduce bytes chars ints longs floats doubles booleans shorts class bases reader-conditional tagged-literal *data-readers* *assert* *file* *print-readably* *print-level* "
                  "*clojure-version* clojure-version *compile-files* *agent* *1 *2 *3 flush with-loading-context inst-ms ".split())
