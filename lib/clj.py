"""An interpreter for the part of Clojure which limabean is written in: forms are
compiled to Python functions. It runs the Clojure sources of /repo as they are;
what it doesn't know raises Unsupported, which Clojure code can't catch."""
import datetime, functools, decimal, json, os, re, subprocess, sys
from decimal import Decimal

sys.setrecursionlimit(40000)
CTX = decimal.Context(prec=5000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN)


class Unsupported(BaseException):
    """not part of this interpreter"""


class Thrown(Exception):
    """a Java exception"""
    def __init__(self, cls, message, data=None, cause=None):
        Exception.__init__(self, "%s: %s" % (cls, message))
        self.cls, self.message, self.data, self.cause = cls, message, data, cause


def throw(cls, message):
    raise Thrown(cls, message)


SUPERS = {"ExceptionInfo": "RuntimeException", "RuntimeException": "Exception", "IOException": "Exception", "ClassCastException": "RuntimeException",
          "ArithmeticException": "RuntimeException", "IllegalArgumentException": "RuntimeException", "ArityException": "IllegalArgumentException",
          "NumberFormatException": "IllegalArgumentException", "IndexOutOfBoundsException": "RuntimeException", "NullPointerException": "RuntimeException",
          "DateTimeException": "RuntimeException", "FileNotFoundException": "IOException", "IllegalStateException": "RuntimeException",
          "JsonParseException": "IOException", "PatternSyntaxException": "IllegalArgumentException", "UnsupportedOperationException": "RuntimeException",
          "CompilerException": "RuntimeException", "IllegalFormatConversionException": "IllegalArgumentException", "InterruptedException": "Exception", "Exception": "Throwable", "Error": "Throwable", "Throwable": None,
          "AssertionError": "Error", "StackOverflowError": "Error", "DateTimeParseException": "DateTimeException"}


def java_error(e):
    if isinstance(e, Thrown):
        return e
    if isinstance(e, ZeroDivisionError):
        return Thrown("ArithmeticException", "Divide by zero")
    if isinstance(e, TypeError):
        if str(e) == "'NoneType' object is not callable":
            return Thrown("NullPointerException", "Cannot invoke nil")
        if "object is not callable" in str(e):
            return Thrown("ClassCastException", "cannot be cast: %s" % e)
        # of what is built in: maybe a use of it that isn't known here
        raise Unsupported("of a built-in: %s" % e)
    if isinstance(e, RecursionError):
        return Thrown("StackOverflowError", "stack overflow")
    if isinstance(e, FileNotFoundError):
        return Thrown("FileNotFoundException", "%s (%s)" % (e.filename, e.strerror))
    if isinstance(e, OSError):
        return Thrown("IOException", str(e))
    raise Unsupported("a Python exception %r" % e)


def is_a(e, cls):
    c = e.cls
    while c:
        if c == cls:
            return True
        c = SUPERS.get(c)
    return False


# ---------------------------------------------------------------- values
class Keyword:
    __slots__ = ("name", "h")
    table = {}

    def __new__(cls, name):
        k = cls.table.get(name)
        if k is None:
            k = object.__new__(cls)
            k.name, k.h = name, hash(("kw", name))
            cls.table[name] = k
        return k

    def __call__(self, m, default=None):
        return get(m, self, default)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return ":" + self.name


class Symbol:
    __slots__ = ("name", "meta")

    def __init__(self, name, meta=None):
        self.name, self.meta = name, meta

    def __eq__(self, o):
        return isinstance(o, Symbol) and o.name == self.name

    def __hash__(self):
        return hash(("sym", self.name))

    def __repr__(self):
        return self.name

    def __call__(self, m, default=None):
        return get(m, self, default)


class Char(str):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Char) and str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("char", str(self)))


class Regex:
    def __init__(self, src):
        self.src = src
        try:
            self.re = re.compile(src.replace("\\h", "[ \\t]"))
        except re.error as e:
            throw("PatternSyntaxException", str(e))


class Key:
    """what a key of a map or set is known by"""
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v, self.h = v, hash_of(v)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return equiv(self.v, o.v)


def hash_of(v):
    t = type(v)
    if t is str or t is Keyword or t is bool or v is None or t is Symbol or t is Char:
        return hash((t is bool, v))
    if t is int:
        return hash(("int", v))
    if t is Decimal:
        return hash(("dec", v))
    if t is Vec or t is Seq:
        return hash(("seq",) + tuple(hash_of(x) for x in it(v)))
    if t is PMap:
        return hash(("map", frozenset((k, hash_of(x)) for k, (_, x) in v.d.items())))
    if t is PSet:
        return hash(("set", frozenset(v.d)))
    return hash(v)


def equiv(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is bool or tb is bool or a is None or b is None:
        return False
    if ta in (int, Decimal, float) or tb in (int, Decimal, float):
        return ta is tb and a == b
    if ta is str or tb is str:
        return ta is tb and a == b
    if ta in (Vec, Seq):
        if tb not in (Vec, Seq):
            return False
        x, y = list(it(a)), list(it(b))
        return len(x) == len(y) and all(equiv(p, q) for p, q in zip(x, y))
    if ta is PMap:
        return tb is PMap and a.rec is b.rec and len(a.d) == len(b.d) and all(k in b.d and equiv(v[1], b.d[k][1]) for k, v in a.d.items())
    if ta is PSet:
        return tb is PSet and len(a.d) == len(b.d) and all(k in b.d for k in a.d)
    return a == b


class Vec:
    __slots__ = ("l", "meta", "ent", "__weakref__")

    def __init__(self, l=(), meta=None, ent=False):
        self.l, self.meta, self.ent = l if type(l) is list else list(l), meta, ent

    def __call__(self, i):
        if type(i) is not int:
            throw("IllegalArgumentException", "Key must be integer")
        if not 0 <= i < len(self.l):
            throw("IndexOutOfBoundsException", None)
        return self.l[i]


class PMap:
    """a map, in the order its keys were added, or sorted by cmp; rec is the type of a record"""
    __slots__ = ("d", "meta", "cmp", "rec")

    def __init__(self, d=None, meta=None, cmp=None, rec=None):
        self.d, self.meta, self.cmp, self.rec = {} if d is None else d, meta, cmp, rec

    def __call__(self, k, default=None):
        return get(self, k, default)


class PSet:
    __slots__ = ("d", "meta", "cmp")

    def __init__(self, d=None, meta=None, cmp=None):
        self.d, self.meta, self.cmp = {} if d is None else d, meta, cmp

    def __call__(self, k):
        return self.d.get(Key(k))


def like(m, d):
    """a map or set such as m of what is in d"""
    if m.cmp is not None:
        d = dict(sorted(d.items(), key=functools.cmp_to_key(lambda x, y: m.cmp(x[0].v, y[0].v))))
    return PMap(d, m.meta, m.cmp, m.rec) if type(m) is PMap else PSet(d, m.meta, m.cmp)


class Seq:
    """a sequence: what there is of it from a position on, and where more comes from"""
    __slots__ = ("buf", "src", "i", "meta")

    def __init__(self, buf, src=None, i=0, meta=None):
        self.buf, self.src, self.i, self.meta = buf, src, i, meta

    def has(self):
        while len(self.buf) <= self.i:
            if self.src is None:
                return False
            src = self.src.it
            if src is None:
                return False
            try:
                self.buf.append(next(src))
            except StopIteration:
                self.src.it = None
                return len(self.buf) > self.i
        return True

    def rest(self):
        return Seq(self.buf, self.src, self.i + 1) if self.has() else self

    def __iter__(self):
        s = self
        while s.has():
            yield s.buf[s.i]
            s = Seq(s.buf, s.src, s.i + 1)


class Src:
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


def lazy(gen):
    return Seq([], Src(iter(gen)))


def plist(xs=()):
    return Seq(list(xs))


class Reduced:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Eduction:
    def __init__(self, xf, coll):
        self.xf, self.coll = xf, coll


class Ref:
    """a volatile, atom, ref or agent"""
    __slots__ = ("v", "watches")

    def __init__(self, v):
        self.v, self.watches = v, None


class Delay:
    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f, self.v = f, None

    def force(self):
        if self.f is not None:
            self.v = self.f()
            self.f = None
        return self.v


class Transient:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __call__(self, k, default=None):
        return get(self.c, k, default)


class Var:
    __slots__ = ("ns", "name", "v", "macro", "dynamic", "meta", "bound")

    def __init__(self, ns, name, v=None):
        self.ns, self.name, self.v, self.macro, self.dynamic, self.meta, self.bound = ns, name, v, False, False, None, v is not None

    def __call__(self, *a):
        return self.v(*a)

    def __repr__(self):
        return "#'%s/%s" % (self.ns, self.name)


class Recur:
    __slots__ = ("a",)

    def __init__(self, *a):
        self.a = a


class Obj:
    """a Java object known by what it can do"""
    def __init__(self, cls, **kw):
        self.cls = cls
        self.__dict__.update(kw)


class Multi:
    def __init__(self, name, dispatch, default):
        self.name, self.dispatch, self.default, self.methods = name, dispatch, default, {}

    def find(self, k):
        m = self.methods.get(Key(k))
        if m is None:
            for kk, f in self.methods.items():
                if (m is None or kk.v == "java.lang.Object") and cljmore.isa(k, kk.v):
                    if m is not None and kk.v == "java.lang.Object":
                        continue
                    m = f
        return m or self.methods.get(Key(self.default))

    def __call__(self, *a):
        k = self.dispatch(*a)
        m = self.find(k)
        if m is None:
            throw("IllegalArgumentException", "No method in multimethod '%s' for dispatch value: %s" % (self.name, pr_str(k)))
        return m(*a)


class MapEntry(Vec):
    __slots__ = ()


# MapEntry is printed, compared and used as a vector
def entry(k, v):
    return Vec([k, v])


def it(x):
    """what is in a collection"""
    t = type(x)
    if t is Vec:
        return iter(x.l)
    if t is Seq:
        return iter(x)
    if x is None:
        return iter(())
    if t is PMap:
        return iter([Vec([k, v], None, True) for k, v in x.d.values()])
    if t is PSet:
        return iter(x.d.values())
    if t is str:
        return iter([Char(c) for c in x])
    if t is Eduction:
        return iter(into_list(x.xf, x.coll))
    if t is list:
        return iter(x)
    if t is Obj and hasattr(x, "l"):
        return iter(list(x.l))
    if t is Obj and hasattr(x, "m"):
        return iter([Vec([k, v], None, True) for k, v in x.m.values()])
    throw("IllegalArgumentException", "Don't know how to create ISeq from: %s" % type_name(x))


def seq(x):
    if x is None:
        return None
    s = x if type(x) is Seq else Seq(list(it(x)))
    return s if s.has() else None


def get(m, k, default=None):
    t = type(m)
    if t is PMap:
        e = m.d.get(Key(k))
        return default if e is None else e[1]
    if t is PSet:
        kk = Key(k)
        return m.d[kk] if kk in m.d else default
    if t is Vec:
        return m.l[k] if type(k) is int and 0 <= k < len(m.l) else default
    if t is Transient:
        return get(m.c, k, default)
    if t is Obj and hasattr(m, "m"):
        return m.m.get(Key(k), (k, default))[1]
    if t is str:
        return Char(m[k]) if type(k) is int and 0 <= k < len(m) else default
    return default


def assoc1(m, k, v):
    if m is None:
        return PMap({Key(k): (k, v)})
    t = type(m)
    if t is PMap:
        d = dict(m.d)
        kk = Key(k)
        d[kk] = (d[kk][0], v) if kk in d else (k, v)
        return like(m, d)
    if t is Vec:
        l = list(m.l)
        if k == len(l):
            l.append(v)
        elif type(k) is int and 0 <= k < len(l):
            l[k] = v
        else:
            throw("IndexOutOfBoundsException", None)
        return Vec(l, m.meta)
    throw("ClassCastException", "%s cannot be cast to class clojure.lang.Associative" % type_name(m))


def assoc(m, *kv):
    if len(kv) % 2:
        throw("IllegalArgumentException", "assoc expects even number of arguments after map/vector, found odd number")
    for i in range(0, len(kv), 2):
        m = assoc1(m, kv[i], kv[i + 1])
    return m


def conj1(c, x):
    t = type(c)
    if c is None:
        return plist([x])
    if t is Vec:
        return Vec(c.l + [x], c.meta)
    if t is PSet:
        kk = Key(x)
        if kk in c.d:
            return c
        d = dict(c.d)
        d[kk] = x
        return like(c, d)
    if t is PMap:
        if x is None:
            return c
        if type(x) is PMap:
            d = dict(c.d)
            for k, (a, b) in x.d.items():
                d[k] = (a, b)
            return like(c, d)
        if type(x) is Vec and len(x.l) == 2:
            return assoc1(c, x.l[0], x.l[1])
        throw("IllegalArgumentException", "Vector arg to map conj must be a pair")
    if t is Seq:
        return lazy_cons(x, c)
    throw("ClassCastException", "%s cannot be cast to class clojure.lang.IPersistentCollection" % type_name(c))


def lazy_cons(x, c):
    def g():
        yield x
        yield from it(c)
    return lazy(g()) if type(c) is Seq and c.src is not None else Seq([x] + list(it(c)))


def hash_map(*kv):
    d = {}
    for i in range(0, len(kv), 2):
        d[Key(kv[i])] = (kv[i], kv[i + 1])
    return PMap(d)


def hash_set(*xs):
    d = {}
    for x in xs:
        d.setdefault(Key(x), x)
    return PSet(d)


def to_map(d):
    """a Clojure map with keywords for keys of a Python dict"""
    return hash_map(*[y for k, v in d.items() for y in (Keyword(k), v)])


def type_name(x):
    t = type(x)
    if t is Obj:
        return x.cls
    if t is PMap and x.rec is not None:
        return x.rec.cls
    return {str: "java.lang.String", int: "java.lang.Long", Decimal: "java.math.BigDecimal", bool: "java.lang.Boolean", Keyword: "clojure.lang.Keyword",
            Symbol: "clojure.lang.Symbol", Vec: "clojure.lang.PersistentVector", PMap: "clojure.lang.PersistentArrayMap", PSet: "clojure.lang.PersistentHashSet",
            Seq: "clojure.lang.LazySeq", datetime.date: "java.time.LocalDate", Char: "java.lang.Character", Regex: "java.util.regex.Pattern",
            type(None): "null"}.get(t, "clojure.lang.IFn")


def truth(x):
    return x is not None and x is not False


# ---------------------------------------------------------------- printing
ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\f": "\\f", "\b": "\\b"}
CHARS = {"newline": "\n", "space": " ", "tab": "\t", "return": "\r", "backspace": "\b", "formfeed": "\f"}


def dec_str(d):
    return str(d)


def pr_str(x, readably=True):
    m = getattr(x, "meta", None)
    if type(m) is PMap and PRINT is not None:
        k = get(m, Keyword("type"))
        f = PRINT.methods.get(Key(k)) if k is not None else None
        if f:
            w = Obj("java.io.StringWriter", parts=[])
            f(x, w)
            return "".join(w.parts)
    t = type(x)
    if x is None:
        return "nil"
    if t is bool:
        return "true" if x else "false"
    if t is str:
        return '"' + "".join(ESC.get(c, c) for c in x) + '"' if readably else x
    if t is Char:
        return "\\" + {v: k for k, v in CHARS.items()}.get(str(x), str(x)) if readably else str(x)
    if t is Decimal:
        return dec_str(x) + ("M" if readably else "M")
    if t is int or t is float:
        return str(x)
    if t is Vec:
        return "[" + " ".join(pr_str(y, readably) for y in x.l) + "]"
    if t is Seq:
        return "(" + " ".join(pr_str(y, readably) for y in it(x)) + ")"
    if t is PMap and x.rec is not None:
        return "#" + x.rec.cls + pr_str(PMap(x.d), readably)
    if t is PMap:
        return "{" + ", ".join(pr_str(a, readably) + " " + pr_str(b, readably) for a, b in x.d.values()) + "}"
    if t is PSet:
        return "#{" + " ".join(pr_str(y, readably) for y in x.d.values()) + "}"
    if t is Regex:
        return '#"%s"' % x.src
    if t is datetime.date:
        f = PRINT.methods.get(Key("java.time.LocalDate")) if PRINT else None
        if f:
            w = Obj("java.io.StringWriter", parts=[])
            f(x, w)
            return "".join(w.parts)
        return x.isoformat()
    if t is Thrown:
        return "#error {:message %s}" % pr_str(x.message)
    return repr(x) if isinstance(x, (Keyword, Symbol, Var)) else "#object[%s]" % type_name(x)


def str1(x):
    t = type(x)
    if x is None:
        return ""
    if t is str:
        return x
    if t is Char:
        return str(x)
    if t is Decimal:
        return dec_str(x)
    if t is datetime.date:
        return x.isoformat()
    if t is Obj and x.cls == "java.io.File":
        return x.path
    if t is Obj and hasattr(x, "parts"):
        return "".join(x.parts)
    if t is Obj and "toString" in getattr(x, "impl", {}):
        return x.impl["toString"](x)
    if t is Regex:
        return x.src
    if t is Ns:
        return x.name
    return pr_str(x)


def print1(x):
    """as print does, which for decimals is as str"""
    t = type(x)
    if t is Decimal:
        return dec_str(x) + "M"
    if x is None:
        return "nil"
    return pr_str(x, False)


def write(s):
    out = OUT.v
    if out.cls == "fd":
        out.f.write(s)
    else:
        out.parts.append(s)


# ---------------------------------------------------------------- reader
TOKEN = re.compile(r'[^\s,()\[\]{}"`~@^;\\][^\s,()\[\]{}"`~@^;\\]*')


class Reader:
    def __init__(self, text, env=None, readers=None, edn=False):
        self.t, self.i, self.env, self.readers, self.edn = text, 0, env, readers, edn
        self.args = None

    def error(self, m):
        throw("RuntimeException", m)

    def skip(self):
        t = self.t
        while self.i < len(t):
            c = t[self.i]
            if c.isspace() or c == ",":
                self.i += 1
            elif c == ";" or (c == "#" and t.startswith("#!", self.i)):
                while self.i < len(t) and t[self.i] != "\n":
                    self.i += 1
            elif t.startswith("#_", self.i):
                self.i += 2
                self.read()
            else:
                return

    EOF = object()

    def read(self, eof=None):
        self.skip()
        t = self.t
        if self.i >= len(t):
            if eof is not None:
                return eof
            self.error("EOF while reading")
        c = t[self.i]
        if c == "(":
            self.i += 1
            return plist(self.until(")"))
        if c == "[":
            self.i += 1
            return Vec(self.until("]"))
        if c == "{":
            self.i += 1
            xs = self.until("}")
            if len(xs) % 2:
                self.error("Map literal must contain an even number of forms")
            return self.unique(hash_map(*xs), len(xs) // 2)
        if c == '"':
            return self.string()
        if c == "'" and not self.edn:
            self.i += 1
            return plist([Symbol("quote"), self.read()])
        if c == "`" and not self.edn:
            self.i += 1
            return self.syntax_quote(self.read(), {})
        if c == "~" and not self.edn:
            self.i += 1
            if t.startswith("@", self.i):
                self.i += 1
                return plist([Symbol("clojure.core/unquote-splicing"), self.read()])
            return plist([Symbol("clojure.core/unquote"), self.read()])
        if c == "@" and not self.edn:
            self.i += 1
            return plist([Symbol("clojure.core/deref"), self.read()])
        if c == "^":
            self.i += 1
            m, x = self.read(), self.read()
            if type(m) is Keyword:
                m = hash_map(m, True)
            elif type(m) in (Symbol, str):
                m = hash_map(Keyword("tag"), m)
            if type(x) is Symbol:
                x = Symbol(x.name, m)
            elif type(x) in (Vec, PMap, PSet, Seq):
                x.meta = m if type(x.meta) is not PMap else conj1(x.meta, m)
            return x
        if c == "\\":
            m = re.compile(r"\\(newline|space|tab|return|backspace|formfeed|u[0-9a-fA-F]{4}|.)", re.S).match(t, self.i)
            self.i = m.end()
            k = m.group(1)
            return Char(CHARS.get(k) or (chr(int(k[1:], 16)) if len(k) == 5 else k))
        if c == "#":
            return self.dispatch()
        if c in ")]}":
            self.error("Unmatched delimiter: " + c)
        m = TOKEN.match(t, self.i)
        if not m:
            self.error("Invalid token at " + t[self.i:self.i + 10])
        self.i = m.end()
        return self.token(m.group())

    def unique(self, c, n):
        if len(c.d) != n:
            self.error("Duplicate key")
        return c

    def until(self, end):
        res = []
        while True:
            self.skip()
            if self.i >= len(self.t):
                self.error("EOF while reading")
            if self.t[self.i] == end:
                self.i += 1
                return res
            res.append(self.read())

    def string(self):
        m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(self.t, self.i)
        if not m:
            self.error("EOF while reading string")
        self.i = m.end()
        def sub(x):
            k = x.group(1)
            if len(k) == 5:
                return chr(int(k[1:], 16))
            if k not in "ntr\\\"bf":
                self.error("Unsupported escape character: \\" + k)
            return {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}.get(k, k)
        return re.sub(r"\\(u[0-9a-fA-F]{4}|.)", sub, m.group(1), flags=re.S)

    def dispatch(self):
        t = self.t
        n = t[self.i + 1:self.i + 2]
        if n == "{":
            self.i += 2
            xs = self.until("}")
            return self.unique(hash_set(*xs), len(xs))
        if n == '"' and not self.edn:
            m = re.compile(r'#"((?:[^"\\]|\\.)*)"', re.S).match(t, self.i)
            self.i = m.end()
            return Regex(m.group(1))
        if n == "(" and not self.edn:
            self.i += 1
            old, self.args = self.args, {}
            body = self.read()
            args, self.args = self.args, old
            top = max([k for k in args if k != "&"], default=0)
            ps = [args.get(k) or Symbol("p%d__%d#" % (k, gensym())) for k in range(1, top + 1)]
            return plist([Symbol("fn*"), Vec(ps + ([Symbol("&"), args["&"]] if "&" in args else [])), body])
        if n == "'" and not self.edn:
            self.i += 2
            return plist([Symbol("var"), self.read()])
        if n == "?":
            raise Unsupported("reader conditional")
        if n == "#":
            raise Unsupported("symbolic value")
        self.i += 1
        tag = self.read()
        x = self.read()
        if type(tag) is Symbol:
            f = get(self.readers, tag) if self.readers is not None else None
            if f is not None:
                return f(x)
            if tag.name in ("inst", "uuid"):
                raise Unsupported("tagged literal " + tag.name)
        self.error("No reader function for tag " + str1(tag))

    def token(self, s):
        if s in ("nil", "true", "false"):
            return {"nil": None, "true": True, "false": False}[s]
        if s[0] == ":":
            if s.startswith("::") and not self.edn:
                ns, _, name = s[2:].rpartition("/")
                return Keyword((self.env.alias(ns) if ns else self.env.name) + "/" + name)
            if len(s) < 2 or s.endswith(":"):
                self.error("Invalid token: " + s)
            return Keyword(s[1:])
        if s[0].isdigit() or (s[0] in "+-" and s[1:2].isdigit()):
            if re.fullmatch(r"[+-]?(0|[1-9]\d*)N?", s):
                return int(s.rstrip("N"))
            if re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?M", s):
                return norm(Decimal(s[:-1]))
            if re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?", s):
                return float(s)
            self.error("Invalid number: " + s)
        if s[0] == "%" and self.args is not None and not self.edn:
            k = "&" if s == "%&" else int(s[1:] or 1)
            if k not in self.args:
                self.args[k] = Symbol("p%s__%d#" % (k if k != "&" else "rest", gensym()))
            return self.args[k]
        return Symbol(s)

    def syntax_quote(self, x, syms):
        q = lambda *a: plist([Symbol("clojure.core/" + a[0])] + list(a[1:]))
        t = type(x)
        if t is Symbol:
            n = x.name
            if n.endswith("#"):
                n = syms.setdefault(n, "%s__%d__auto__" % (n[:-1], gensym()))
            elif n not in SPECIAL and "/" not in n and not n.startswith(".") and not n.endswith(".") and n != "&":
                n = self.env.qualify(n)
            elif "/" in n and len(n) > 1:
                a, _, b = n.partition("/")
                n = self.env.alias(a, a) + "/" + b
            return plist([Symbol("quote"), Symbol(n)])
        if t is Seq:
            xs = list(it(x))
            if xs and type(xs[0]) is Symbol and xs[0].name == "clojure.core/unquote":
                return xs[1]
            return q("seq", q("concat", *self.parts(xs, syms)))
        if t is Vec:
            return q("vec", q("concat", *self.parts(x.l, syms)))
        if t is PMap:
            return q("apply", Symbol("clojure.core/hash-map"), q("concat", *self.parts([y for e in x.d.values() for y in e], syms)))
        if t is PSet:
            return q("set", q("concat", *self.parts(list(it(x)), syms)))
        return x

    def parts(self, xs, syms):
        res = []
        for x in xs:
            if type(x) is Seq and type(first(x)) is Symbol and first(x).name == "clojure.core/unquote-splicing":
                res.append(list(it(x))[1])
            else:
                res.append(plist([Symbol("clojure.core/list"), self.syntax_quote(x, syms)]))
        return res


_gensym = [0]


def gensym():
    _gensym[0] += 1
    return _gensym[0]


def norm(d):
    """there is no negative zero in Java"""
    return d.copy_abs() if d.is_zero() else d


def first(x):
    if x is None:
        return None
    t = type(x)
    if t is Vec:
        return x.l[0] if x.l else None
    s = seq(x)
    return None if s is None else s.buf[s.i]


def rest(x):
    s = seq(x)
    return plist() if s is None else s.rest()


# ---------------------------------------------------------------- namespaces
class Ns:
    def __init__(self, name):
        self.name, self.vars, self.aliases, self.refers, self.imports, self.excluded = name, {}, {}, {}, {}, set()

    def alias(self, a, default=None):
        if a in self.aliases:
            return self.aliases[a]
        if default is not None or a in NSS:
            return a if a in NSS else default
        throw("RuntimeException", "No such namespace: " + a)

    def intern(self, name, v=None):
        if name not in self.vars:
            self.vars[name] = Var(self.name, name)
        x = self.vars[name]
        if v is not None:
            x.v, x.bound = v, True
        return x

    def find(self, sym):
        """the var a symbol means here"""
        if "/" in sym and sym != "/":
            a, _, n = sym.partition("/")
            a = self.aliases.get(a, a)
            if a == self.name or a in NSS:
                return NSS[a].vars.get(n) or extra(a, n)
            return None
        if sym in self.vars:
            return self.vars[sym]
        if sym in self.refers:
            return self.refers[sym]
        return extra(self.name, sym) or (None if sym in self.excluded else NSS["clojure.core"].vars.get(sym) or extra("clojure.core", sym))

    def qualify(self, n):
        v = self.find(n)
        return "%s/%s" % (v.ns, v.name) if v else n if n in self.imports or n in CLASSES else "%s/%s" % (self.name, n)


EXTRA = {}


def extra(ns, name):
    """the var of a function of cljextra.clj, which is only compiled when it is used"""
    if not EXTRA:
        EXTRA[""] = None
        r = Reader(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cljextra.clj"), encoding="utf8").read(), NSS["clojure.core"])
        into = None
        while True:
            x = r.read(Reader.EOF)
            if x is Reader.EOF:
                break
            l = list(it(x))
            if l[0].name == "in-ns":
                into = r.env = ns_of(l[1].name)
            else:
                EXTRA[into.name, l[1].name] = x
    x = EXTRA.pop((ns, name), None)
    if x is None:
        return None
    NSS[ns].intern(name).bound = True
    old = NS.v
    NS.v = NSS[ns]
    try:
        evaluate(x)
    finally:
        NS.v = old
    return NSS[ns].vars.get(name)


NSS = {}
CLASSES = {}
SPECIAL = {"def", "if", "do", "let*", "fn*", "quote", "var", "throw", "try", "catch", "finally", "loop*", "recur", "new", ".", "set!", "&"}
PRINT = None
PATHS = []


def ns_of(name):
    if name not in NSS:
        NSS[name] = Ns(name)
    return NSS[name]


LOADED = set()


def not_here(what):
    raise Unsupported(what)


def load_ns(name):
    if name in BUILTIN or name in LOADED:
        return NSS[name]
    rel = name.replace("-", "_").replace(".", "/") + ".clj"
    for p in PATHS:
        f = os.path.join(p, rel)
        if os.path.isfile(f):
            old = NS.v
            try:
                load_text(open(f, encoding="utf8").read(), Ns("user-"))
            finally:
                NS.v = old
            if name not in NSS:
                throw("Exception", "namespace '%s' not found after loading" % name)
            LOADED.add(name)
            return NSS[name]
    throw("FileNotFoundException", "Could not locate %s on classpath." % rel)


def load_text(text, ns=None):
    if ns is not None:
        NS.v = ns
    r = Reader(text, NS.v)
    res = None
    while True:
        r.env = NS.v
        x = r.read(Reader.EOF)
        if x is Reader.EOF:
            return res
        res = evaluate(x)


# ---------------------------------------------------------------- compiler
class Scope:
    def __init__(self, parent=None):
        self.names, self.parent = {}, parent

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.parent


class Fn:
    """lines of a Python function which is written"""
    def __init__(self, indent, recur=None):
        self.lines, self.ind, self.recur = [], indent, recur

    def add(self, s):
        self.lines.append("  " * self.ind + s)


def conditions(body):
    """a body with its conditions checked"""
    m = body[0] if len(body) > 1 else None
    if type(m) is not PMap or not all(k.v in (Keyword("pre"), Keyword("post")) for k in m.d) or not m.d:
        return body
    checks = lambda k: [plist([Symbol("clojure.core/assert"), x]) for x in it(get(m, Keyword(k)))]
    if get(m, Keyword("post")) is not None:
        body = [None, plist([Symbol("let*"), Vec([Symbol("%"), plist([Symbol("do")] + list(body[1:]))])] + checks("post") + [Symbol("%")])]
    return checks("pre") + list(body[1:])


class Compiler:
    def __init__(self):
        self.g = {"NSS": NSS, "truth": truth, "Thrown": Thrown, "java_error": java_error, "is_a": is_a, "Recur": Recur, "Unsupported": Unsupported,
                  "Vec": Vec, "hash_map": hash_map, "hash_set": hash_set, "plist": plist, "Decimal": Decimal}
        self.ids = {}

    def const(self, x):
        n = "k%d" % gensym()
        self.g[n] = x
        return n

    def var(self, v):
        k = self.ids.get(id(v))
        if k is None:
            k = self.ids[id(v)] = "v%d" % gensym()
            self.g[k] = v
        return k

    def tmp(self):
        return "t%d" % gensym()

    # ---- forms
    def emit(self, x, sc, fn, tail=False):
        """code which computes x is added to fn; the result is its name"""
        t = type(x)
        if t in (Vec, PMap, PSet) and type(x.meta) is PMap and any(k.v not in (Keyword("tag"), Keyword("line"), Keyword("type")) for k in x.meta.d):
            self.g["with_meta"] = cljcore.with_meta
            m = self.emit(x.meta, sc, fn)
            y = self.emit(type(x)(x.l if t is Vec else x.d), sc, fn)
            r = self.tmp()
            fn.add("%s = with_meta(%s, %s)" % (r, y, m))
            return r
        if x is None or t is bool:
            return repr(x)
        if t is int:
            return repr(x)
        if t is Symbol:
            return self.symbol(x, sc, fn)
        if t is Vec:
            a = [self.emit(y, sc, fn) for y in x.l]
            r = self.tmp()
            fn.add("%s = Vec([%s])" % (r, ", ".join(a)))
            return r
        if t is PMap:
            a = [self.emit(y, sc, fn) for e in x.d.values() for y in e]
            r = self.tmp()
            fn.add("%s = hash_map(%s)" % (r, ", ".join(a)))
            return r
        if t is PSet:
            a = [self.emit(y, sc, fn) for y in it(x)]
            r = self.tmp()
            fn.add("%s = hash_set(%s)" % (r, ", ".join(a)))
            return r
        if t is Seq:
            xs = list(it(x))
            return self.list(xs, x, sc, fn, tail) if xs else self.const(plist())
        return self.const(x)

    def symbol(self, x, sc, fn):
        n = x.name
        l = sc.find(n)
        if l is not None:
            return l
        v = NS.v.find(n)
        if v is not None:
            if v.macro:
                throw("RuntimeException", "Can't take value of a macro: " + n)
            if not v.bound and v.v is None and v.ns == "clojure.core":
                return self.later(n, fn)
            r = self.tmp()
            fn.add("%s = %s.v" % (r, self.var(v)))
            return r
        if "/" in n and n != "/":
            a, _, b = n.partition("/")
            c = self.cls(a)
            if c and b in STATICS.get(c, {}):
                f = STATICS[c][b]
                return self.const(f)
            if c:
                return self.later("static %s" % n, fn)
            if a in NS.v.aliases or a in NSS:
                m = NSS.get(NS.v.aliases.get(a, a))
                if m is not None and m.name in BUILTIN:
                    return self.later(n, fn)
                throw("RuntimeException", "No such var: " + n)
        c = self.cls(n)
        if c:
            return self.const(CLASSES[c])
        if n in KNOWN_CORE:
            return self.later("clojure.core/" + n, fn)
        throw("RuntimeException", "Unable to resolve symbol: %s in this context" % n)

    def later(self, what, fn):
        """what this interpreter lacks is only missed when it is run"""
        self.g["not_here"] = not_here
        r = self.tmp()
        fn.add("%s = not_here(%r)" % (r, what))
        return r

    def cls(self, n):
        c = NS.v.imports.get(n, n)
        return c if c in CLASSES else None

    def list(self, xs, form, sc, fn, tail):
        h = xs[0]
        if type(h) is Symbol and sc.find(h.name) is None:
            n = h.name
            v = NS.v.find(n)
            if v is not None and v.macro:
                return self.emit(v.v(form, sc, *xs[1:]) if v.macro == "py" else v.v(*xs[1:]), sc, fn, tail)
            if v is None or v.ns == "clojure.core":
                s = getattr(self, "s_" + {"fn*": "fn", "let*": "let", "loop*": "loop", "set!": "set", ".": "dot", "try": "try_"}.get(n, n).replace("-", "_"), None)
                if s and n in SPECIAL:
                    return s(xs, sc, fn, tail)
            if v is None:
                if n.startswith(".") and len(n) > 1 and n != "..":
                    return self.method(n[1:], xs[1], xs[2:], sc, fn)
                if n.endswith(".") and len(n) > 1:
                    return self.s_new([None, Symbol(n[:-1])] + xs[1:], sc, fn, tail)
        f = self.emit(h, sc, fn)
        a = [self.emit(y, sc, fn) for y in xs[1:]]
        r = self.tmp()
        fn.add("%s = %s(%s)" % (r, f, ", ".join(a)))
        return r

    def body(self, xs, sc, fn, tail):
        r = "None"
        for i, y in enumerate(xs):
            r = self.emit(y, sc, fn, tail and i == len(xs) - 1)
        return r

    def method(self, name, obj, args, sc, fn):
        o = self.emit(obj, sc, fn)
        a = [self.emit(y, sc, fn) for y in args]
        r = self.tmp()
        self.g["invoke_method"] = invoke_method
        fn.add("%s = invoke_method(%r, %s)" % (r, name, ", ".join([o] + a)))
        return r

    def s_dot(self, xs, sc, fn, tail):
        m = xs[2]
        if type(m) is Seq:
            l = list(it(m))
            return self.method(l[0].name, xs[1], l[1:], sc, fn)
        return self.method(m.name, xs[1], xs[3:], sc, fn)

    def s_new(self, xs, sc, fn, tail):
        c = self.cls(xs[1].name)
        if c is None or "new" not in STATICS.get(c, {}):
            if c is None and xs[1].name not in SUPERS:
                raise Unsupported("new " + xs[1].name)
            c = c or xs[1].name
            f = STATICS.get(c, {}).get("new")
            if f is None:
                raise Unsupported("new " + xs[1].name)
        f = self.const(STATICS[c]["new"])
        a = [self.emit(y, sc, fn) for y in xs[2:]]
        r = self.tmp()
        fn.add("%s = %s(%s)" % (r, f, ", ".join(a)))
        return r

    def s_quote(self, xs, sc, fn, tail):
        return self.const(xs[1])

    def s_var(self, xs, sc, fn, tail):
        v = NS.v.find(xs[1].name)
        if v is None:
            throw("RuntimeException", "Unable to resolve var: " + xs[1].name)
        return self.var(v)

    def s_do(self, xs, sc, fn, tail):
        return self.body(xs[1:], sc, fn, tail)

    def s_if(self, xs, sc, fn, tail):
        c = self.emit(xs[1], sc, fn)
        r = self.tmp()
        fn.add("if %s is not None and %s is not False:" % (c, c))
        for k, y in ((0, xs[2]), (1, xs[3] if len(xs) > 3 else None)):
            if k:
                fn.add("else:")
            fn.ind += 1
            v = self.emit(y, sc, fn, tail)
            fn.add("%s = %s" % (r, v))
            fn.ind -= 1
        return r

    def s_def(self, xs, sc, fn, tail):
        sym = xs[1]
        v = NS.v.intern(sym.name)
        m = sym.meta
        if m is not None:
            if truth(get(m, Keyword("dynamic"))):
                v.dynamic = True
            if truth(get(m, Keyword("macro"))):
                v.macro = "clj"
        val = xs[-1] if len(xs) > 2 else None
        n = self.var(v)
        if len(xs) > 2:
            e = self.emit(val, sc, fn)
            fn.add("%s.v = %s" % (n, e))
            fn.add("%s.bound = True" % n)
        return n

    def s_let(self, xs, sc, fn, tail):
        sc = Scope(sc)
        b = xs[1].l
        for i in range(0, len(b), 2):
            self.bind(b[i], self.emit(b[i + 1], sc, fn), sc, fn)
        return self.body(xs[2:], sc, fn, tail)

    def bind(self, pat, val, sc, fn):
        """destructuring"""
        t = type(pat)
        if t is Symbol:
            n = self.tmp()
            fn.add("%s = %s" % (n, val))
            sc.names[pat.name.rpartition("/")[2] if len(pat.name) > 1 else pat.name] = n
        elif t is Vec:
            self.g.update(nth_=nth_, drop_=drop_, seq=seq)
            k, l, i = 0, pat.l, 0
            while i < len(l):
                if type(l[i]) is Symbol and l[i].name == "&":
                    n = self.tmp()
                    fn.add("%s = seq(drop_(%d, %s))" % (n, k, val))
                    self.bind(l[i + 1], n, sc, fn)
                    i += 2
                elif type(l[i]) is Keyword and l[i].name == "as":
                    self.bind(l[i + 1], val, sc, fn)
                    i += 2
                else:
                    n = self.tmp()
                    fn.add("%s = nth_(%s, %d)" % (n, val, k))
                    self.bind(l[i], n, sc, fn)
                    k += 1
                    i += 1
        elif t is PMap:
            self.g.update(get=get, as_map=as_map)
            m = self.tmp()
            fn.add("%s = as_map(%s)" % (m, val))
            ors = get(pat, Keyword("or"))
            def one(sym, key):
                n = self.tmp()
                d = "None"
                ent = ors.d.get(Key(Symbol(sym.name))) if ors is not None and type(sym) is Symbol else None
                if ent is not None:
                    c = self.tmp()
                    self.g["contains"] = contains
                    fn.add("if contains(%s, %s):" % (m, key))
                    fn.ind += 1
                    fn.add("%s = get(%s, %s)" % (n, m, key))
                    fn.ind -= 1
                    fn.add("else:")
                    fn.ind += 1
                    fn.add("%s = %s" % (n, self.emit(ent[1], sc, fn)))
                    fn.ind -= 1
                else:
                    fn.add("%s = get(%s, %s, %s)" % (n, m, key, d))
                self.bind(sym, n, sc, fn)
            for a, b in pat.d.values():
                if type(a) is Keyword and a.name.rpartition("/")[2] in ("keys", "strs", "syms") and a.name not in ("or", "as"):
                    pre, _, kind = a.name.rpartition("/")
                    for s in b.l:
                        full = s.name if type(s) in (Symbol, Keyword) else s
                        base = full.rpartition("/")[2]
                        key = (pre + "/" + base) if pre else full
                        one(Symbol(base), self.const(Keyword(key) if kind == "keys" else base if kind == "strs" else Symbol(key)))
                elif type(a) is Keyword and a.name == "as":
                    self.bind(b, val, sc, fn)
                elif type(a) is Keyword and a.name == "or":
                    pass
                else:
                    one(a, self.emit(b, sc, fn))
        else:
            raise Unsupported("binding form " + pr_str(pat))

    def s_loop(self, xs, sc, fn, tail):
        b = xs[1].l
        sc = Scope(sc)
        pats, vals = [], []
        for i in range(0, len(b), 2):
            v = self.emit(b[i + 1], sc, fn)
            vals.append(v)
            pats.append(b[i])
            self.bind(b[i], v, sc, fn)
        f = self.function([Symbol("%")], Vec(pats), xs[2:], sc, fn, loop=True)
        r = self.tmp()
        fn.add("%s = %s(%s)" % (r, f, ", ".join(vals)))
        return r

    def s_recur(self, xs, sc, fn, tail):
        a = [self.emit(y, sc, fn) for y in xs[1:]]
        fn.recur[0] = True
        r = self.tmp()
        fn.add("%s = Recur(%s)" % (r, ", ".join(a)))
        return r

    def function(self, names, params, body, sc, fn, loop=False):
        """one arity; its Python name"""
        name = "f%d" % gensym()
        inner = Scope(sc)
        rec = [False]
        out = Fn(fn.ind + 1, rec)
        ps, l = [], params.l
        pre = []
        i = 0
        variadic = False
        while i < len(l):
            if type(l[i]) is Symbol and l[i].name == "&":
                a = self.tmp()
                ps.append(("*", a))
                pre.append((l[i + 1], a))
                variadic = True
                i += 2
            else:
                a = self.tmp()
                ps.append(("", a))
                pre.append((l[i], a))
                i += 1
        for pat, a in pre:
            if type(pat) is Symbol:
                inner.names[pat.name] = a
            else:
                self.bind(pat, a, inner, out)
        r = self.body(body, inner, out, True)
        out.add("return %s" % r)
        if rec[0]:
            fn.add("def %s_b(%s):" % (name, ", ".join(a for _, a in ps)))
            fn.lines += out.lines
            fn.add("def %s(%s):" % (name, ", ".join(s + a for s, a in ps)))
            fn.ind += 1
            if variadic:
                fn.add("%s = plist(%s) if %s else None" % (ps[-1][1], ps[-1][1], ps[-1][1]))
            args = "(" + "".join(a + ", " for _, a in ps) + ")"
            w = self.tmp()
            fn.add("%s = %s" % (w, args))
            fn.add("while True:")
            fn.ind += 1
            q = self.tmp()
            fn.add("%s = %s_b(*%s)" % (q, name, w))
            fn.add("if type(%s) is not Recur: return %s" % (q, q))
            fn.add("%s = %s.a" % (w, q))
            fn.ind -= 2
        else:
            fn.add("def %s(%s):" % (name, ", ".join(s + a for s, a in ps)))
            fn.ind += 1
            if variadic:
                fn.add("%s = plist(%s) if %s else None" % (ps[-1][1], ps[-1][1], ps[-1][1]))
            fn.ind -= 1
            fn.lines += out.lines
        self.last = (len(ps) - variadic, variadic)
        return name

    def s_fn(self, xs, sc, fn, tail):
        xs = xs[1:]
        sc = Scope(sc)
        self_name = None
        if xs and type(xs[0]) is Symbol:
            self_name = "f%d" % gensym()
            sc.names[xs[0].name] = self_name
            xs = xs[1:]
        arities = [xs] if type(xs[0]) is Vec else [list(it(x)) for x in xs]
        fs = []
        for a in arities:
            f = self.function([], a[0], conditions(a[1:]), sc, fn)
            fs.append((f,) + self.last)
        if len(fs) == 1:
            r = fs[0][0]
            if self_name:
                fn.add("%s = %s" % (self_name, r))
            return r
        r = self_name or "f%d" % gensym()
        fn.add("def %s(*a):" % r)
        fn.ind += 1
        fn.add("n = len(a)")
        for f, n, va in fs:
            if not va:
                fn.add("if n == %d: return %s(*a)" % (n, f))
        for f, n, va in fs:
            if va:
                fn.add("if n >= %d: return %s(*a)" % (n, f))
        fn.add("raise Thrown('ArityException', 'Wrong number of args (%d)' % n)")
        fn.ind -= 1
        return r

    def s_throw(self, xs, sc, fn, tail):
        e = self.emit(xs[1], sc, fn)
        fn.add("raise %s" % e)
        return "None"

    def s_try_(self, xs, sc, fn, tail):
        body, catches, fin = [], [], None
        for x in xs[1:]:
            h = first(x) if type(x) is Seq else None
            if type(h) is Symbol and h.name == "catch":
                catches.append(list(it(x)))
            elif type(h) is Symbol and h.name == "finally":
                fin = list(it(x))[1:]
            else:
                body.append(x)
        r = self.tmp()
        fn.add("try:")
        fn.ind += 1
        fn.add("%s = %s" % (r, self.body(body, sc, fn, False)))
        fn.ind -= 1
        if catches:
            e = self.tmp()
            fn.add("except Exception as %s_:" % e)
            fn.ind += 1
            fn.add("%s = java_error(%s_)" % (e, e))
            for k, c in enumerate(catches):
                name = c[1].name.rpartition(".")[2]
                if name not in SUPERS:
                    raise Unsupported("catch " + name)
                fn.add("%s is_a(%s, %r):" % ("elif" if k else "if", e, name))
                fn.ind += 1
                s2 = Scope(sc)
                s2.names[c[2].name] = e
                fn.add("%s = %s" % (r, self.body(c[3:], s2, fn, False)))
                fn.ind -= 1
            fn.add("else: raise")
            fn.ind -= 1
        if fin is not None:
            fn.add("finally:")
            fn.ind += 1
            self.body(fin, sc, fn, False)
            fn.add("pass")
            fn.ind -= 1
        elif not catches:
            fn.add("finally: pass")
        return r

    def s_set(self, xs, sc, fn, tail):
        if type(xs[1]) is Symbol and xs[1].name in ("*warn-on-reflection*", "*unchecked-math*"):
            return "None"
        raise Unsupported("set!")


COMP = None


def evaluate(x):
    global COMP
    if COMP is None:
        COMP = Compiler()
    # a do at the top is done form by form
    if type(x) is Seq and type(first(x)) is Symbol and first(x).name == "do":
        r = None
        for y in it(rest(x)):
            r = evaluate(y)
        return r
    fn = Fn(1)
    r = COMP.emit(x, Scope(), fn)
    src = "def top():\n" + "\n".join(fn.lines) + "\n  return %s\n" % r
    d = COMP.g
    exec(compile(src, "<clj>", "exec"), d)
    return d["top"]()


# ---------------------------------------------------------------- help for generated code
def nth_(c, k):
    if c is None:
        return None
    t = type(c)
    if t is Vec:
        return c.l[k] if k < len(c.l) else None
    if t is str:
        return Char(c[k]) if k < len(c) else None
    if t is Seq:
        s = Seq(c.buf, c.src, c.i + k)
        return s.buf[s.i] if s.has() else None
    throw("UnsupportedOperationException", "nth not supported on this type: " + type_name(c))


def drop_(k, c):
    if type(c) is Vec:
        return Seq(c.l, None, k)
    s = seq(c)
    for _ in range(k):
        if s is None:
            return None
        s = seq(s.rest())
    return s


def as_map(x):
    if type(x) is Seq:
        xs = list(it(x))
        if len(xs) == 1 and type(xs[0]) is PMap:
            return xs[0]
        if len(xs) % 2:
            if type(xs[-1]) is PMap:
                return conj1(hash_map(*xs[:-1]), xs[-1])
            throw("IllegalArgumentException", "No value supplied for key")
        return hash_map(*xs)
    return x


def contains(c, k):
    t = type(c)
    if c is None:
        return False
    if t in (PMap, PSet):
        return Key(k) in c.d
    if t is Vec:
        return type(k) is int and 0 <= k < len(c.l)
    if t is Transient:
        return contains(c.c, k)
    if t is str:
        return type(k) is int and 0 <= k < len(c)
    throw("IllegalArgumentException", "contains? not supported on type: " + type_name(c))


def into_list(xf, coll):
    l = []
    def rf(*a):
        if len(a) == 2:
            l.append(a[1])
            return a[0]
        return a[0] if a else None
    f = xf(rf)
    acc = None
    for x in it(coll):
        acc = f(acc, x)
        if type(acc) is Reduced:
            acc = acc.v
            break
    f(acc)
    return l


NS = Var("clojure.core", "*ns*", Ns("user"))
OUT = Var("clojure.core", "*out*", Obj("fd", f=sys.stdout))
ERR = Var("clojure.core", "*err*", Obj("fd", f=sys.stderr))
METHODS, STATICS, BUILTIN, KNOWN_CORE = {}, {}, set(), set()


def invoke_method(name, o, *a):
    own = o.impl.get(name) if type(o) is Obj and hasattr(o, "impl") else None
    if own is not None:
        return own(o, *a)
    if name.startswith("-"):
        name = name[1:]
        if type(o) is PMap and o.rec is not None and not a:
            return get(o, Keyword(name))
    if not a and type(o) is Obj and name in getattr(o, "fields", {}):
        return o.fields[name]
    if not a and type(o) is PMap and o.rec is not None and name in o.rec.names:
        return get(o, Keyword(name))
    f = METHODS.get(name)
    if f is None:
        raise Unsupported("method ." + name)
    if o is None:
        throw("NullPointerException", "Cannot invoke %s on null" % name)
    return f(o, *a)


import cljcore  # noqa: E402  (fills the namespaces)
import cljmore  # noqa: E402
