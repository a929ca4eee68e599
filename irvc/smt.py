"""Values, arithmetic with constant folding, interval analysis, quick (rlimit-bounded) z3 queries."""
import z3
from fractions import Fraction

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The executor cannot interpret something: the proof is undecided (never a violation)."""


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.obj.name if self.obj else "null", self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ("name", "handler")

    def __init__(self, name, handler=None):
        self.name, self.handler = name, handler

    def __repr__(self):
        return "Fn(%s)" % self.name


class PtrInt:
    __slots__ = ("ptr",)

    def __init__(self, p):
        self.ptr = p

    def __repr__(self):
        return "PtrInt(%r)" % self.ptr


class NegPtr:
    """minus the address of `ptr`, as an integer"""
    __slots__ = ("ptr",)

    def __init__(self, p):
        self.ptr = p

    def __repr__(self):
        return "NegPtr(%r)" % self.ptr


class Bits:
    """A value of one type seen as an integer of the same width (memcpy lowered to i64 load/store)."""
    __slots__ = ("val", "ty")

    def __init__(self, v, ty):
        self.val, self.ty = v, ty


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return "Agg%r" % (self.v,)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def isc(x):
    return isinstance(x, (int, Fraction, bool))


def Z(x):
    """python const -> z3 (bool, int or real by python type)"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return x


def ZR(x):
    if isinstance(x, bool):
        raise Unsupported("bool as real")
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    return x


# ---- booleans
def bnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a) if not z3.is_not(a) else a.arg(0)


def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        r.append(x)
    return True if not r else (r[0] if len(r) == 1 else z3.And(*r))


def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        r.append(x)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return z3.If(c, ZR(a), ZR(b))
    za, zb = Z(a), Z(b)
    if za.eq(zb):
        return a
    return z3.If(c, za, zb)


# ---- integers
_lin_cache = {}


def linearize(e):
    """z3 Int expr -> (const, {id: (expr, coeff)})"""
    if isinstance(e, int):
        return e, {}
    k = e.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[2].eq(e):
        return r[0], r[1]
    c, d = 0, {}

    def add(e, m):
        nonlocal c
        if z3.is_int_value(e):
            c += m * e.as_long()
            return
        dk = e.decl().kind()
        if dk == z3.Z3_OP_ADD:
            for ch in e.children():
                add(ch, m)
            return
        if dk == z3.Z3_OP_SUB:
            ch = e.children()
            add(ch[0], m)
            for x in ch[1:]:
                add(x, -m)
            return
        if dk == z3.Z3_OP_UMINUS:
            add(e.arg(0), -m)
            return
        if dk == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2:
                if z3.is_int_value(ch[0]):
                    add(ch[1], m * ch[0].as_long())
                    return
                if z3.is_int_value(ch[1]):
                    add(ch[0], m * ch[1].as_long())
                    return
        i = e.get_id()
        if i in d:
            n = d[i][1] + m
            if n == 0:
                del d[i]
            else:
                d[i] = (e, n)
        else:
            d[i] = (e, m)
    add(e, 1)
    _lin_cache[k] = (c, d, e)
    return c, d


def delin(c, d):
    if not d:
        return c
    ts = []
    for e, k in d.values():
        ts.append(e if k == 1 else e * k)
    if c != 0:
        ts.append(z3.IntVal(c))
    r = ts[0]
    if len(ts) > 1:
        r = z3.Sum(*ts) if len(ts) > 2 else ts[0] + ts[1]
    return r


def lin_norm(e):
    if isinstance(e, int):
        return e
    c, d = linearize(e)
    return delin(c, d)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return lin_norm(Z(a) + Z(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return lin_norm(Z(a) - Z(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        c, d = linearize(a)
        return delin(c * b, {k: (e, m * b) for k, (e, m) in d.items()})
    return a * b


def lin_div(e, k):
    """exact division of a linear form by k, or None"""
    if isinstance(e, int):
        return e // k if e % k == 0 else None
    c, d = linearize(e)
    if c % k or any(m % k for _, m in d.values()):
        return None
    return delin(c // k, {i: (x, m // k) for i, (x, m) in d.items()})


def cmp_i(p, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
    d = isub(a, b)
    if isinstance(d, int):
        return cmp_i(p, d, 0)
    a, b = Z(a), Z(b)
    return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
            "gt": lambda: a > b, "ge": lambda: a >= b}[p]()


# ---- reals
def _r2(a, b, f, g):
    if isc(a) and isc(b):
        return f(Fraction(a), Fraction(b))
    return g(ZR(a), ZR(b))


def radd(a, b):
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return _r2(a, b, lambda x, y: x + y, lambda x, y: x + y)


def rsub(a, b):
    if isc(b) and b == 0:
        return a
    return _r2(a, b, lambda x, y: x - y, lambda x, y: x - y)


def rmul(a, b):
    if isc(a) and isc(b):
        return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    a, b = ZR(a), ZR(b)
    if a.eq(b) and z3.is_app(a) and a.decl().name() == "m.sqrt" and nonneg(a.arg(0)):
        return a.arg(0)
    return a * b


def nonneg(x):
    """a sum of squares and non-negative constants, as written"""
    if z3.is_rational_value(x):
        return x.as_fraction() >= 0
    if z3.is_add(x):
        return all(nonneg(c) for c in x.children())
    if z3.is_mul(x):
        cs = x.children()
        return len(cs) == 2 and (cs[0].eq(cs[1]) or nonneg(cs[0]) and nonneg(cs[1]))
    return z3.is_app(x) and x.decl().name() in ("m.fabs",)


def rdiv(a, b):
    if isc(b) and b != 0:
        if isc(a):
            return Fraction(a) / Fraction(b)
        if b == 1:
            return a
        return rmul(a, 1 / Fraction(b))
    return ZR(a) / ZR(b)


def rneg(a):
    if isc(a):
        return -Fraction(a)
    return -a


def cmp_r(p, a, b):
    if isc(a) and isc(b):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
    a, b = ZR(a), ZR(b)
    if a.eq(b):
        return p in ("eq", "le", "ge")
    return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
            "gt": lambda: a > b, "ge": lambda: a >= b}[p]()


# ---- intervals of Int expressions
class Ranges:
    def __init__(self):
        self.var = {}   # ast id -> (expr, lo, hi)

    def set(self, e, lo, hi):
        self.var[e.get_id()] = (e, lo, hi)

    def of(self, e, depth=0):
        if isinstance(e, int):
            return e, e
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        r = self.var.get(e.get_id())
        if r is not None:
            return r[1], r[2]
        if depth > 40:
            return None, None
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            lo, hi = self.of(ch[0], depth + 1)
            for x in ch[1:]:
                l, h = self.of(x, depth + 1)
                if k == z3.Z3_OP_SUB:
                    l, h = (None if h is None else -h), (None if l is None else -l)
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h is None else hi + h
            return lo, hi
        if k == z3.Z3_OP_UMINUS:
            l, h = self.of(ch[0], depth + 1)
            return (None if h is None else -h), (None if l is None else -l)
        if k == z3.Z3_OP_MUL:
            lo, hi = self.of(ch[0], depth + 1)
            for x in ch[1:]:
                l, h = self.of(x, depth + 1)
                if None in (lo, hi, l, h):
                    return None, None
                ps = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(ps), max(ps)
            return lo, hi
        if k == z3.Z3_OP_ITE:
            a, b = self.of(ch[1], depth + 1), self.of(ch[2], depth + 1)
            lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
            hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
            return lo, hi
        if k in (z3.Z3_OP_MOD,) and z3.is_int_value(ch[1]):
            return 0, ch[1].as_long() - 1
        if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            l, h = self.of(ch[0], depth + 1)
            m = ch[1].as_long()
            return (None if l is None else l // m), (None if h is None else h // m)
        return None, None


def has_quant(e, _c={}):
    i = e.get_id()
    r = _c.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    st, seen, res = [e], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _c[i] = (e, res)
    return res


class Quick:
    """Bounded queries used to prune paths and to rule out wrap-around. 'unknown' is never used as an answer."""

    def __init__(self, rlimit=400000):
        self.rl = rlimit
        self.cache = {}
        self.n = 0
        self.keep = []

    def check(self, fs, quant=False, rl=None):
        qs = [f for f in fs if not isinstance(f, bool)]
        if any(f is False for f in fs):
            return z3.unsat
        if not quant:
            qs = [f for f in qs if not has_quant(f)]
        key = (quant, frozenset(f.get_id() for f in qs), rl)
        r = self.cache.get(key)
        if r is not None:
            return r
        self.n += 1
        s = z3.Solver()
        s.set("rlimit", rl or self.rl)
        s.set("timeout", 15000)
        for f in qs:
            s.add(f)
        r = s.check()
        self.cache[key] = r
        self.keep.append(qs)
        return r

    def valid(self, pc, g, quant=False, rl=None):
        if isinstance(g, bool):
            if g:
                return True
            return self.check(pc, quant, rl) == z3.unsat
        return self.check(list(pc) + [z3.Not(g)], quant, rl) == z3.unsat

    def feasible(self, pc):
        return self.check(pc) != z3.unsat
