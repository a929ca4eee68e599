"""Contract of the matrix operations declared in units/stubs/algebra/Eigen/Core.

A matrix is a value (an integer name); operations are uninterpreted functions of values, put in a normal form of the
ring of matrices (sums of products, identity and zero removed, transposes pushed to the factors), so that two expressions
that are equal in every such ring get the same term.  Shapes are obligations.  Elements: EL(m, i, j)."""
import re
import z3
from smt import *
import models

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def F(name, *s):
    return z3.Function("mat." + name, *s)


ROWS, COLS = F("rows", IntS, IntS), F("cols", IntS, IntS)
EL = F("el", IntS, IntS, IntS, RealS)
ADD, MUL = F("add", IntS, IntS, IntS), F("mul", IntS, IntS, IntS)
SCALE, TR, INV = F("scale", RealS, IntS, IntS), F("tr", IntS, IntS), F("inv", IntS, IntS)
ZERO, IDENT, CONST = F("zero", IntS, IntS, IntS), F("ident", IntS, IntS, IntS), F("const", IntS, IntS, RealS, IntS)
BLK, SETB = F("block", IntS, IntS, IntS, IntS, IntS, IntS), F("setblock", IntS, IntS, IntS, IntS, IntS)
SETEL = F("setel", IntS, IntS, IntS, RealS, IntS)
DOT, SUM = F("dot", IntS, IntS, RealS), F("sum", IntS, RealS)
ABS, ISNAN, ISINF = F("abs", IntS, IntS), F("isnan", IntS, IntS), F("isinf", IntS, IntS)
CMP = [F("cmp%d" % i, IntS, RealS, IntS) for i in range(5)]
ANY, ALL = F("any", IntS, BoolS), F("all", IntS, BoolS)
EIG, EIGV, ASDIAG, DIAG = F("eigenvalues", IntS, IntS), F("eigenvectors", IntS, IntS), F("asdiagonal", IntS, IntS), F("diagonal", IntS, IntS)
CWMUL, SHIFT = F("cwmul", IntS, IntS, IntS), F("shift", IntS, RealS, IntS)
QMAKE, QMUL, QCONJ = F("q", RealS, RealS, RealS, RealS, IntS), F("qmul", IntS, IntS, IntS), F("qconj", IntS, IntS)
QNORM, QOF, QMAT, QVEC, QCOEFFS = (F(n, IntS, IntS) for n in ("qnormalized", "qof", "qmatrix", "qvec", "qcoeffs"))
QEL = F("qel", IntS, IntS, RealS)
AAMAT, TMAT = F("aamatrix", RealS, IntS, IntS), F("tmatrix", IntS, IntS, IntS)
MAXDIM = 1 << 30

DIMS = {}     # ast id -> (term, rows, columns), for the terms built here
WHOLE = {}    # ast id -> (term, {(row, column): element}), for the matrices given by all their elements
POLY = {}     # ast id -> (term, {monomial (tuple of ast ids of factors): coefficient})
ATOM = {}     # ast id -> term


def simp(x):
    return z3.simplify(Z(x))


def num(c):
    return c.as_long() if z3.is_int_value(c) else c


def one(c):
    return z3.is_rational_value(c) and c.as_fraction() == 1


def nil(c):
    return z3.is_rational_value(c) and c.as_fraction() == 0


def atom(t):
    ATOM[t.get_id()] = t
    return t.get_id()


def poly(t):
    t = Z(t)
    k = t.get_id()
    if k not in POLY:
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().eq(ZERO):
            p = {}
        elif t.decl().eq(IDENT) and simp(t.arg(0)).eq(simp(t.arg(1))):
            p = {(): z3.RealVal(1)}
        else:
            p = {(atom(t),): z3.RealVal(1)}
        POLY[k] = (t, p)
    return POLY[k][1]


NAMED = {}


def plain(t, _c={}):
    """may occur in a pattern: no Boolean structure or case distinction inside"""
    k = t.get_id()
    if k in _c and _c[k][0].eq(t):
        return _c[k][1]
    r = not z3.is_bool(t) and not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE) and all(plain(x) for x in t.children())
    _c[k] = (t, r)
    return r


class A:
    """builds terms and assumes what is known of them"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    # -- shapes
    def dim(self, t, r, c):
        r, c = simp(r), simp(c)
        DIMS[t.get_id()] = (t, num(r), num(c))
        self.st.assume(ROWS(t) == r, COLS(t) == c)
        return t

    def mat(self, name, r=None, c=None):
        """an arbitrary matrix"""
        t = z3.Int(name)
        self.st.assume(ROWS(t) >= 0, COLS(t) >= 0, ROWS(t) <= MAXDIM, COLS(t) <= MAXDIM)
        return self.dim(t, ROWS(t) if r is None else r, COLS(t) if c is None else c)

    def rows(self, t):
        d = DIMS.get(Z(t).get_id())
        return ROWS(Z(t)) if d is None else Z(d[1])

    def cols(self, t):
        d = DIMS.get(Z(t).get_id())
        return COLS(Z(t)) if d is None else Z(d[2])

    def els(self, t, f):
        p, q = z3.Ints("p!m q!m")
        e = EL(t, p, q)
        self.st.assume(z3.ForAll([p, q], e == f(p, q), patterns=[e]))
        d = DIMS.get(t.get_id())
        if d is not None and isinstance(d[1], int) and isinstance(d[2], int) and 0 < d[1] * d[2] <= 9 and not t.decl().eq(SETEL):
            self.st.assume(*[EL(t, i, j) == z3.simplify(f(z3.IntVal(i), z3.IntVal(j))) for i in range(d[1]) for j in range(d[2])])
        return t

    def shape_like(self, t, a):
        return self.dim(t, self.rows(a), self.cols(a))

    # -- ring
    def render(self, p, r, c):
        ms = sorted(p, key=lambda m: (len(m), m))
        terms = []
        for m in ms:
            t = None
            if not m:
                t = IDENT(r, c)
            for k in m:
                t = ATOM[k] if t is None else MUL(t, ATOM[k])
            terms.append((t, p[m]))
        if not terms:
            t = ZERO(r, c)
            POLY[t.get_id()] = (t, {})
            self.dim(t, r, c)
            return self.els(t, lambda i, j: z3.RealVal(0))
        s = None
        for t, k in terms:
            u = t if one(k) else SCALE(k, t)
            if s is not None and len(terms) == 2:
                self.st.assume(ADD(s, u) == ADD(u, s))
            s = u if s is None else ADD(s, u)
        POLY[s.get_id()] = (s, p)
        self.dim(s, r, c)
        if len(terms) > 1 or not one(terms[0][1]):
            self.els(s, lambda i, j: z3.Sum([k * EL(t, i, j) for t, k in terms]))
        elif ms[0] == ():
            self.els(s, lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))
        return s

    def lin(self, parts, r, c):
        p = {}
        for k, t in parts:
            for m, v in poly(t).items():
                x = simp(p.get(m, z3.RealVal(0)) + Z(k) * v)
                if nil(x):
                    p.pop(m, None)
                else:
                    p[m] = x
        return self.render(p, r, c)

    def add(self, a, b):
        a, b = Z(a), Z(b)
        return self.lin([(z3.RealVal(1), a), (z3.RealVal(1), b)], self.rows(a), self.cols(a))

    def sub(self, a, b):
        a, b = Z(a), Z(b)
        return self.lin([(z3.RealVal(1), a), (z3.RealVal(-1), b)], self.rows(a), self.cols(a))

    def scale(self, s, a):
        a = Z(a)
        return self.lin([(ZR(s), a)], self.rows(a), self.cols(a))

    def mul(self, *xs):
        a = Z(xs[0])
        for b in xs[1:]:
            b = Z(b)
            p = {}
            for m, u in poly(a).items():
                for n, w in poly(b).items():
                    x = simp(p.get(m + n, z3.RealVal(0)) + u * w)
                    p[m + n] = x
            a = self.render({m: x for m, x in p.items() if not nil(x)}, self.rows(a), self.cols(b))
        return a

    def tr(self, a):
        a = Z(a)
        p = {}
        for m, u in poly(a).items():
            p[tuple(self.tr_atom(k) for k in reversed(m))] = u
        return self.render(p, self.cols(a), self.rows(a))

    def tr_atom(self, k):
        t = ATOM[k]
        if t.decl().eq(TR):
            return atom(t.arg(0))
        u = TR(t)
        self.dim(u, self.cols(t), self.rows(t))
        self.els(u, lambda i, j: EL(t, j, i))
        return atom(u)

    def inv(self, a):
        t = INV(Z(a))
        return self.shape_like(t, a)

    def solve(self, a, b):
        return self.mul(self.inv(a), b)

    def arg(self, x):
        """x, or a name for it when it has case distinctions (terms of matrices occur in patterns)"""
        if plain(x):
            return x
        k = x.get_id()
        if k not in NAMED:
            NAMED[k] = (x, z3.Const("case!%d" % len(NAMED), x.sort()))
        self.st.assume(NAMED[k][1] == x)
        return NAMED[k][1]

    # -- parts
    def zero(self, r, c):
        return self.render({}, Z(r), Z(c))

    def ident(self, r, c):
        t = IDENT(Z(r), Z(c))
        self.dim(t, r, c)
        return self.els(t, lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))

    def blk(self, a, i, j, r, c):
        a, i, j, r, c = Z(a), self.arg(simp(i)), self.arg(simp(j)), self.arg(simp(r)), self.arg(simp(c))
        t = BLK(a, i, j, r, c)
        self.dim(t, r, c)
        return self.els(t, lambda p, q: EL(a, i + p, j + q))

    def setb(self, a, i, j, b):
        a, i, j, b = Z(a), self.arg(simp(i)), self.arg(simp(j)), self.arg(Z(b))
        t = SETB(a, i, j, b)
        self.shape_like(t, a)
        return self.els(t, lambda p, q: z3.If(z3.And(p >= i, p < i + self.rows(b), q >= j, q < j + self.cols(b)), EL(b, p - i, q - j), EL(a, p, q)))

    def setel(self, a, i, j, x):
        a, i, j, x = Z(a), self.arg(simp(i)), self.arg(simp(j)), self.arg(ZR(x))
        t = SETEL(a, i, j, x)
        whole = self.whole(a, t)
        if whole is not None:
            return whole
        self.shape_like(t, a)
        return self.els(t, lambda p, q: z3.If(z3.And(p == i, q == j), x, EL(a, p, q)))

    def whole(self, a, t):
        """the matrix given by all its elements, if t is one (t sets an element of a)"""
        r, c = (num(d) for d in (self.rows(a), self.cols(a)))
        r, c = (d if isinstance(d, int) else d.as_long() if z3.is_int_value(d) else None for d in (r, c))
        if r is None or c is None or not 0 < r * c <= 36:
            return None
        xs, todo = {}, t
        while z3.is_app(todo) and todo.decl().eq(SETEL):
            i, j = todo.arg(1), todo.arg(2)
            if not (z3.is_int_value(i) and z3.is_int_value(j)):
                return None
            xs.setdefault((i.as_long(), j.as_long()), todo.arg(3))
            todo = todo.arg(0)
        w = WHOLE.get(todo.get_id())
        if w is not None:
            for k, x in w[1].items():
                xs.setdefault(k, x)
        rest = (lambda i, j: z3.RealVal(0)) if todo.decl().eq(ZERO) else (lambda i, j: z3.RealVal(int(i == j))) if todo.decl().eq(IDENT) else (lambda i, j: todo.arg(2)) if todo.decl().eq(CONST) else None
        if rest:
            for i in range(r):
                for j in range(c):
                    xs.setdefault((i, j), rest(i, j))
        if set(xs) != {(i, j) for i in range(r) for j in range(c)}:
            return None
        keys = sorted(xs)
        u = F("whole%dx%d" % (r, c), *[RealS] * (r * c), IntS)(*[xs[k] for k in keys])
        WHOLE[u.get_id()] = (u, xs)
        self.dim(u, r, c)
        self.st.assume(*[EL(u, i, j) == xs[i, j] for i, j in keys])
        return u

    def dot(self, a, b):
        a, b = Z(a), Z(b)
        return DOT(a, b) if a.get_id() <= b.get_id() else DOT(b, a)

    def sqnorm(self, a):
        a = Z(a)
        self.st.assume(DOT(a, a) >= 0)
        return DOT(a, a)

    def norm(self, a):
        return models.real_sqrt(self.ex, self.st, self.sqnorm(a))

    def any(self, a):
        a = Z(a)
        i, j = z3.Ints("i!any j!any")
        self.st.assume(ANY(a) == z3.Exists([i, j], z3.And(i >= 0, i < self.rows(a), j >= 0, j < self.cols(a), EL(a, i, j) != 0)))
        return ANY(a)

    def all(self, a):
        a = Z(a)
        i, j = z3.Ints("i!any j!any")
        self.st.assume(ALL(a) == z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < self.rows(a), j >= 0, j < self.cols(a)), EL(a, i, j) != 0)))
        return ALL(a)

    def invalid(self, a):
        """holds a value that is not a number or infinite"""
        return z3.Or(ANY(ISNAN(Z(a))), ANY(ISINF(Z(a))))


# ------------------------------------------------------------------------------------------------ the declared functions
def ob(ex, st, I, what, g):
    ex.oblige(st, "matrix operation: " + what, g, I.loc, "pre")


def inside(a, i, j, r, c):
    return z3.And(Z(i) >= 0, Z(j) >= 0, Z(r) >= 0, Z(c) >= 0, Z(i) + Z(r) <= ROWS(Z(a)), Z(j) + Z(c) <= COLS(Z(a)))


def same(ex, st, I, a, b):
    ob(ex, st, I, "shapes agree", z3.And(ROWS(Z(a)) == ROWS(Z(b)), COLS(Z(a)) == COLS(Z(b))))


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def m_undef(al, I, r, c):
    ob(al.ex, al.st, I, "size is not negative", z3.And(Z(r) >= 0, Z(c) >= 0))
    return al.dim(z3.Int(al.ex.fresh("matrix")), r, c)


@op
def m_zero(al, I, r, c):
    ob(al.ex, al.st, I, "size is not negative", z3.And(Z(r) >= 0, Z(c) >= 0))
    return al.zero(r, c)


@op
def m_ident(al, I, r, c):
    return al.ident(r, c)


@op
def m_const(al, I, r, c, x):
    t = CONST(Z(r), Z(c), ZR(x))
    al.dim(t, r, c)
    return al.els(t, lambda i, j: ZR(x))


@op
def m_add(al, I, a, b):
    same(al.ex, al.st, I, a, b)
    return al.add(a, b)


@op
def m_sub(al, I, a, b):
    same(al.ex, al.st, I, a, b)
    return al.sub(a, b)


@op
def m_mul(al, I, a, b):
    ob(al.ex, al.st, I, "columns of the first factor are the rows of the second", COLS(Z(a)) == ROWS(Z(b)))
    return al.mul(a, b)


@op
def m_scale(al, I, s, a):
    return al.scale(s, a)


@op
def m_tr(al, I, a):
    return al.tr(a)


@op
def m_inv(al, I, a):
    ob(al.ex, al.st, I, "inverse of a square matrix", ROWS(Z(a)) == COLS(Z(a)))
    return al.inv(a)


@op
def m_blk(al, I, a, i, j, r, c):
    ob(al.ex, al.st, I, "part inside the matrix", inside(a, i, j, r, c))
    return al.blk(a, i, j, r, c)


@op
def m_setblk(al, I, a, i, j, r, c, b):
    ob(al.ex, al.st, I, "part inside the matrix", inside(a, i, j, r, c))
    ob(al.ex, al.st, I, "shapes agree", z3.And(ROWS(Z(b)) == Z(r), COLS(Z(b)) == Z(c)))
    return al.setb(a, i, j, b)


@op
def m_setel(al, I, a, i, j, x):
    ob(al.ex, al.st, I, "element inside the matrix", inside(a, i, j, 1, 1))
    return al.setel(a, i, j, x)


@op
def m_el(al, I, a, i, j):
    ob(al.ex, al.st, I, "element inside the matrix", inside(a, i, j, 1, 1))
    poly(a)
    return EL(Z(a), simp(i), simp(j))


def shape(fn):
    def h(al, I, a):
        t = getattr(al, fn)(a)
        if not z3.is_app(t) or not t.decl().eq(F("rows", IntS, IntS)) and not t.decl().eq(F("cols", IntS, IntS)):
            return t
        al.st.assume(t >= 0, t <= MAXDIM)
        s = z3.Solver()
        al.ex.rng.set(t, 0, MAXDIM)
        return t
    return h


OPS["m_rows"], OPS["m_cols"] = shape("rows"), shape("cols")


@op
def m_fit(al, I, a, r, c):
    if isc(r) and r >= 0:
        ob(al.ex, al.st, I, "number of rows", ROWS(Z(a)) == r)
    if isc(c) and c >= 0:
        ob(al.ex, al.st, I, "number of columns", COLS(Z(a)) == c)
    return a


@op
def m_overlap(al, I, sm, i, j, r, c, oi, oj):
    i, j, r, c, oi, oj = (Z(x) for x in (i, j, r, c, oi, oj))
    apart = z3.Or(r == 0, c == 0, z3.And(i == oi, j == oj), i + r <= oi, oi + r <= i, j + c <= oj, oj + c <= j)
    sm = sm if isinstance(sm, (bool, z3.BoolRef)) else Z(sm) != 0
    ob(al.ex, al.st, I, "a part is not assigned from an overlapping part of the same matrix", z3.Implies(Z(sm), apart))
    return None


@op
def m_dot(al, I, a, b):
    ob(al.ex, al.st, I, "vectors of the same size", z3.And(ROWS(Z(a)) == ROWS(Z(b)), COLS(Z(a)) == 1, COLS(Z(b)) == 1))
    return al.sqnorm(a) if Z(a).eq(Z(b)) else al.dot(a, b)


@op
def m_norm(al, I, a):
    return al.norm(a)


@op
def m_sqnorm(al, I, a):
    return al.sqnorm(a)


@op
def m_abs(al, I, a):
    t = ABS(Z(a))
    al.shape_like(t, a)
    a = Z(a)
    return al.els(t, lambda i, j: z3.If(EL(a, i, j) >= 0, EL(a, i, j), -EL(a, i, j)))


@op
def m_cmp(al, I, a, o, x):
    t = CMP[o](Z(a), ZR(x))
    al.shape_like(t, a)
    a, x = Z(a), ZR(x)
    f = [lambda e: e < x, lambda e: e <= x, lambda e: e > x, lambda e: e >= x, lambda e: e == x][o]
    return al.els(t, lambda i, j: z3.If(f(EL(a, i, j)), z3.RealVal(1), z3.RealVal(0)))


@op
def m_isnan(al, I, a):
    return al.shape_like(ISNAN(Z(a)), a)


@op
def m_isinf(al, I, a):
    return al.shape_like(ISINF(Z(a)), a)


@op
def m_cwmul(al, I, a, b):
    same(al.ex, al.st, I, a, b)
    a, b = Z(a), Z(b)
    t = al.shape_like(CWMUL(a, b), a)
    return al.els(t, lambda i, j: EL(a, i, j) * EL(b, i, j))


@op
def m_shift(al, I, a, x):
    a, x = Z(a), ZR(x)
    t = al.shape_like(SHIFT(a, x), a)
    return al.els(t, lambda i, j: EL(a, i, j) + x)


@op
def m_any(al, I, a):
    a = Z(a)
    if a.decl().eq(ISNAN) or a.decl().eq(ISINF):
        return ANY(a)
    return al.any(a)


@op
def m_all(al, I, a):
    return al.all(a)


@op
def m_allfinite(al, I, a):
    return z3.Not(al.invalid(a))


@op
def m_hasnan(al, I, a):
    return ANY(ISNAN(Z(a)))


@op
def m_solve(al, I, kind, a, b):
    ob(al.ex, al.st, I, "square system of the size of the right-hand side", z3.And(ROWS(Z(a)) == COLS(Z(a)), ROWS(Z(a)) == ROWS(Z(b))))
    return al.solve(a, b)


@op
def m_eigenvalues(al, I, a):
    ob(al.ex, al.st, I, "eigenvalues of a square matrix", ROWS(Z(a)) == COLS(Z(a)))
    return al.dim(EIG(Z(a)), ROWS(Z(a)), 1)


@op
def m_eigenvectors(al, I, a):
    return al.shape_like(EIGV(Z(a)), a)


@op
def m_asdiag(al, I, a):
    a = Z(a)
    t = al.dim(ASDIAG(a), ROWS(a), ROWS(a))
    return al.els(t, lambda i, j: z3.If(i == j, EL(a, i, 0), z3.RealVal(0)))


@op
def m_diag(al, I, a):
    a = Z(a)
    t = al.dim(DIAG(a), z3.If(ROWS(a) <= COLS(a), ROWS(a), COLS(a)), 1)
    return al.els(t, lambda i, j: EL(a, i, i))


def scalar(name):
    f = F(name, IntS, RealS)

    def h(al, I, a):
        return f(Z(a))
    return h


for _n in ("prod", "trace", "det", "min", "max"):
    OPS["m_" + _n] = scalar(_n)
OPS["m_sum"] = lambda al, I, a: SUM(Z(a))


@op
def q_make(al, I, w, x, y, z):
    t = QMAKE(ZR(w), ZR(x), ZR(y), ZR(z))
    al.st.assume(QEL(t, 0) == ZR(w), QEL(t, 1) == ZR(x), QEL(t, 2) == ZR(y), QEL(t, 3) == ZR(z))
    return t


@op
def q_mul(al, I, a, b):
    return QMUL(Z(a), Z(b))


@op
def q_conj(al, I, a):
    return QCONJ(Z(a))


@op
def q_normalized(al, I, a):
    return QNORM(Z(a))


@op
def q_of(al, I, m):
    return QOF(Z(m))   # of a rotation matrix: one of two quaternions of opposite sign, not the one the matrix was made from


@op
def q_matrix(al, I, q):
    return al.dim(QMAT(Z(q)), 3, 3)


@op
def q_rotate(al, I, q, p):
    return al.mul(al.dim(QMAT(Z(q)), 3, 3), p)


@op
def q_el(al, I, q, i):
    return QEL(Z(q), Z(i))


@op
def q_vec(al, I, q):
    q = Z(q)
    t = al.dim(QVEC(q), 3, 1)
    al.st.assume(*[EL(t, i, 0) == QEL(q, i + 1) for i in range(3)])
    return t


@op
def q_coeffs(al, I, q):
    q = Z(q)
    t = al.dim(QCOEFFS(q), 4, 1)
    al.st.assume(*[EL(t, i, 0) == QEL(q, (i + 1) % 4) for i in range(4)])
    return t


@op
def q_ident(al, I):
    return q_make(al, I, 1, 0, 0, 0)


@op
def aa_matrix(al, I, a, n):
    return al.dim(AAMAT(ZR(a), Z(n)), 3, 3)


@op
def t_matrix(al, I, l, t):
    return al.dim(TMAT(Z(l), Z(t)), 4, 4)


def wrap(name, f):
    def h(ex, st, I, a):
        a = [ex.freal("undef") if isinstance(x, Undef) else x for x in a]
        return f(A(ex, st), I, *a)
    h.model = "matrix algebra: Eigen's operations are the ring operations on matrices of matching shape (dense linear solvers and inverse() are exact; block and element access by position)"
    return h


MATS = [(re.compile("^irvc_%s$" % n), wrap(n, f)) for n, f in OPS.items()]
