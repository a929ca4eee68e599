"""Contract of the point-cloud operations declared in units/stubs/algebra/pcl/point_cloud.h (IRVC_CLOUD_HANDLES).

A cloud is a value; pointers to clouds are positions in a store (ex.clouds, a sequence of values).  Moving and appending
are uninterpreted except for the number of points and the empty cloud."""
import re
import z3
from smt import *
from algebra import F, IntS

APPEND, MOVE = F("cloud.append", IntS, IntS, IntS), F("cloud.move", IntS, IntS, IntS, IntS)
SIZE, READ = F("cloud.size", IntS, IntS), F("cloud.read", IntS, IntS)
EMPTY = z3.IntVal(0)
MODEL = "point clouds: += appends the other cloud's points, transformPointCloud gives one point for every point, each moved by the transform"


def append(a, b):
    a, b = Z(a), Z(b)
    if a.eq(EMPTY):
        return b
    return a if b.eq(EMPTY) else APPEND(a, b)


def laws(st, t):
    """what is known of a cloud"""
    st.assume(SIZE(t) >= 0, SIZE(t) < 1 << 40)
    if t.decl().eq(APPEND):
        st.assume(z3.Implies(t.arg(0) == EMPTY, t == t.arg(1)), z3.Implies(t.arg(1) == EMPTY, t == t.arg(0)),
                  SIZE(t) == SIZE(t.arg(0)) + SIZE(t.arg(1)))
    if t.decl().eq(MOVE):
        st.assume(SIZE(t) == SIZE(t.arg(0)))
    if t.eq(EMPTY):
        st.assume(SIZE(t) == 0)
    return t


def at(ex, i):
    return Ptr(ex.clouds, imul(i, 8))


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def c_empty(ex, st, I, a):
    return laws(st, EMPTY)


@op
def c_append(ex, st, I, a):
    return laws(st, append(*a))


@op
def c_move(ex, st, I, a):
    return laws(st, MOVE(*[Z(x) for x in a]))


@op
def c_size(ex, st, I, a):
    return SIZE(laws(st, Z(a[0])))


@op
def c_read(ex, st, I, a):
    m = ex.message_cloud
    return laws(st, m(ex, st, a[0]) if callable(m) else m)


@op
def c_save(ex, st, I, a):
    n = Z(ex.read_k(st, ex.saved, "i64"))
    ex.write_k(st, ex.saved, n + 1, "i64")
    ex.write_k(st, Ptr(ex.saved.obj, 8), Z(a[1]), "i64")
    return None


@op
def h_new(ex, st, I, a):
    s = st.wr(ex.clouds)
    i = Z(s.n)
    s.n = z3.simplify(i + 1)
    ex.write_k(st, at(ex, i), Z(a[0]), "i64")
    return i


@op
def h_get(ex, st, I, a):
    return Z(ex.read_k(st, at(ex, a[0]), "i64"))


@op
def h_set(ex, st, I, a):
    ex.write_k(st, at(ex, a[0]), Z(a[1]), "i64")
    return None


def wrap(f):
    f.model = MODEL
    return f


TABLE = [(re.compile("^irvc_%s$" % n), wrap(f)) for n, f in OPS.items()]
