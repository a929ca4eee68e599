"""Shared views and interface contracts."""
import re, z3
from fractions import Fraction
from smt import *
from contract import Spec, Lemma, V, VecV
from ex import Obj, KSIZE
import models
from registry import Unit

LAB = {"Default": 0, "Edge": 1, "EdgeNeighbor": 2, "Surface": 3, "SurfaceNeighbor": 4, "OutOfRange": 5, "Occluded": 6, "ParallelBeam": 7}
LAYOUTS = {"PointLabel": (1, {0: "i8"})}

adj = z3.Function("adj", z3.IntSort(), z3.BoolSort())          # adj(i): points i and i+1 are neighbours
brk_r = z3.Function("brk_r", z3.IntSort(), z3.IntSort())       # last index reachable to the right through adjacent neighbours
brk_l = z3.Function("brk_l", z3.IntSort(), z3.IntSort())       # last index reachable to the left
nb2 = z3.Function("nb2", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def FA(vs, body, pats=None):
    vs = vs if isinstance(vs, list) else [vs]
    if isinstance(body, bool):
        return z3.BoolVal(body)
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def rng(lo, k, hi):
    """lo <= k < hi"""
    return z3.And(k >= Z(lo), k < Z(hi))


def reach_facts(a, n):
    """definition of brk_r(a), brk_l(a) (adj is false outside [0,n-1))"""
    a, n = Z(a), Z(n)
    j = z3.Int("j!br")
    return [
        brk_r(a) >= a, z3.Not(adj(brk_r(a))), FA(j, z3.Implies(z3.And(j >= a, j < brk_r(a)), adj(j)), [adj(j)]),
        brk_l(a) <= a, z3.Not(adj(brk_l(a) - 1)), FA(j, z3.Implies(z3.And(j >= brk_l(a), j < a), adj(j)), [adj(j)]),
    ]


def adj_domain(n):
    j = z3.Int("j!ad")
    return [FA(j, z3.Implies(z3.Or(j < 0, j >= Z(n) - 1), z3.Not(adj(j))), [adj(j)])]


def m_irvc_nb(ex, st, I, a):
    """interface contract of NeighborCheckBase::operator(): symmetric, throws out_of_range outside [0,size)"""
    p, i, j = a
    n = getattr(ex, "nb_n", None)
    if n is None:
        n = ex.read_k(st, Ptr(p.obj, iadd(p.off, 8)), "i32")
    ok = band(cmp_i("ge", i, 0), cmp_i("lt", i, n), cmp_i("ge", j, 0), cmp_i("lt", j, n))
    d = isub(j, i)
    if d == 1:
        v = adj(Z(i))
    elif d == -1:
        v = adj(Z(j))
    else:
        v = nb2(Z(i), Z(j))
    outs = []
    for side, s in ex.branch(st, ok):
        if side:
            outs.append((s, ("ret", v)))
        else:
            outs.append((s, ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))))
    return outs


m_irvc_nb.model = "interface contract: NeighborCheckBase::operator() is symmetric and throws out_of_range outside [0,size) (established for NeighborCheckXY under C08)"

def m_irvc_nb_size(ex, st, I, a):
    return getattr(ex, "nb_n")


m_irvc_nb_size.model = m_irvc_nb.model
NB = [(re.compile(r"^irvc_nb$"), m_irvc_nb), (re.compile(r"^irvc_nb_size$"), m_irvc_nb_size)]
rngf = z3.Function("range", z3.IntSort(), z3.RealSort())       # range(i): horizontal distance of point i


class RangeAt(Spec):
    """Range::operator()(int): the range of one point, out_of_range outside the line"""
    name = "Range(index)"
    rx = r"^Range<pcl::PointXYZ>::operator\(\)\(int\) const$"
    trusted = True

    def apply(self, ex, st, args, I):
        i = args[1]
        outs = []
        for t, s in ex.branch(st, band(cmp_i("ge", i, 0), cmp_i("lt", i, ex.nb_n))):
            if t:
                s.assume(rngf(Z(i)) >= 0)
                outs.append((s, ("ret", rngf(Z(i)))))
            else:
                outs.append((s, ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))))
        return outs


class RangeSize(Spec):
    name = "Range::size"
    rx = r"^Range<pcl::PointXYZ>::size\(\) const$"
    trusted = True

    def apply(self, ex, st, args, I):
        return [(st, ("ret", ex.nb_n))]


def make_neighbor(v, n):
    """run the unit's irvc_make_neighbor so the object gets the compiler's own vtable"""
    p = v.blob("nb", 16)
    F = v.ex.mod.fn("irvc_make_neighbor")
    outs = v.ex.run_fn(F, [p, n], v.st)
    assert len(outs) == 1
    v.st = outs[0][0]
    v.assume(*adj_domain(n))
    return p


def vec_ptr(ex, st, p):
    seq, n = models.vget(ex, st, p)
    return seq, n


def chain(lc):
    """the loop context and its enclosing loops"""
    out = []
    for c in list(lc.outer or []) + [lc]:
        if c.items:
            out.append(c)
    return out
