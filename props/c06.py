"""C06 convolution and curvature."""
from common import *
import loops

DOT = z3.Function("dot", IntS, IntS, z3.RealSort())     # dot(i,k) = sum_{t<k} input[i+t]*kernel[t]
SUM = z3.Function("wsum", IntS, IntS, z3.RealSort())    # wsum(i,k) = sum_{t<k} range[i+t]


def reals(lc):
    return [it for it in lc.items if it.kind == "real"]


def rest(it, k, cursors):
    """what the loop has not reached yet is as it was when the loop began"""
    if it.entry is not None:
        for nm, c in cursors:
            yield ("as before from the " + nm + " on", FA(k, z3.Implies(k >= c, it.sym[k] == it.entry[k]), [it.sym[k]]))


class Convolution(Spec):
    name = "Convolution1D"
    rx = r"^Convolution1D\("

    def setup(self, v):
        v.r = v.blob("result", 24, lazy=False)
        v.inp, v.w = v.vec("input", "double"), v.vec("weight", "double")
        v.n, v.m = v.inp.n(), v.w.n()
        v.I, v.W = v.inp.arr(), v.w.arr()
        v.assume(z3.And(v.n <= 1 << 30, v.m <= 1 << 30, v.m % 2 == 1))
        i = z3.Int("i!0")
        v.assume(FA(i, DOT(i, 0) == 0, [DOT(i, 0)]))
        return [v.r, v.inp.p, v.w.p]

    def val(self, v, k):
        p = (v.m - 1) / 2
        return z3.If(z3.And(k >= p, k < v.n - p), DOT(k - p, v.m), z3.RealVal(0))

    def templates(self, v, lc):
        k = z3.Int("k!t")
        outer = [i.logical() for c in (chain(lc) if loops.WIDE else chain(lc)[:-1]) for i in c.ints()]
        for c in lc.ints():
            c = Z(c.logical())
            for x in outer:
                x = Z(x)
                yield ("fact", DOT(x, c + 1) == DOT(x, c) + v.I[x + c] * v.W[c])
                for a in reals(lc):
                    yield ("inner product so far", a.sym == DOT(x, c))
            for it in lc.items:
                if it.kind == "arr" and str(it.sym.sort().range()) == "Real":
                    yield ("result written up to the cursor", FA(k, z3.Implies(z3.And(k >= 0, k < c), it.sym[k] == self.val(v, k))))
                    p = (v.m - 1) / 2
                    yield ("result written up to the window", FA(k, z3.Implies(z3.And(k >= 0, k < c + p), it.sym[k] == self.val(v, k))))
                    yield ("result written up to the tail", FA(k, z3.Implies(z3.And(k >= 0, k < c + v.n - p), it.sym[k] == self.val(v, k))))
                    yield ("head written up to the cursor", FA(k, z3.Implies(z3.And(k >= 0, k < c, k < p), it.sym[k] == self.val(v, k))))
                    yield ("result written to its end", FA(k, z3.Implies(z3.And(k >= 0, k < c + v.n - p, k < v.n), it.sym[k] == self.val(v, k))))
                    yield from rest(it, k, (("cursor", c), ("window", c + p), ("tail", c + v.n - p)))

    def apply(self, ex, st, args, I):
        r, ip, wp = args
        iseq, n = models.vget(ex, st, ip)
        wseq, m = models.vget(ex, st, wp)
        n, m = Z(n), Z(m)
        ex.oblige(st, "precondition of Convolution1D: odd kernel", z3.And(m % 2 == 1, m <= 1 << 30, n <= 1 << 30), I.loc, "pre")
        outs = []
        for t, s in ex.branch(st, n >= m):
            if not t:
                outs.append((s, ("throw", "std::invalid_argument", Ptr(Obj("exception", "opaque"), 0))))
                continue
            A, W = ex.arr(s, iseq, 0), ex.arr(s, wseq, 0)
            D = z3.Function(ex.fresh("dot"), IntS, IntS, z3.RealSort())
            p = ex.new_seq(s, "conv", 8, {0: "f64"}, n)
            o = p.obj if isinstance(p, Ptr) else p
            R = ex.arr(s, o, 0)
            k, q = z3.Int("k!c"), (m - 1) / 2
            s.assume(FA(k, z3.Implies(z3.And(k >= 0, k < n), R[k] == z3.If(z3.And(k >= q, k < n - q), D(k - q, m), z3.RealVal(0))), [R[k]]))
            h = getattr(ex.cur, "dot_lemma", None)
            if h:
                s.assume(*h(D, A, W, m))
            models.vset(ex, s, r, o, n)
            outs.append((s, ("ret", None)))
        return outs

    def post(self, v, o):
        if o[0] == "throw":
            return [("rejected only when the signal is shorter than the kernel", v.n < v.m), ("rejected with invalid_argument", z3.BoolVal(o[1] == "std::invalid_argument"))]
        R = VecV(v, v.r)
        k = z3.Int("k!p")
        return [("a signal shorter than the kernel is rejected", v.n >= v.m), ("one value per input value", Z(R.n(v.st)) == v.n),
                ("inner product of kernel and aligned piece at every full overlap, zero elsewhere",
                 FA(k, z3.Implies(z3.And(k >= 0, k < v.n), R.arr(0, v.st)[k] == self.val(v, k))))]


class DotLemma(Lemma):
    """for the kernel 1,...,1,-2p,1,...,1 of length 2p+1 the inner product is the window sum minus 2p+1 times the centre"""
    name = "lemma: inner product with the curvature kernel"

    def goals(self, v):
        I, W = z3.Array("I", IntS, z3.RealSort()), z3.Array("W", IntS, z3.RealSort())
        i, k, p = z3.Ints("i k p")
        m = 2 * p + 1
        P = lambda k: DOT(i, k) == SUM(i, k) - z3.If(k > p, z3.ToReal(m) * I[i + p], z3.RealVal(0))
        defs = [DOT(i, 0) == 0, SUM(i, 0) == 0, p >= 1, shape(W, p)]
        step = [DOT(i, k + 1) == DOT(i, k) + I[i + k] * W[k], SUM(i, k + 1) == SUM(i, k) + I[i + k], k >= 0, k < m, P(k)]
        return [("induction base", defs, P(z3.IntVal(0))), ("induction step", defs + step, P(k + 1)),
                ("conclusion at full length", defs + [P(m)], DOT(i, m) == SUM(i, m) - z3.ToReal(m) * I[i + p])]


def shape(W, p):
    k = z3.Int("k!w")
    return FA(k, z3.Implies(z3.And(k >= 0, k < 2 * p + 1), W[k] == z3.If(k == p, -2 * z3.ToReal(p), z3.RealVal(1))), [W[k]])


class Curvature(Spec):
    name = "CalcCurvature"
    rx = r"^CalcCurvature\("

    def setup(self, v):
        v.r = v.blob("result", 24, lazy=False)
        v.inp = v.vec("range", "double")
        v.n = v.inp.n()
        v.pad = v.int("padding", 1, 1 << 28)
        v.I = v.inp.arr()
        v.m = 2 * v.pad + 1
        self.v = v
        v.assume(v.n <= 1 << 30)
        i = z3.Int("i!0")
        v.assume(FA(i, SUM(i, 0) == 0, [SUM(i, 0)]))
        return [v.r, v.inp.p, v.pad]

    def dot_lemma(self, D, A, W, m):
        """instance of DotLemma for the arrays of one call"""
        v = self.v
        i = z3.Int("i!l")
        return [z3.Implies(z3.And(m == 2 * v.pad + 1, shape(W, v.pad), same_arr(A, v.I, v.n)),
                           FA(i, z3.Implies(z3.And(i >= 0, i + m <= v.n), D(i, m) == SUM(i, m) - z3.ToReal(m) * v.I[i + v.pad]), [D(i, m)]))]

    def raw(self, v, k):
        return z3.If(z3.And(k >= v.pad, k < v.n - v.pad), SUM(k - v.pad, v.m) - z3.ToReal(v.m) * v.I[k], z3.RealVal(0))

    def val(self, v, k):
        return self.raw(v, k) * self.raw(v, k)

    def templates(self, v, lc):
        k = z3.Int("k!t")
        outer = [i.logical() for c in (chain(lc) if loops.WIDE else chain(lc)[:-1]) for i in c.ints()]
        for c in lc.ints():
            c = Z(c.logical())
            for x in outer:
                x = Z(x)
                yield ("fact", SUM(x, c + 1) == SUM(x, c) + v.I[x + c])
                for a in reals(lc) if loops.WIDE else []:
                    yield ("weighted sum so far", a.sym == SUM(x, c) - z3.If(c > v.pad, z3.ToReal(v.m) * v.I[x + v.pad], z3.RealVal(0)))
            for it in lc.items:
                if it.kind == "arr" and str(it.sym.sort().range()) == "Real":
                    for nm, f in (("", self.raw), ("squared ", self.val)):
                        for nm2, b in (("cursor", c), ("window", c + v.pad), ("tail", c + v.n - v.pad)):
                            yield (nm + "result up to the " + nm2, FA(k, z3.Implies(z3.And(k >= 0, k < b), it.sym[k] == f(v, k))))
                    yield from rest(it, k, (("cursor", c), ("window", c + v.pad), ("tail", c + v.n - v.pad)))

    def post(self, v, o):
        if o[0] == "throw":
            return [("rejected only when the line is shorter than the window", v.n < v.m), ("rejected with invalid_argument", z3.BoolVal(o[1] == "std::invalid_argument"))]
        R = VecV(v, v.r)
        k = z3.Int("k!p")
        A = R.arr(0, v.st)
        return [("one value per point", Z(R.n(v.st)) == v.n),
                ("a line shorter than the window is rejected", v.n >= v.m),
                ("squared difference of window sum and window size times centre", FA(k, z3.Implies(z3.And(k >= v.pad, k < v.n - v.pad), A[k] == self.val(v, k)))),
                ("zero within the padding", FA(k, z3.Implies(z3.And(k >= 0, k < v.n, z3.Or(k < v.pad, k >= v.n - v.pad)), A[k] == 0)))]


def same_arr(A, B, n):
    if A.eq(B):
        return z3.BoolVal(True)
    k = z3.Int("k!s")
    return FA(k, z3.Implies(z3.And(k >= 0, k < n), A[k] == B[k]), [A[k]])


Curvature.contracts = [Convolution()]
UNITS = [Unit("u_curv.cpp", [Convolution(), DotLemma(), Curvature()])]
REPLAY = ["c06.cpp"]
ASSUME = ["sums and products of ranges are real arithmetic", "the kernel has odd length (asserted by the code), padding is positive, at most 2^30 values"]
