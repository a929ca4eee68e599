"""the optimiser's run and its parts, over matrix algebra (C11, C15)"""
import algebra
import strings
from algebra import *
from common import *
from c17 import Matrices, ALG

ArrS = z3.ArraySort(IntS, IntS)
MAT, VEC = "Eigen::Matrix<double, -1, -1, 0, -1, -1>", "Eigen::Matrix<double, -1, 1, 0, -1, 1>"
MAXN = (1 << 31) - 1
K = z3.RealVal(str(Fraction(1.345)))
EPS = z3.RealVal(str(Fraction(1e-16)))
THRESHOLD = z3.RealVal(str(Fraction(0.1)))
BIG = z3.RealVal(str(Fraction(1.7976931348623157e308)))
SMALL = z3.RealVal(str(Fraction(1e-3)))

ERRS = F("errors", ArrS, IntS, IntS)
SCALEOF = F("scaleof", IntS, RealS)
NORMED, WEIGHTS = F("normalized", IntS, IntS), F("weights", IntS, IntS)
DH = F("huberderivative", RealS, RealS, RealS)
DEG = F("degenerate", IntS, RealS, BoolS)
SD, SA, SB = F("sum.JtJ", ArrS, IntS, IntS), F("sum.wJtJ", IntS, ArrS, IntS, IntS), F("sum.wJtr", IntS, ArrS, ArrS, IntS, IntS)
WU = F("weightedupdate", IntS, IntS, ArrS, ArrS, IntS, IntS)
MM = F("makem", IntS, IntS)
AAQ = F("rotationvectortoquaternion", IntS, IntS)
CONV = F("converged", IntS, IntS, BoolS)
PJ, PR, PN = F("problem.jacobians", IntS, IntS, ArrS), F("problem.residuals", IntS, IntS, ArrS), F("problem.count", IntS, IntS, IntS)


class Opt(Matrices):
    max_unroll = 6
    layouts = {MAT: (8, {0: "i64"}), VEC: (8, {0: "i64"})}

    def out(self, v, off=0, k="i64", p=None):
        return v.ex.read_k(v.st, Ptr((p or v.out).obj, off), k)

    def vecs(self, v, name, elem, n):
        r = v.vec(name, elem, n)
        return r.p, r.arr()

    def seq(self, ex, st, p):
        s, n = models.vget(ex, st, p)
        return ex.arr(st, s, 0), Z(n)

    def mats(self, lc):
        return [it for it in lc.items if it.kind == "int" and z3.is_expr(it.entry) and it.entry.get_id() in algebra.DIMS]

    def counters(self, lc):
        ms = {Z(m.sym).get_id() for m in self.mats(lc)}
        for it in lc.ints():
            c = Z(it.logical())
            if Z(it.sym).get_id() not in ms and (isc(it.entry) or z3.is_int_value(Z(it.entry)) or it.kind == "ptr" or it.delta is not None):
                yield c

    def each(self, what, hi, fn):
        p = z3.Int("p!p")
        return (what, z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < hi), fn(p))))


class _List(Opt):
    """a vector built element by element"""

    def elem(self, v, i):
        return None

    def templates(self, v, lc):
        p = z3.Int("p!t")
        for it in self.mats(lc):
            _, r, c = algebra.DIMS[it.entry.get_id()]
            yield ("shape", z3.And(ROWS(it.sym) == r, COLS(it.sym) == c))
            for e in self.counters(lc):
                yield ("elements so far", z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < e), EL(it.sym, p, 0) == self.elem(v, p)), patterns=[EL(it.sym, p, 0)]))

    def result(self, v, x, n):
        x = Z(x)
        return [("one entry for each", z3.And(ROWS(x) == n, COLS(x) == 1)), self.each(self.what, n, lambda p: EL(x, p, 0) == self.elem(v, p))]


def column(al, t, n):
    al.dim(t, n, 1)
    return t


class Errors(_List):
    name, rx, what = "ComputeErrors", r"^ComputeErrors\(", "entry i is the squared norm of residual i"

    def setup(self, v):
        v.n = v.int("residuals.n", 0, MAXN, 64)
        p, v.R = self.vecs(v, "residuals", VEC, v.n)
        k = z3.Int("k!s")
        v.assume(z3.ForAll([k], z3.And(COLS(v.R[k]) == 1, ROWS(v.R[k]) >= 0, ROWS(v.R[k]) <= algebra.MAXDIM), patterns=[v.R[k]]))
        v.out = v.blob("result", 8, lazy=False)
        return [v.out, p]

    def elem(self, v, i):
        return DOT(v.R[i], v.R[i])

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.result(v, self.out(v), v.n)

    def apply(self, ex, st, a, I):
        R, n = self.seq(ex, st, a[1])
        al = algebra.A(ex, st)
        t = column(al, ERRS(R, n), n)
        al.els(t, lambda i, j: DOT(R[i], R[i]))
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class ScaleOf(Opt):
    """proved for the real vector type in C10"""
    name, rx, trusted = "Scale", r"^Scale\(", True

    def apply(self, ex, st, a, I):
        e = Z(ex.read_k(st, a[0], "i64"))
        st.assume(SCALEOF(e) >= 0)
        return [(st, ("ret", SCALEOF(e)))]


class Normalize(_List):
    name, rx, what = "NormalizeErrorScale", r"^NormalizeErrorScale\(", "entry i is error i over the scale (kept away from zero)"

    def setup(self, v):
        v.n = v.int("errors.n", 1, MAXN, 64)
        v.e = self.mat(v, "errors", v.n, 1)
        v.out = v.blob("result", 16, lazy=False)
        return [v.out, self.ref(v, v.e)]

    def elem(self, v, i):
        return EL(v.e, i, 0) / (SCALEOF(v.e) + EPS)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.result(v, self.out(v, 8), v.n) + [("the scale is the scale of the errors", ZR(self.out(v, 0, "f64")) == SCALEOF(v.e))]

    def apply(self, ex, st, a, I):
        e = Z(ex.read_k(st, a[1], "i64"))
        al = algebra.A(ex, st)
        t = column(al, NORMED(e), al.rows(e))
        st.assume(SCALEOF(e) >= 0)
        al.els(t, lambda i, j: EL(e, i, 0) / (SCALEOF(e) + EPS))
        ex.oblige(st, "precondition of NormalizeErrorScale: at least one error", ROWS(e) >= 1, I.loc, "pre")
        ex.write_k(st, Ptr(a[0].obj, iadd(a[0].off, 8)), t, "i64")
        ex.write_k(st, a[0], SCALEOF(e), "f64")
        return [(st, ("ret", None))]


def dh_facts(e, k):
    d = DH(e, k)
    return [z3.Implies(e < k * k, d == 1), z3.Implies(e >= k * k, z3.And(d > 0, d * d * e == k * k))]


class DHuber(Opt):
    name, rx = "HuberDerivative", r"^HuberDerivative\("

    def setup(self, v):
        v.e, v.k = v.real("squared error"), v.real("cut-off")
        v.assume(v.k > 0)
        return [v.e, v.k]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        w, e, k = ZR(o[1]), v.e, v.k
        return [("one below the cut-off", z3.Implies(e < k * k, w == 1)), ("positive and not above one", z3.And(w > 0, w <= 1)),
                ("cut-off over the residual's size beyond it", z3.Implies(e >= k * k, w * w * e == k * k))]

    def apply(self, ex, st, a, I):
        e, k = ZR(a[0]), ZR(a[1])
        ex.oblige(st, "precondition of HuberDerivative: positive cut-off", k > 0, I.loc, "pre")
        st.assume(*dh_facts(e, k))
        return [(st, ("ret", DH(e, k)))]


class DHuberDefault(Opt):
    name, rx = "HuberDerivative with the default cut-off", r"^irvc_dhuber1$"

    def setup(self, v):
        v.e = v.real("squared error")
        return [v.e]

    def post(self, v, o):
        return [("never throws", False)] if o[0] == "throw" else [("the cut-off is 1.345", ZR(o[1]) == DH(v.e, K))]


class Weights(_List):
    name, rx, what = "ComputeWeights", r"^ComputeWeights\(", "weight i is the loss's derivative at entry i"

    def setup(self, v):
        v.n = v.int("errors.n", 0, MAXN, 64)
        v.e = self.mat(v, "errors", v.n, 1)
        v.out = v.blob("result", 8, lazy=False)
        return [v.out, self.ref(v, v.e)]

    def elem(self, v, i):
        return DH(EL(v.e, i, 0), K)

    def post(self, v, o):
        return [("never throws", False)] if o[0] == "throw" else self.result(v, self.out(v), v.n)

    def apply(self, ex, st, a, I):
        e = Z(ex.read_k(st, a[1], "i64"))
        al = algebra.A(ex, st)
        t = column(al, WEIGHTS(e), al.rows(e))
        al.els(t, lambda i, j: DH(EL(e, i, 0), K))
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class Degenerate(Opt):
    name, rx = "IsDegenerate", r"^IsDegenerate\("

    def setup(self, v):
        v.n, v.t = v.int("size", 0, algebra.MAXDIM, 64), v.real("threshold")
        v.C = self.mat(v, "C", v.n, v.n)
        return [self.ref(v, v.C), v.t]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        i = z3.Int("i!p")
        e = EL(EIG(v.C), i, 0)
        r = o[1] if isinstance(o[1], (bool, z3.BoolRef)) else Z(o[1]) != 0
        return [("exactly if an eigenvalue is smaller in size than the threshold", (r if z3.is_expr(r) else z3.BoolVal(r)) == z3.Exists([i], z3.And(i >= 0, i < v.n, e < v.t, -e < v.t)))]

    def templates(self, v, lc):
        k = z3.Int("k!t")
        e = EL(EIG(v.C), k, 0)
        for c in lc.ints():
            yield ("no small eigenvalue so far", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z(c.logical())), z3.Or(e >= v.t, -e >= v.t)), patterns=[e]))

    def apply(self, ex, st, a, I):
        C = Z(ex.read_k(st, a[0], "i64"))
        ex.oblige(st, "precondition of IsDegenerate: square matrix", ROWS(C) == COLS(C), I.loc, "pre")
        return [(st, ("ret", DEG(C, ZR(a[1]))))]


class WUpdate(Opt):
    name, rx = "WeightedUpdate", r"^WeightedUpdate\("

    def setup(self, v):
        v.n = v.int("residuals.n", 0, MAXN, 64)
        v.M, v.w = self.mat(v, "M", 7, 6), self.mat(v, "weights", v.n, 1)
        pj, v.J = self.vecs(v, "jacobians", MAT, v.n)
        pr, v.R = self.vecs(v, "residuals", VEC, v.n)
        v.assume(self.shapes(v.J, v.R))
        v.out = v.blob("result", 8, lazy=False)
        return [v.out, self.ref(v, v.M), self.ref(v, v.w), pj, pr]

    @staticmethod
    def shapes(J, R):
        k = z3.Int("k!s")
        return z3.ForAll([k], z3.And(COLS(J[k]) == 7, COLS(R[k]) == 1, ROWS(J[k]) == ROWS(R[k]), ROWS(R[k]) >= 0, ROWS(R[k]) <= algebra.MAXDIM), patterns=[J[k]]) if not z3.is_K(J) else z3.BoolVal(True)

    def sums(self, v, al, c):
        return [(SD(v.J, c), 7, 7), (SA(v.w, v.J, c), 7, 7), (SB(v.w, v.J, v.R, c), 7, 1)]

    def templates(self, v, lc):
        mats = self.mats(lc)
        for c in self.counters(lc):
            al = algebra.A(v.ex, v.st.fork())
            d, a, b = (al.dim(*s) for s in self.sums(v, al, c))
            d0, a0, b0 = (s[0] for s in self.sums(v, al, z3.IntVal(0)))
            J, R, w = v.J[c], v.R[c], EL(v.w, c, 0)
            al.dim(J, ROWS(R), 7), al.dim(R, ROWS(R), 1)
            jtj = al.mul(al.tr(J), J)
            n0 = len(v.st.pc)
            d1, a1, b1 = al.add(d, jtj), al.add(a, al.scale(w, jtj)), al.add(b, al.scale(w, al.mul(al.tr(J), R)))
            s1 = [s[0] for s in self.sums(v, al, c + 1)]
            z7, z71 = al.zero(7, 7), al.zero(7, 1)
            for f in al.st.pc[n0:]:
                yield ("fact", f)
            yield ("fact", z3.And(s1[0] == d1, s1[1] == a1, s1[2] == b1, d0 == z7, a0 == z7, b0 == z71))
            for it in mats:
                for s, r, cc in self.sums(v, al, c):
                    if algebra.DIMS[it.entry.get_id()][1:] == (r, cc):
                        yield ("sum so far", it.sym == s)
        for it in mats:
            _, r, c = algebra.DIMS[it.entry.get_id()]
            yield ("shape", z3.And(ROWS(it.sym) == r, COLS(it.sym) == c))

    @staticmethod
    def value(al, M, w, J, R, n):
        """(degenerate?, update otherwise)"""
        A, b = al.dim(SA(w, J, n), 7, 7), al.dim(SB(w, J, R, n), 7, 1)
        mt = al.tr(M)
        return DEG(SD(J, n), THRESHOLD), al.scale(-1, al.mul(al.inv(al.mul(mt, A, M)), al.mul(mt, b)))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        al = self.al(v)
        x = Z(self.out(v))
        d, u = self.value(al, v.M, v.w, v.J, v.R, v.n)
        return [("size", z3.And(ROWS(x) == 6, COLS(x) == 1)),
                ("a degenerate normal matrix gives a zero update", z3.Implies(d, x == al.zero(6, 1))),
                ("otherwise the update solves the weighted normal equations", z3.Implies(z3.Not(d), x == u))]

    def apply(self, ex, st, a, I):
        M, w = (Z(ex.read_k(st, p, "i64")) for p in a[1:3])
        (J, n), (R, m) = self.seq(ex, st, a[3]), self.seq(ex, st, a[4])
        k = z3.Int("k!s")
        ex.oblige(st, "precondition of WeightedUpdate: sizes match", z3.And(ROWS(w) == n, COLS(w) == 1, m == n, ROWS(M) == 7, COLS(M) == 6, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(COLS(J[k]) == 7, COLS(R[k]) == 1, ROWS(J[k]) == ROWS(R[k]))))), I.loc, "pre")
        al = algebra.A(ex, st)
        d, u = self.value(al, M, w, J, R, n)
        t = al.dim(WU(M, w, J, R, n), 6, 1)
        st.assume(z3.Implies(d, t == al.zero(6, 1)), z3.Implies(z3.Not(d), t == u))
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class MakeM(Opt):
    """proved for the real matrix type in C12"""
    name, rx, trusted = "MakeM", r"^MakeM\(", True

    def apply(self, ex, st, a, I):
        t = algebra.A(ex, st).dim(MM(Z(ex.read_k(st, a[1], "i64"))), 7, 6)
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class ToQuaternion(Opt):
    """proved for the real types in C16"""
    name, rx, trusted = "AngleAxisToQuaternion", r"^AngleAxisToQuaternion\(", True

    def apply(self, ex, st, a, I):
        ex.write_k(st, a[0], AAQ(Z(ex.read_k(st, a[1], "i64"))), "i64")
        return [(st, ("ret", None))]


class CalcUpdate(Opt):
    name, rx = "CalcUpdate", r"^CalcUpdate\("

    def setup(self, v):
        v.n = v.int("residuals.n", 0, MAXN, 64)
        v.unique("q")
        v.q, v.w = z3.Int("q"), self.mat(v, "weights", v.n, 1)
        pj, v.J = self.vecs(v, "jacobians", MAT, v.n)
        pr, v.R = self.vecs(v, "residuals", VEC, v.n)
        v.assume(WUpdate.shapes(v.J, v.R))
        v.out = v.blob("result", 16, lazy=False)
        return [v.out, self.ref(v, v.q), self.ref(v, v.w), pj, pr]

    @staticmethod
    def value(al, q, w, J, R, n):
        dx = al.dim(WU(al.dim(MM(q), 7, 6), w, J, R, n), 6, 1)
        return AAQ(al.blk(dx, 0, 0, 3, 1)), al.blk(dx, 3, 0, 3, 1)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        dq, dt = self.value(self.al(v), v.q, v.w, v.J, v.R, v.n)
        return [("rotation step from the first three entries of the weighted update", Z(self.out(v, 8)) == dq), ("translation step from its last three entries", Z(self.out(v)) == dt)]

    def apply(self, ex, st, a, I):
        q, w = (Z(ex.read_k(st, p, "i64")) for p in a[1:3])
        (J, n), (R, m) = self.seq(ex, st, a[3]), self.seq(ex, st, a[4])
        k = z3.Int("k!s")
        ex.oblige(st, "precondition of CalcUpdate: sizes match", z3.And(ROWS(w) == n, COLS(w) == 1, m == n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(COLS(J[k]) == 7, COLS(R[k]) == 1, ROWS(J[k]) == ROWS(R[k]))))), I.loc, "pre")
        dq, dt = self.value(algebra.A(ex, st), q, w, J, R, n)
        ex.write_k(st, Ptr(a[0].obj, iadd(a[0].off, 8)), dq, "i64")
        ex.write_k(st, a[0], dt, "i64")
        return [(st, ("ret", None))]


class Converged(Opt):
    name, rx = "CheckConvergence", r"^CheckConvergence\("

    def setup(self, v):
        v.unique("dq")
        v.q, v.t = z3.Int("dq"), self.mat(v, "dt", 3, 1)
        return [self.ref(v, v.q), self.ref(v, v.t)]

    @staticmethod
    def value(q, t):
        return z3.And(DOT(QVEC(q), QVEC(q)) < SMALL * SMALL, DOT(t, t) < SMALL * SMALL)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r = o[1] if isinstance(o[1], (bool, z3.BoolRef)) else Z(o[1]) != 0
        return [("exactly if the step is small in rotation and in translation", (r if z3.is_expr(r) else z3.BoolVal(r)) == self.value(v.q, v.t))]

    def apply(self, ex, st, a, I):
        q, t = (Z(ex.read_k(st, p, "i64")) for p in a)
        st.assume(CONV(q, t) == self.value(q, t))
        return [(st, ("ret", CONV(q, t)))]


class Make(Opt):
    """any matching problem: lists of Jacobians and residuals that depend on the pose, with shapes that fit"""
    name, rx, trusted = "Problem::Make", r"^IrvcProblem::Make\(", True

    def apply(self, ex, st, a, I):
        l, t = (Z(ex.read_k(st, Ptr(a[3].obj, iadd(a[3].off, o)), "i64")) for o in (0, 8))
        J, R, n = PJ(l, t), PR(l, t), PN(l, t)
        st.assume(n >= 0, n <= MAXN, WUpdate.shapes(J, R))
        ex.rng.set(n, 0, MAXN)
        for off, arr, name in ((0, R, "residuals"), (24, J, "jacobians")):
            s = ex.new_seq(st, name, 8, {0: "i64"}, n)
            st.wr(s).arrays[0] = arr
            models.vset(ex, st, Ptr(a[0].obj, iadd(a[0].off, off)), s, n)
        return [(st, ("ret", None))]


Weights.contracts, Normalize.contracts, WUpdate.contracts = (DHuber(),), (ScaleOf(),), (Degenerate(),)
DHuberDefault.contracts = (DHuber(),)
CalcUpdate.contracts = (WUpdate(), MakeM(), ToQuaternion())
Q, T = F("ghost.Q", IntS, IntS), F("ghost.T", IntS, IntS)


class Run(Opt):
    name, rx = "Optimizer::Run", r"^irvc_run$"
    intrinsics = algebra.MATS + strings.TABLE
    contracts = (Make(), Errors(), Normalize(), Weights(), CalcUpdate(), Converged())
    wall = 600

    def setup(self, v):
        v.l, v.t = self.mat(v, "rotation", 3, 3), self.mat(v, "translation", 3, 1)
        p = v.blob("initial pose", 16)
        v.cell(p, 0, "i64", v.l)
        v.cell(p, 8, "i64", v.t)
        v.max = v.int("limit", 0, (1 << 31) - 1)
        x = v.blob("argument", 4)
        v.out = v.blob("result", 128, lazy=False)
        v.assume(Q(0) == algebra.q_of(self.al(v), None, v.l), T(0) == v.t)
        return [x, p, v.max, v.out]

    # the run's history, as functions of the step
    def J(self, k):
        return PJ(QMAT(Q(k)), T(k))

    def R(self, k):
        return PR(QMAT(Q(k)), T(k))

    def n(self, k):
        return PN(QMAT(Q(k)), T(k))

    def pq(self, k):
        """the quaternion of the pose, whose components the problem's Jacobians refer to: not Q(k) itself, which may have the opposite sign"""
        return algebra.QOF(QMAT(Q(k)))

    def errs(self, k):
        return ERRS(self.R(k), self.n(k))

    def err(self, k):
        return SUM(self.errs(k))

    def scale(self, k):
        return SCALEOF(self.errs(k))

    def step(self, al, k):
        w = column(al, WEIGHTS(column(al, NORMED(column(al, self.errs(k), self.n(k))), self.n(k))), self.n(k))
        return CalcUpdate.value(al, self.pq(k), w, self.J(k), self.R(k), self.n(k))

    def stepq(self, k):
        dx = WU(MM(self.pq(k)), WEIGHTS(NORMED(self.errs(k))), self.J(k), self.R(k), self.n(k))
        return AAQ(BLK(dx, 0, 0, 3, 1)), BLK(dx, 3, 0, 3, 1)

    def larger_error(self, k):
        return self.err(k) > z3.If(k == 0, BIG, self.err(k - 1))

    def larger_scale(self, k):
        return self.scale(k) > z3.If(k == 0, BIG, self.scale(k - 1))

    def stops(self, k):
        return z3.Or(self.n(k) == 0, self.larger_error(k), self.larger_scale(k), CONV(*self.stepq(k)))

    def templates(self, v, lc):
        j = z3.Int("j!t")
        for c in self.counters(lc):
            al = algebra.A(v.ex, v.st.fork())
            n0 = len(v.st.pc)
            al.dim(T(c), 3, 1)
            al.dim(QMAT(Q(c)), 3, 3)
            dq, dt = self.step(al, c)
            t1 = al.add(T(c), dt)
            for f in al.st.pc[n0:]:
                yield ("fact", f)
            yield ("fact", z3.And(Q(c + 1) == QMUL(Q(c), dq), T(c + 1) == t1))
            for it in lc.items:
                e = it.entry
                if it.kind == "int" and z3.is_expr(e):
                    if e.get_id() in algebra.DIMS:
                        if algebra.DIMS[e.get_id()][1:] == (3, 1):
                            yield ("translation after the steps so far", it.sym == T(c))
                    elif z3.is_app(e) and e.num_args() or z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        yield ("rotation after the steps so far", it.sym == Q(c))
                elif it.sym is not None and it.sym.sort() == RealS:
                    yield ("previous error", it.sym == z3.If(c == 0, BIG, self.err(c - 1)))
                    yield ("previous scale", it.sym == z3.If(c == 0, BIG, self.scale(c - 1)))
            yield ("no earlier step stopped", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), z3.Not(self.stops(j))), patterns=[Q(j)]))

    def get(self, v, what):
        outs = [o for o in v.ex.run_fn(v.ex.mod.fn("irvc_res_" + what), [v.out], v.st.fork()) if o[1][0] == "ret"]
        return outs[0][1][1]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        k, e, s, ok, pose = Z(self.get(v, "iteration")), ZR(self.get(v, "error")), ZR(self.get(v, "scale")), self.get(v, "success"), self.get(v, "pose")
        ok = ok if isinstance(ok, (bool, z3.BoolRef)) else z3.simplify(Z(ok) != 0)
        msg = strings.text(v.ex, v.st, self.get(v, "message")) or ""
        kinds = [w for w in ("empty", "error", "scale", "converged", "maximum") if w in msg.lower()]
        if len(kinds) != 1:
            return [("the message names one outcome: " + msg, False)]
        kind = kinds[0]
        al = self.al(v)
        l, t = (Z(v.ex.read_k(v.st, Ptr(pose.obj, iadd(pose.off, o_)), "i64")) for o_ in (0, 8))
        j = z3.Int("j!p")
        after = k + 1 if kind == "converged" else k
        g = [("no earlier step should have stopped", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(self.stops(j))))),
             ("the pose is the pose after exactly the updates that were applied", z3.And(l == QMAT(Q(after)), t == T(after))),
             ("success exactly when matching ended by convergence or growth", (ok if z3.is_expr(ok) else z3.BoolVal(ok)) == z3.BoolVal(kind in ("error", "scale", "converged")))]
        if kind == "maximum":
            last = z3.If(k == 0, BIG, self.err(k - 1)), z3.If(k == 0, BIG, self.scale(k - 1))
            return g + [("the limit was reached", k == v.max), ("the last error and scale", z3.And(e == last[0], s == last[1]))]
        g += [("the step is within the limit", z3.And(k >= 0, k < v.max))]
        none = [self.n(k) == 0, self.larger_error(k), self.larger_scale(k), CONV(*self.stepq(k))]
        i = ("empty", "error", "scale", "converged").index(kind)
        g += [("the event named is what ended it: " + kind, z3.And(none[i], *[z3.Not(x) for x in none[:i]]))]
        if i:
            g += [("the error and scale of that step", z3.And(e == self.err(k), s == self.scale(k)))]
        return g
