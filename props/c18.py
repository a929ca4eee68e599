"""C18 the filter of delayed measurements."""
import c17
from common import *
from algebra import ROWS, COLS, EL, SETB, F
from c17 import Matrices, ALG

IntS, RealS = z3.IntSort(), z3.RealSort()
AGE, PART = F("age", IntS, IntS), F("part", IntS, IntS)      # index into the stacked state: which age, which component


class Stack(Lemma):
    """age and part are well defined: an index i has age k iff it lies in [k d, (k+1) d), and its part is then i - k d"""
    name = "stacked index"

    def goals(self, v):
        i, d, k, a, m = z3.Ints("i d k a m")
        e = z3.Int("e")
        return [("age not below", [d > 0, e >= 1, k == a + e, m < d, i == a * d + m], z3.Not(i >= k * d)),
                ("age not above", [d > 0, e >= 1, a == k + e, m >= 0, i == a * d + m], z3.Not(i < k * d + d)),
                ("of that age", [d > 0, m >= 0, m < d, i == a * d + m, k == a], z3.And(i >= k * d, i < k * d + d, m == i - k * d))]


class History(Lemma):
    """a run of predictions: X(t, k) is the state of age k after t of them, NEW(t) the newest one then"""
    name = "history of predictions"

    def goals(self, v):
        X, NEW = z3.Function("X", IntS, IntS, RealS), z3.Function("NEW", IntS, RealS)
        t, k, j, N = z3.Ints("t k j N")
        step = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), X(t + 1, j) == z3.If(j == 0, NEW(t + 1), X(t, j - 1))))
        inv = lambda t: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, k <= t), X(t, k) == NEW(t - k)))
        return [("at the start", [X(0, 0) == NEW(0)], inv(z3.IntVal(0))), ("after one more prediction", [t >= 0, N >= 1, inv(t), step], inv(t + 1))]


class _TD(Matrices):
    max_unroll = 6

    def dims(self, v):
        v.n, v.N = v.int("states", 1, 1 << 14), v.int("window", 1, 1 << 14)

    def filter(self, v):
        """a filter in any state: a stacked mean and a joint covariance of the window's size"""
        self.dims(v)
        n, N = v.n, v.N
        v.x, v.P = self.mat(v, "x", n * N, 1), self.mat(v, "P", n * N, n * N)
        v.x0, v.P0 = self.mat(v, "x at start", n, 1), self.mat(v, "P at start", n, n)
        v.f = self.made(v)
        return v.f

    def made(self, v):
        """the object as its constructor lays it out, holding x and P"""
        p = v.blob("filter", 128, lazy=False)
        self.layout(v)
        for n in ("x", "P", "N", "n"):
            v.cell(p, *self.at[n], getattr(v, n))
        return p

    def member(self, v, n):
        return v.ex.read_k(v.st, Ptr(v.f.obj, self.at[n][0]), self.at[n][1])

    def layout(self, v):
        """where the object keeps its members: read off a filter built by the constructor with a window of one"""
        n, st = v.int("states of the probe", 2, 1 << 14), v.st
        v.st = st.fork()
        x0, P0 = self.mat(v, "x probe", n, 1), self.mat(v, "P probe", n, n)
        p = v.blob("probe", 128, lazy=False)
        self.run(v, "irvc_td_make", p, self.ref(v, x0, "x of the probe"), self.ref(v, P0, "P of the probe"), 1)
        at = {}
        for off, (_, k, x) in sorted(v.st.mem[p.obj.id].cells.items()):
            if z3.is_expr(x) and x.get_id() in c17.algebra.DIMS:
                at["x" if isinstance(c17.algebra.DIMS[x.get_id()][2], int) and c17.algebra.DIMS[x.get_id()][2] == 1 else "P"] = (off, k)
            elif isc(x) and x == 1 or z3.is_expr(x) and z3.is_int_value(x) and x.as_long() == 1:
                at["N"] = (off, k)
            elif z3.is_expr(x) and z3.simplify(x).eq(n):
                at["n"] = (off, k)
        if set(at) != {"x", "P", "N", "n"}:
            raise Unsupported("the filter does not keep " + ", ".join(sorted({"x", "P", "N", "n"} - set(at))))
        self.at, v.st = at, st

    def state(self, v, o=None):
        return self.member(v, "x"), self.member(v, "P")

    def same_state(self, v):
        x, P = self.state(v)
        k = [self.member(v, "N"), self.member(v, "n")]
        return [("mean", Z(x) == v.x), ("covariance", Z(P) == v.P), ("window and dimension unchanged", z3.And(Z(k[0]) == v.N, Z(k[1]) == v.n))]

    def each(self, what, hi, fn):
        p = z3.Int("p!p")
        return (what, z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < hi), fn(p))))

    def each2(self, what, hi, fn):
        p, q = z3.Ints("p!p q!p")
        return (what, z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < hi, q >= 0, q < hi), fn(p, q))))

    def shape(self, what, t, r, c):
        return (what, z3.And(ROWS(Z(t)) == r, COLS(Z(t)) == c))


class Make(_TD):
    name, rx = "TimeDelayKalmanFilter: construction", r"^irvc_td_make$"

    def setup(self, v):
        self.dims(v)
        n = v.n
        v.x0, v.P0 = self.mat(v, "x at start", n, 1), self.mat(v, "P at start", n, n)
        i = z3.Int("i!s")
        v.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(i == AGE(i) * n + PART(i), PART(i) >= 0, PART(i) < n, AGE(i) >= 0)), patterns=[AGE(i)]))
        self.layout(v)
        v.f = v.blob("filter", 128, lazy=False)
        return [v.f, self.ref(v, v.x0, "x given"), self.ref(v, v.P0, "P given"), v.N]

    def mean(self, v, x, p):
        return EL(x, p, 0) == EL(v.x0, PART(p), 0)

    def cov(self, v, P, p, q):
        return EL(P, p, q) == z3.If(AGE(p) == AGE(q), EL(v.P0, PART(p), PART(q)), 0)

    def templates(self, v, lc):
        p, q = z3.Ints("p!t q!t")
        d = v.n
        mats = [it for it in lc.items if it.kind == "int" and z3.is_expr(it.entry) and it.entry.get_id() in c17.algebra.DIMS]
        for it in mats:
            t, r, c = c17.algebra.DIMS[it.entry.get_id()]
            x = it.sym
            yield ("shape", z3.And(ROWS(x) == r, COLS(x) == c))
            for cu in lc.ints():
                cu = Z(cu.logical())
                if any(cu.eq(m.sym) for m in mats):
                    continue
                inside = z3.And(cu * d <= p, p < cu * d + d)
                yield ("fact", z3.ForAll([p], z3.Implies(p >= 0, z3.And((AGE(p) == cu) == inside, z3.Implies(inside, PART(p) == p - cu * d))), patterns=[AGE(p)]))
                for e in (cu * d, cu):
                    yield ("ages so far", z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < e), z3.And(self.mean(v, x, p), AGE(p) >= 0)), patterns=[EL(x, p, 0)]))
                    yield ("blocks so far", z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, q >= 0, p < r, q < r), z3.If(z3.And(p < e, q < e), self.cov(v, x, p, q), EL(x, p, q) == 0)), patterns=[EL(x, p, q)]))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        x, P = (Z(t) for t in self.state(v))
        w = v.n * v.N
        k = [self.member(v, "N"), self.member(v, "n")]
        return [self.shape("size of the mean", x, w, 1), self.shape("size of the covariance", P, w, w),
                self.each("every age starts at the given state", w, lambda p: self.mean(v, x, p)),
                self.each2("every age starts with the given covariance, different ages uncorrelated", w, lambda p, q: self.cov(v, P, p, q)),
                ("window and dimension", z3.And(Z(k[0]) == v.N, Z(k[1]) == v.n))]


class Predict(_TD):
    name, rx = "TimeDelayKalmanFilter::predict", r"^irvc_td_predict$"

    def setup(self, v):
        f = self.filter(v)
        n = v.n
        v.xn, v.A, v.Q = self.mat(v, "x next", n, 1), self.mat(v, "A", n, n), self.mat(v, "Q", n, n)
        return [f] + [self.ref(v, t) for t in (v.xn, v.A, v.Q)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        x, P = (Z(t) for t in self.state(v))
        n, w = v.n, v.n * v.N
        c = w - n
        al = self.al(v)
        at = al.tr(v.A)
        nn = al.add(al.mul(v.A, al.blk(v.P, 0, 0, n, n), at), v.Q)
        no, on = al.mul(v.A, al.blk(v.P, 0, 0, n, c)), al.mul(al.blk(v.P, 0, 0, c, n), at)
        k = [self.member(v, "N"), self.member(v, "n")]
        return [self.shape("size of the mean", x, w, 1), self.shape("size of the covariance", P, w, w),
                self.each("the newest state is the prediction", n, lambda p: EL(x, p, 0) == EL(v.xn, p, 0)),
                self.each("older states move back by one step", w, lambda p: z3.Implies(p >= n, EL(x, p, 0) == EL(v.x, p - n, 0))),
                self.each2("newest block: A P A' + Q", n, lambda p, q: EL(P, p, q) == EL(nn, p, q)),
                self.each2("newest with older: A P", w, lambda p, q: z3.Implies(z3.And(p < n, q >= n), EL(P, p, q) == EL(no, p, q - n))),
                self.each2("older with newest: P A'", w, lambda p, q: z3.Implies(z3.And(p >= n, q < n), EL(P, p, q) == EL(on, p - n, q))),
                self.each2("older blocks move by one step", w, lambda p, q: z3.Implies(z3.And(p >= n, q >= n), EL(P, p, q) == EL(v.P, p - n, q - n))),
                ("window and dimension unchanged", z3.And(Z(k[0]) == v.N, Z(k[1]) == v.n))]


class Update(_TD):
    name, rx = "TimeDelayKalmanFilter::update", r"^irvc_td_update$"

    def setup(self, v):
        f = self.filter(v)
        v.m, v.d = v.int("measurements", 1, 1 << 14), v.int("delay", -(1 << 31), (1 << 31) - 1)
        v.y, v.C, v.R = self.mat(v, "y", v.m, 1), self.mat(v, "C", v.m, v.n), self.mat(v, "R", v.m, v.m)
        return [f] + [self.ref(v, t) for t in (v.y, v.C, v.R)] + [v.d]

    def post(self, v, o):
        n, N, m, d = v.n, v.N, v.m, v.d
        al = self.al(v)
        D = al.setb(al.zero(m, n * N), 0, n * d, v.C)
        out = z3.Or(d < 0, d >= N)
        pdt = al.mul(v.P, al.tr(D))
        K = al.mul(pdt, al.inv(al.add(v.R, al.mul(D, pdt))))
        bad = al.invalid(K)
        if o[0] == "throw":
            return [("rejected: a delay outside the window or an invalid gain, with invalid_argument", z3.And(z3.Or(out, bad), z3.BoolVal(o[1] == "std::invalid_argument")))] + self.same_state(v)
        x, P = (Z(t) for t in self.state(v))
        x1 = al.add(v.x, al.mul(K, al.sub(v.y, al.mul(D, v.x))))
        P1 = al.sub(v.P, al.mul(K, D, v.P))
        return [("a delay outside the window is rejected", z3.Not(out)), ("an invalid gain is rejected", z3.Not(bad)),
                ("mean: Kalman update with the measurement matrix at the delay's block", x == x1),
                ("covariance: Kalman update with the measurement matrix at the delay's block", P == P1)]


class _Get(_TD):
    def setup(self, v):
        f = self.filter(v)
        v.out = v.blob("result", 8, lazy=False)
        return [f] + self.extra(v) + [v.out]

    def extra(self, v):
        return []

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r = Z(v.ex.read_k(v.st, v.out, "i64"))
        return self.value(v, r) + self.same_state(v)


class GetX(_Get):
    name, rx = "TimeDelayKalmanFilter::getX", r"^irvc_td_getx$"

    def extra(self, v):
        v.d = v.int("delay", 0, 1 << 14)
        v.assume(v.d < v.N)
        return [v.d]

    def value(self, v, r):
        return [self.shape("size", r, v.n, 1), self.each("the state of that age", v.n, lambda p: EL(r, p, 0) == EL(v.x, v.d * v.n + p, 0))]


class LatestX(_Get):
    name, rx = "TimeDelayKalmanFilter::getLatestX", r"^irvc_td_latestx$"

    def value(self, v, r):
        return [self.shape("size", r, v.n, 1), self.each("the state of age zero", v.n, lambda p: EL(r, p, 0) == EL(v.x, p, 0))]


class LatestP(_Get):
    name, rx = "TimeDelayKalmanFilter::getLatestP", r"^irvc_td_latestp$"

    def value(self, v, r):
        return [self.shape("size", r, v.n, v.n), self.each2("the newest block of the covariance", v.n, lambda p, q: EL(r, p, q) == EL(v.P, p, q))]


UNITS = [Unit("u_kalman.cpp", [Stack(), History(), Make(), Predict(), Update(), GetX(), LatestX(), LatestP()], incs=ALG)]
REPLAY = ["c18.cpp"]
ASSUME = ["Eigen's dynamic matrices satisfy the contract of matrix algebra (units/stubs/algebra, irvc/algebra.py): sums, products, transposes and inverses in exact arithmetic, parts by position, for every size",
          "sizes of the matrices given to the filter fit together (asserted by the code), state dimension and window at most 2^14", "isNaN/isInf of a gain are uninterpreted"]
