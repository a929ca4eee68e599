"""C17 the Kalman filter."""
import os

from common import *
import algebra
from algebra import ROWS, COLS, EL

ALG = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units", "stubs", "algebra")]


class Matrices(Spec):
    intrinsics = algebra.MATS

    def al(self, v):
        return algebra.A(v.ex, v.st)

    def mat(self, v, name, r=None, c=None):
        v.unique(name)
        return self.al(v).mat(name, r, c)

    def ref(self, v, t, name=None):
        p = v.blob("&" + (name or str(t)), 8)
        v.cell(p, 0, "i64", t)
        return p

    def run(self, v, fn, *args):
        outs = [o for o in v.ex.run_fn(v.ex.mod.fn(fn), list(args), v.st) if o[1][0] == "ret"]
        assert len(outs) == 1
        v.st = outs[0][0]

    def build(self, v, name, fn, size, parts):
        """an object built by the constructor from the named values, and where it keeps each of them"""
        p = v.blob(name, size, lazy=False)
        self.run(v, fn, p, *[self.ref(v, t, n + " given") if z3.is_expr(t) and n not in self.scalars else t for n, t in parts])
        v.at = {}
        return p

    scalars = ()

    def find(self, v, p, want):
        for n, t in want:
            for off, (_, k, x) in sorted(v.st.mem[p.obj.id].cells.items()):
                if k == "i64" and z3.is_expr(x) and z3.simplify(x).eq(z3.simplify(t)):
                    v.at[n] = off
                    break
            else:
                raise Unsupported("the object does not keep " + n)

    def get(self, v, p, n, st=None):
        return v.ex.read_k(st or v.st, Ptr(p.obj, v.at[n]), "i64")


class _KF(Matrices):
    """dimensions: n states, l inputs, m measurements"""

    def filter(self, v):
        v.n, v.l, v.m = v.int("states", 1, 1 << 20), v.int("inputs", 1, 1 << 20), v.int("measurements", 1, 1 << 20)
        n, l, m = v.n, v.l, v.m
        v.x, v.P, v.A, v.B = self.mat(v, "x", n, 1), self.mat(v, "P", n, n), self.mat(v, "A", n, n), self.mat(v, "B", n, l)
        v.C, v.Q, v.R = self.mat(v, "C", m, n), self.mat(v, "Q", n, n), self.mat(v, "R", m, m)
        parts = [("x", v.x), ("A", v.A), ("B", v.B), ("C", v.C), ("Q", v.Q), ("R", v.R), ("P", v.P)]
        f = self.build(v, "filter", "irvc_kf_make", 128, parts)
        self.find(v, f, parts)
        v.f = f
        return f

    def state(self, v, x, P):
        return [("mean", Z(self.get(v, v.f, "x")) == x), ("covariance", Z(self.get(v, v.f, "P")) == P), self.models(v)]

    def models(self, v):
        return ("transition, input, measurement and noise matrices are unchanged", z3.And(*[Z(self.get(v, v.f, n)) == t for n, t in (("A", v.A), ("B", v.B), ("C", v.C), ("Q", v.Q), ("R", v.R))]))

    def predicted(self, v, A, B, u, Q, x=None, P=None):
        al = self.al(v)
        x, P = v.x if x is None else x, v.P if P is None else P
        return al.add(al.mul(A, x), al.mul(B, u)), al.add(al.mul(A, P, al.tr(A)), Q)

    def gain(self, v, P=None):
        al = self.al(v)
        P = v.P if P is None else P
        pct = al.mul(P, al.tr(v.C))
        return al.mul(pct, al.inv(al.add(v.R, al.mul(v.C, pct))))

    def updated(self, v, y, x=None, P=None):
        al = self.al(v)
        x, P = v.x if x is None else x, v.P if P is None else P
        K = self.gain(v, P)
        return K, al.add(x, al.mul(K, al.sub(y, al.mul(v.C, x)))), al.sub(P, al.mul(K, v.C, P))


class Make(_KF):
    name, rx = "KalmanFilter: construction", r"^irvc_kf_get$"

    def setup(self, v):
        f = self.filter(v)
        v.i = v.int("i", 0, (1 << 31) - 1)
        v.assume(v.i < v.n)
        return [f, v.i]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.state(v, v.x, v.P) + [("an element of the mean", ZR(o[1]) == EL(v.x, v.i, 0))]


class Init(_KF):
    name, rx = "KalmanFilter::init", r"^irvc_kf_init$"

    def setup(self, v):
        f = self.filter(v)
        v.x1, v.P1 = self.mat(v, "x given", v.n, 1), self.mat(v, "P given", v.n, v.n)
        return [f, self.ref(v, v.x1), self.ref(v, v.P1)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.state(v, v.x1, v.P1)


class Predict(_KF):
    name, rx = "KalmanFilter::predict", r"^irvc_kf_predict$"

    def setup(self, v):
        f = self.filter(v)
        v.u = self.mat(v, "u", v.l, 1)
        return [f, self.ref(v, v.u)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.state(v, *self.predicted(v, v.A, v.B, v.u, v.Q))


class PredictWith(_KF):
    name, rx = "KalmanFilter::predict with given matrices", r"^irvc_kf_predict_with$"

    def setup(self, v):
        f = self.filter(v)
        v.l2 = v.int("inputs given", 1, 1 << 20)
        v.u, v.A2, v.B2, v.Q2 = self.mat(v, "u", v.l2, 1), self.mat(v, "A given", v.n, v.n), self.mat(v, "B given", v.n, v.l2), self.mat(v, "Q given", v.n, v.n)
        return [f] + [self.ref(v, t) for t in (v.u, v.A2, v.B2, v.Q2)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.state(v, *self.predicted(v, v.A2, v.B2, v.u, v.Q2))


class Update(_KF):
    name, rx = "KalmanFilter::update", r"^irvc_kf_update$"

    def setup(self, v):
        f = self.filter(v)
        v.y = self.mat(v, "y", v.m, 1)
        return [f, self.ref(v, v.y)]

    def post(self, v, o):
        K, x, P = self.updated(v, v.y)
        bad = self.al(v).invalid(K)
        if o[0] == "throw":
            return [("only an invalid gain is rejected, with invalid_argument", z3.And(bad, z3.BoolVal(o[1] == "std::invalid_argument")))] + self.state(v, v.x, v.P)
        return [("an invalid gain is rejected", z3.Not(bad))] + self.state(v, x, P)


class Both(_KF):
    name, rx = "KalmanFilter: predict then update", r"^irvc_kf_both$"

    def setup(self, v):
        f = self.filter(v)
        v.u, v.y = self.mat(v, "u", v.l, 1), self.mat(v, "y", v.m, 1)
        return [f, self.ref(v, v.u), self.ref(v, v.y)]

    def post(self, v, o):
        x1, P1 = self.predicted(v, v.A, v.B, v.u, v.Q)
        K, x, P = self.updated(v, v.y, x1, P1)
        bad = self.al(v).invalid(K)
        if o[0] == "throw":
            return [("only an invalid gain is rejected, with invalid_argument", z3.And(bad, z3.BoolVal(o[1] == "std::invalid_argument")))] + self.state(v, x1, P1)
        return [("an invalid gain is rejected", z3.Not(bad))] + self.state(v, x, P)


UNITS = [Unit("u_kalman.cpp", [Make(), Init(), Predict(), PredictWith(), Update(), Both()], incs=ALG)]
REPLAY = ["c17.cpp"]
ASSUME = ["Eigen's dynamic matrices satisfy the contract of matrix algebra (units/stubs/algebra, irvc/algebra.py): sums, products, transposes and inverses in exact arithmetic, for every size",
          "sizes of the matrices given to the filter fit together (asserted by the code), each at most 2^20", "isNaN/isInf of a gain are uninterpreted"]
