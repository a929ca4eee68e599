"""C28 the scalar filter over every history of measurements."""
from common import *
from c17 import ALG

R = z3.RealSort()
X, V, P = (z3.Function(n, IntS, R) for n in ("filtered", "variance", "predicted_variance"))
NS = z3.RealVal(str(Fraction(1e-9)))


class Filtered(Spec):
    name, rx = "Simple1DFilter client (history of measurements)", r"^irvc_history$"

    def setup(self, v):
        v.p = v.real("process")
        v.n = v.int("n", 0, 1 << 30)
        ps = []
        for name, k in (("measurements", "f64"), ("stddevs", "f64"), ("stamps", "i64"), ("filtered", "f64")):
            s = v.seqobj(name, 8, {0: k}, v.n)
            ps.append(s if isinstance(s, Ptr) else Ptr(s, 0))
        v.z, v.s, v.t = (v.ex.arr(v.st, p.obj, 0) for p in ps[:3])
        v.out = ps[3]
        k = z3.Int("k!s")
        v.assume(z3.ForAll([k], v.s[k] >= 0, patterns=[v.s[k]]), z3.ForAll([k], z3.And(v.t[k] >= 0, v.t[k] < 1 << 62), patterns=[v.t[k]]))
        return [v.p, *ps[:3], v.n, v.out]

    def dt(self, v, k):
        return z3.ToReal(v.t[k] - v.t[k - 1]) * NS

    def share(self, v, k):
        """facts on the share of measurement k (k >= 1)"""
        g = z3.Function("share", IntS, R)(k)
        s2 = v.s[k] * v.s[k]
        q = v.p * self.dt(v, k)
        tot = P(k) + s2
        return g, [P(k) == V(k - 1) + q * q, z3.If(tot > 0, g * tot == P(k), g == 0), X(k) == X(k - 1) + g * (v.z[k] - X(k - 1)), V(k) == (1 - g) * P(k),
                   z3.Implies(V(k - 1) >= 0, z3.And(g >= 0, g <= 1, V(k) >= 0))]   # by the lemma below

    def first(self, v):
        return z3.And(X(0) == v.z[0], V(0) == v.s[0] * v.s[0])

    def templates(self, v, lc):
        k = z3.Int("k!t")
        for c in (lc.T,):       # the iteration
            g, f = self.share(v, c)
            yield ("fact", self.first(v))
            yield ("fact", z3.Implies(c >= 1, z3.And(f)))
            for it in lc.items:
                if it.kind == "real":
                    yield ("the state so far", z3.Implies(c >= 1, it.sym == X(c - 1)))
                    yield ("its variance so far", z3.Implies(c >= 1, it.sym == V(c - 1)))
                    yield ("its deviation so far", z3.Implies(c >= 1, z3.And(it.sym >= 0, it.sym * it.sym == V(c - 1))))
                if it.kind == "int":
                    yield ("latest stamp", z3.Implies(c >= 1, it.sym == v.t[c - 1]))
                    yield ("initialised after the first", z3.Implies(c >= 1, it.sym == 1))
                    yield ("not initialised before the first", z3.Implies(c == 0, it.sym == 0))
                if it.kind == "arr":
                    yield ("answers so far", FA(k, z3.Implies(z3.And(k >= 0, k < c), it.sym[k] == X(k))))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        k = z3.Int("k!p")
        A = v.ex.arr(v.st, v.out.obj, 0)
        return [("every answer is the filter's state", FA(k, z3.Implies(z3.And(k >= 0, k < v.n), A[k] == X(k))))]


class Share(Lemma):
    name = "share and variance"

    def goals(self, v):
        p, s2, g, x, z, y, w, q = z3.Reals("p s2 g x z y w q")
        a = [p >= 0, s2 >= 0, z3.If(p + s2 > 0, g * (p + s2) == p, g == 0), y == x + g * (z - x), w == (1 - g) * p]
        return [("the share is between zero and one", a, z3.And(g >= 0, g <= 1)),
                ("the update never increases the variance, which stays non-negative", a + [g >= 0, g <= 1], z3.And(w <= p, w >= 0)),
                ("the state moves towards the measurement and not past it", a + [g >= 0, g <= 1], z3.And(z3.Implies(x <= z, z3.And(x <= y, y <= z)), z3.Implies(x >= z, z3.And(x >= y, y >= z)))),
                ("the predicted variance is not negative", [w >= 0], w + q * q >= 0)]


UNITS = [Unit("u_scalar.cpp", [Filtered(), Share()], incs=ALG)]
REPLAY = ["c28.cpp"]
ASSUME = ["real arithmetic in place of double", "measurement deviations are not negative (the square root of a variance that is not negative)", "time stamps are not negative; rclcpp's time is a count of nanoseconds (units/stubs)"]
