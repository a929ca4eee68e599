"""C11 robust weights."""
from run import *


def h_facts(e, k, s, h):
    """s: the residual's size, h: the loss"""
    return [k > 0, s >= 0, s * s == e, h == z3.If(e < k * k, e, 2 * k * s - k * k)]


class Huber(Opt):
    name, rx = "Huber", r"^irvc_huber$"

    def setup(self, v):
        v.e, v.k = v.real("squared error"), v.real("cut-off")
        v.assume(v.k > 0, v.e >= 0)
        return [v.e, v.k]

    def cut(self, v):
        return v.k

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        h, e, k = ZR(o[1]), v.e, self.cut(v)
        s = z3.Real("size")
        return [("the squared error up to the cut-off", z3.Implies(e <= k * k, h == e)),
                ("twice the cut-off times the residual's size, less the squared cut-off, beyond it", z3.Implies(e >= k * k, h == 2 * k * s - k * k), [s >= 0, s * s == e])]


class HuberDefault(Huber):
    name, rx = "Huber with the default cut-off", r"^irvc_huber1$"

    def setup(self, v):
        v.e = v.real("squared error")
        v.assume(v.e >= 0)
        return [v.e]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        # the squared cut-off is a double: exact on either side of it, with its rounding left out
        h, e, s, tol = ZR(o[1]), v.e, z3.Real("size"), z3.RealVal("1/1000000000000")
        d = h - (2 * K * s - K * K)
        return [("the squared error up to 1.345 squared", z3.Implies(e <= K * K - tol, h == e)),
                ("linear in the residual's size beyond it", z3.Implies(e >= K * K + tol, z3.And(d <= tol, d >= -tol)), [s >= 0, s * s == e])]


class DHuberAny(Opt):
    name, rx, contracts = "HuberDerivative with any cut-off", r"^irvc_dhuber$", (DHuber(),)

    def setup(self, v):
        v.e, v.k = v.real("squared error"), v.real("cut-off")
        v.assume(v.k > 0)
        return [v.e, v.k]

    def post(self, v, o):
        return [("never throws", False)] if o[0] == "throw" else [("the weight", ZR(o[1]) == DH(v.e, v.k))]


class Loss(Lemma):
    """what the two contracts say about loss and weight"""
    name = "loss and weight"

    def goals(self, v):
        k, e, s, h, f, t, g, w, u = z3.Reals("k e s h f t g w u")
        a, b = h_facts(e, k, s, h), h_facts(f, k, t, g)
        W = [z3.Implies(e < k * k, w == 1), z3.Implies(e >= k * k, z3.And(w > 0, w * s == k))]
        U = [z3.Implies(f < k * k, u == 1), z3.Implies(f >= k * k, z3.And(u > 0, u * t == k))]
        le = e <= f
        d = f - e
        err = g - h - w * d
        root = [z3.Implies(le, s <= t), z3.Implies(e < k * k, s < k), z3.Implies(e >= k * k, s >= k), z3.Implies(f < k * k, t < k), z3.Implies(f >= k * k, t >= k)]
        return [("a larger squared error is a larger size", a + b + [le], s <= t),
                ("size against the cut-off", a, z3.And(z3.Implies(e < k * k, s < k), z3.Implies(e >= k * k, s >= k))),
                ("the loss never decreases", a + b + root + [le], h <= g),
                ("the loss is continuous at the cut-off", a + [e == k * k, s == k], h == e),
                ("the loss is at most the squared error", a + root, h <= e),
                ("the weight never increases", a + b + W + U + root + [le], u <= w),
                ("the weight tends to zero: below any bound for every large enough error", a + W + [u > 0, e > (k * k) / (u * u), e >= k * k, s * u > k], w < u),
                ("large enough errors", a + [u > 0, e * u * u > k * k], s * u > k),
                # |loss(f) - loss(e) - weight(e) (f - e)| <= (f - e)^2 / k^2: the weight is the loss's derivative at every e >= 0
                ("derivative, both below", a + b + W + [e < k * k, f < k * k], err == 0),
                ("derivative, leaving the quadratic part: value", a + b + W + [e < k * k, f >= k * k], err == -(t - k) * (t - k)),
                ("derivative, leaving the quadratic part: bound", a + b + root + [e < k * k, f >= k * k], z3.And(t - k >= 0, (t - k) * k <= f - k * k, f - k * k <= d)),
                ("derivative, entering the quadratic part: value", a + b + W + [e >= k * k, f < k * k, s >= k], err * s == (s - k) * (f - k * s)),
                ("derivative, entering the quadratic part: bound", a + b + root + [e >= k * k, f < k * k], z3.And(s - k >= 0, (s - k) * k <= e - k * k, e - k * k <= -d, k * s - f >= 0, k * s - f <= -d)),
                ("derivative, both beyond: value", a + b + W + [e >= k * k, f >= k * k, s >= k], err * s == -k * (t - s) * (t - s)),
                ("derivative, both beyond: bound", a + b + root + [e >= k * k, f >= k * k], z3.And(z3.Implies(t >= s, (t - s) * k <= d), z3.Implies(t <= s, (s - t) * k <= -d)))]


UNITS = [Unit("u_run.cpp", [Huber(), HuberDefault(), DHuber(), DHuberAny(), DHuberDefault(), Loss(), Errors(), Normalize(), Weights(), Degenerate(), WUpdate()], incs=ALG)]
REPLAY = ["c11.cpp"]
ASSUME = ["real arithmetic in place of double; squared errors are not negative and the cut-off is positive",
          "Eigen's matrices satisfy the contract of matrix algebra (units/stubs/algebra, irvc/algebra.py); the dense solver of the normal equations is exact (LLT of a positive definite matrix)",
          "Scale: the contract proved in C10 (never negative, a function of the errors)", "shapes of the lists given to the optimiser match (asserted by the code)"]
