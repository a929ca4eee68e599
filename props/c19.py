"""C19 update interval, over every history of readings."""
from common import *

LAST = z3.Function("last_accepted", IntS, z3.RealSort())   # last_accepted(k): the latest accepted of the readings 0..k-1 (k >= 1)


class History(Spec):
    name = "UpdateInterval client (history of readings)"
    rx = r"^irvc_intervals$"
    inf_div = True

    def setup(self, v):
        v.f = v.real("frequency")
        v.n = v.int("n", 0, 1 << 30)
        t = v.seqobj("times", 8, {0: "f64"}, v.n)
        v.r = v.seqobj("intervals", 8, {0: "f64"}, v.n)
        v.T = v.ex.arr(v.st, t.obj if isinstance(t, Ptr) else t, 0)
        v.ro = v.r.obj if isinstance(v.r, Ptr) else v.r
        v.assume(LAST(1) == v.T[0])
        P = lambda x: x if isinstance(x, Ptr) else Ptr(x, 0)
        return [v.f, P(t), v.n, P(v.r)]

    def ok(self, v, k, r):
        d = v.T[k] - LAST(k)
        return z3.If(k == 0, r * z3.If(v.f > TENTH, v.f, TENTH) == 1,
                     z3.If(d < 0, r == -1, z3.If(d == 0, z3.And(r >= 0, r < EPS), r == z3.If(d < CAP, d, CAP))))

    def templates(self, v, lc):
        k = z3.Int("k!t")
        for i in lc.ints():
            c = Z(i.logical())
            yield ("fact", z3.Implies(c >= 1, LAST(c + 1) == z3.If(v.T[c] < LAST(c), LAST(c), v.T[c])))
            for it in lc.items:
                if it.kind == "real":
                    yield ("latest accepted reading is remembered", z3.Implies(c >= 1, it.sym == LAST(c)))
                if it.kind == "int":
                    yield ("a reading is remembered after the first", z3.Implies(c >= 1, it.sym == 1))
                    yield ("a reading is remembered only after the first", z3.Implies(c == 0, it.sym == 0))
                if it.kind == "arr":
                    yield ("intervals answered up to the cursor", FA(k, z3.Implies(z3.And(k >= 0, k < c), self.ok(v, k, it.sym[k]))))
                    yield ("no interval is negative", FA(k, z3.Implies(z3.And(k >= 0, k < c), z3.Or(it.sym[k] >= 0, it.sym[k] == -1))))

    def post(self, v, o):
        if o[0] == "throw":
            return [("a reading is rejected with invalid_argument only", False)]
        k = z3.Int("k!p")
        R = v.ex.arr(v.st, v.ro, 0)
        return [("first reading: default interval; later: time since the latest accepted reading, at most 10 s; backward jump: rejected and forgotten",
                 FA(k, z3.Implies(z3.And(k >= 0, k < v.n), self.ok(v, k, R[k]))))]


TENTH = z3.RealVal(Fraction(0.1))
CAP = z3.RealVal(1 / Fraction(0.1))     # 10 s up to the rounding of the constant 0.1
EPS = z3.RealVal(Fraction(1, 10 ** 300))
UNITS = [Unit("u_interval.cpp", [History()])]
REPLAY = ["c19.cpp"]
ASSUME = ["time readings are finite; 1/0 counts as 10^400, so the interval between equal readings is shown to be between 0 and 10^-300 s (IEEE gives 0)"]
