"""C10 median and scale."""
from common import *
from contract import atoms
import containers, loops

MS, ORD = containers.ms(RealS)
SCALE = z3.RealVal(str(Fraction(1.482602218505602)))


def med(m, n):
    return z3.If(n % 2 == 1, ORD(m, (n - 1) / 2), (ORD(m, n / 2) + ORD(m, n / 2 - 1)) / 2)


def evec(v, name):
    """an Eigen::VectorXd of symbolic length"""
    n = v.int(name + ".size", 0, 1 << 31, 64)
    o = v.seqobj(name, 8, {0: "f64"}, n)
    p = v.blob(name + ".v", 16)
    v.cell(p, 0, "ptr", Ptr(o, 0))
    v.cell(p, 8, "i64", n)
    return p, o, n


class Median(Spec):
    name, rx = "Median", r"^irvc_median$"

    def setup(self, v):
        p, v.o, v.n = evec(v, "values")
        v.X = v.ex.arr(v.st, v.o, 0)
        return [p]

    def templates(self, v, lc):
        k = z3.Int("k!t")
        for c in lc.ints():
            c = Z(c.logical())
            for it in lc.items:
                if it.kind == "arr":
                    for f in self.written(v):
                        yield ("written so far", FA(k, z3.Implies(z3.And(k >= 0, k < c), it.sym[k] == f(k))))

    def written(self, v):
        yield lambda k: v.X[k]

    def ext(self, v, b, n):
        at = []
        for f in v.st.pc:
            at += atoms(f, "m.MS_Real")
        return containers.ms_ext(list({t.get_id(): t for t in at}.values()), b, z3.IntVal(0), n)

    def post(self, v, o):
        if o[0] == "throw":
            return [("only an empty input is rejected, with invalid_argument", z3.And(v.n == 0, z3.BoolVal(o[1] == "std::invalid_argument")))]
        k = z3.Int("k!p")
        e = self.ext(v, v.X, v.n)
        return [("not empty", v.n > 0), ("input unchanged", FA(k, z3.Implies(rng(0, k, v.n), v.ex.arr(v.st, v.o, 0)[k] == v.X[k])))] + self.goals(v, o, e)

    def goals(self, v, o, e):
        return [("middle value, or mean of the two middle values, in sorted order", ZR(o[1]) == med(MS(v.X, 0, v.n), v.n), e)]


class MedianA(Median):
    name, rx = "Median of an array", r"^irvc_median_a$"


class ScaleS(Median):
    name, rx = "Scale", r"^irvc_scale$"

    def written(self, v):
        # |value - c| for any median candidate c of this path (whatever nth_element returned)
        m = MS(v.X, 0, v.n)
        yield lambda k: z3.If(v.X[k] - med(m, v.n) >= 0, v.X[k] - med(m, v.n), med(m, v.n) - v.X[k])

    def goals(self, v, o, e):
        k = z3.Int("k!d")
        m = med(MS(v.X, 0, v.n), v.n)
        dev = z3.Array("deviation", IntS, RealS)
        h = [FA(k, z3.Implies(rng(0, k, v.n), dev[k] == z3.If(v.X[k] - m >= 0, v.X[k] - m, m - v.X[k])))]
        return [("scale is the constant times the median absolute deviation from the median", ZR(o[1]) == SCALE * med(MS(dev, 0, v.n), v.n), e + h + self.ext(v, dev, v.n)),
                ("never negative", ZR(o[1]) >= 0, e)]


class Shift(Lemma):
    name = "the scale does not change when a constant is added"

    def goals(self, v):
        X, Y, D, E = [z3.Array(n, IntS, RealS) for n in ("x", "y", "dx", "dy")]
        n, k, r, c = z3.Int("n"), z3.Int("k"), z3.Int("r"), z3.Real("c")

        def dev(D, X, m):
            return FA(k, z3.Implies(rng(0, k, n), D[k] == z3.If(X[k] - m >= 0, X[k] - m, m - X[k])))
        mx, my = MS(X, 0, n), MS(Y, 0, n)
        h = [n > 0, FA(k, z3.Implies(rng(0, k, n), Y[k] == X[k] + c)),
             FA(r, z3.Implies(rng(0, r, n), ORD(my, r) == ORD(mx, r) + c)),       # ranks commute with adding a constant
             dev(D, X, med(mx, n)), dev(E, Y, med(my, n))]
        return [("median moves by the constant", h, med(my, n) == med(mx, n) + c),
                ("same deviations", h + [med(my, n) == med(mx, n) + c], FA(k, z3.Implies(rng(0, k, n), D[k] == E[k]))),
                ("same scale", h + [FA(k, z3.Implies(rng(0, k, n), D[k] == E[k]))] + containers.ms_ext([MS(D, 0, n)], E, z3.IntVal(0), n), SCALE * med(MS(D, 0, n), n) == SCALE * med(MS(E, 0, n), n))]


UNITS = [Unit("u_stats.cpp", [Median(), MedianA(), ScaleS(), Shift()])]
REPLAY = ["c10.cpp"]
ASSUME = ["finite values; floating-point arithmetic is real arithmetic", "at most 2^31 values",
          "the k-th smallest of a list of values depends only on the values, and moves by c when c is added to all of them (facts about sorting used by the specification)",
          "std::nth_element and std::sort behave as modelled"]
