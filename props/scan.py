"""C04 occlusion, C05 out-of-range and parallel-beam marks."""
from common import *
import fill

OCC, OOR, PB = LAB["Occluded"], LAB["OutOfRange"], LAB["ParallelBeam"]
ML = z3.Function("markedL", IntS, IntS, z3.BoolSort())   # markedL(m,k): some jump at i<m reaches k to the right
MR = z3.Function("markedR", IntS, IntS, z3.BoolSort())   # markedR(m,k): some jump at i>m reaches k to the left


class Scan(Spec):
    layouts = LAYOUTS
    intrinsics = NB

    def base(self, v):
        v.labels = v.vec("labels", "PointLabel")
        v.n = n = v.labels.n()
        v.assume(z3.And(n >= 1, n <= 1 << 30))
        v.L0 = v.labels.arr()
        v.ex.nb_n = n
        nb = v.blob("nb", 64)
        v.vtable("_ZTV14IrvcNeighborXY", nb)
        v.assume(*adj_domain(n))
        v.k = z3.Int("k!any")
        return nb, v.blob("range", 64)

    def setup(self, v):
        nb, rg = self.base(v)
        v.pad = v.int("padding", 0, 1 << 29)
        v.thr = v.real("thr")
        v.assume(v.pad + 1 <= v.n)
        return [v.labels.p, nb, rg, v.pad, v.thr]

    def jumpL(self, v, i, k):
        i = Z(i)
        return z3.And(adj(i), rngf(i + 1) > rngf(i) + v.thr, k >= i + 1, k <= i + 1 + v.pad, k <= brk_r(i + 1))

    def jumpR(self, v, i, k):
        i = Z(i)
        return z3.And(adj(i - 1), rngf(i - 1) > rngf(i) + v.thr, k <= i - 1, k >= i - 1 - v.pad, k >= brk_l(i - 1))

    def defL(self, v, x):
        k = z3.Int("k!d")
        return FA(k, ML(x + 1, k) == z3.Or(ML(x, k), self.jumpL(v, x, k)), [ML(x + 1, k)])

    def defR(self, v, x):
        k = z3.Int("k!d")
        return FA(k, MR(x - 1, k) == z3.Or(MR(x, k), self.jumpR(v, x, k)), [MR(x - 1, k)])

    def facts0(self, v):
        k = z3.Int("k!z")
        return [FA(k, z3.Not(ML(0, k)), [ML(0, k)]), FA(k, z3.Not(MR(v.n - 1, k)), [MR(v.n - 1, k)])]

    def templates(self, v, lc):
        A = v.labels.arr(0, lc.st)
        k = z3.Int("k!t")
        for i in lc.ints():
            x = Z(i.logical())
            yield ("fact", self.defL(v, x))
            yield ("fact", self.defR(v, x))
            for base in ("L", "R", "LR"):
                pass
            yield ("marked by the jumps left of the cursor", FA(k, A[k] == z3.If(ML(x, k), OCC, v.L0[k])))
            yield ("marked by the jumps right of the cursor", FA(k, A[k] == z3.If(MR(x, k), OCC, v.L0[k])))
            yield ("marked by all left jumps and the jumps right of the cursor", FA(k, A[k] == z3.If(z3.Or(ML(v.n - v.pad - 1, k), MR(x, k)), OCC, v.L0[k])))
            yield ("marked by all right jumps and the jumps left of the cursor", FA(k, A[k] == z3.If(z3.Or(MR(v.pad, k), ML(x, k)), OCC, v.L0[k])))


def occ_post(v, o, cond):
    if o[0] == "throw":
        return [("never throws", False)]
    A = v.labels.arr(0, v.st)
    k = z3.Int("k!p")
    return [("exactly the shadowed points are marked occluded", FA(k, A[k] == z3.If(cond(k), OCC, v.L0[k]))),
            ("length unchanged", Z(v.labels.n(v.st)) == v.n)]


def occ_apply(spec, ex, st, args, cond, facts):
    lp, nb, rg, pad, thr = args
    seq, n = models.vget(ex, st, lp)
    v = type("O", (), {})()
    v.n, v.pad, v.thr = Z(n), Z(pad), ZR(thr)
    ex.oblige(st, "precondition of %s: the line holds the padding" % spec.name, v.pad + 1 <= v.n, None, "pre")
    A0 = ex.arr(st, seq, 0)
    A1 = z3.Array(ex.fresh("labels"), IntS, IntS)
    st.wr(seq).arrays[0] = A1
    st.assume(*facts(v))
    k = z3.Int("k!ap")
    st.assume(z3.ForAll([k], A1[k] == z3.If(cond(v, k), OCC, A0[k]), patterns=[A1[k]]))
    return [(st, ("ret", None))]


class FromLeft(Scan):
    name = "occlusion FromLeft"
    rx = r"^void FromLeft<pcl::PointXYZ>"
    helper = True

    def setup(self, v):
        a = Scan.setup(self, v)
        v.assume(*self.facts0(v))
        return a

    def post(self, v, o):
        return occ_post(v, o, lambda k: ML(v.n - v.pad - 1, k))

    def apply(self, ex, st, args, I):
        return occ_apply(self, ex, st, args, lambda v, k: ML(v.n - v.pad - 1, k), self.facts0)


class FromRight(FromLeft):
    name = "occlusion FromRight"
    rx = r"^void FromRight<pcl::PointXYZ>"

    def post(self, v, o):
        return occ_post(v, o, lambda k: MR(v.pad, k))

    def apply(self, ex, st, args, I):
        return occ_apply(self, ex, st, args, lambda v, k: MR(v.pad, k), self.facts0)


class LabelOccluded(FromLeft):
    name = "LabelOccludedPoints"
    rx = r"^void LabelOccludedPoints<pcl::PointXYZ>"
    helper = False

    def post(self, v, o):
        return occ_post(v, o, lambda k: z3.Or(ML(v.n - v.pad - 1, k), MR(v.pad, k)))


FL, FR = fill.FillFromLeft(), fill.FillFromRight()
for c in (FL, FR):
    c.trusted = True
FromLeft.contracts = FromRight.contracts = [FL, FR, RangeAt(), RangeSize()]
LabelOccluded.contracts = [FL, FR, RangeAt(), RangeSize(), FromLeft(), FromRight()]


class OutOfRange(Scan):
    name = "LabelOutOfRange"
    rx = r"^void LabelOutOfRange<pcl::PointXYZ>"
    contracts = [RangeAt(), RangeSize()]

    def setup(self, v):
        nb, rg = self.base(v)
        v.mn, v.mx = v.real("min_range"), v.real("max_range")
        return [v.labels.p, rg, v.mn, v.mx]

    def lab(self, v, k):
        return z3.If(z3.Or(rngf(k) < v.mn, rngf(k) > v.mx), OOR, v.L0[k])

    def templates(self, v, lc):
        A = v.labels.arr(0, lc.st)
        k = z3.Int("k!t")
        for i in lc.ints():
            x = Z(i.logical())
            yield ("labelled up to the cursor", FA(k, A[k] == z3.If(z3.And(k >= 0, k < x), self.lab(v, k), v.L0[k])))
            yield ("labelled from the cursor", FA(k, A[k] == z3.If(z3.And(k > x, k < v.n), self.lab(v, k), v.L0[k])))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        A = v.labels.arr(0, v.st)
        k = z3.Int("k!p")
        return [("marked out of range exactly when the range is outside [min, max]", FA(k, A[k] == z3.If(z3.And(k >= 0, k < v.n), self.lab(v, k), v.L0[k]))),
                ("length unchanged", Z(v.labels.n(v.st)) == v.n)]


class Parallel(OutOfRange):
    name = "LabelParallelBeamPoints"
    rx = r"^void LabelParallelBeamPoints<pcl::PointXYZ>"

    def setup(self, v):
        nb, rg = self.base(v)
        v.thr = v.real("ratio")
        k = z3.Int("k!q")
        v.assume(FA(k, rngf(k) > 0, [rngf(k)]))
        return [v.labels.p, rg, v.thr]

    def lab(self, v, k):
        r = rngf
        ab = lambda a: z3.If(a >= 0, a, -a)
        return z3.If(z3.And(k >= 1, k < v.n - 1, ab(r(k - 1) - r(k)) / r(k) > v.thr, ab(r(k + 1) - r(k)) / r(k) > v.thr), PB, v.L0[k])

    def templates(self, v, lc):
        yield from OutOfRange.templates(self, v, lc)
        k = z3.Int("k!u")
        for it in lc.items:
            if it.kind == "arr" and str(it.sym.sort().range()) == "Real":
                for i in lc.ints():
                    yield ("ranges computed up to the cursor", FA(k, z3.Implies(z3.And(k >= 0, k < Z(i.logical())), it.sym[k] == rngf(k))))


UNITS4 = [Unit("u_scan.cpp", [FromLeft(), FromRight(), LabelOccluded()], defs=["PCL"])]
UNITS5 = [Unit("u_scan.cpp", [OutOfRange(), Parallel()], defs=["PCL"])]
