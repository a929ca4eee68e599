"""C08 neighbour relation; ranges of mapped points."""
from common import *


class Points(Spec):
    """a cloud of n points seen through an index list"""

    def base(self, v):
        v.cl = v.vec("points", "PointXYZ", at=None)
        cloud = v.blob("cloud", 128)
        o = v.cl.seq()
        models.vset(v.ex, v.st, Ptr(cloud.obj, POINTS_OFF), o, v.cl.n())
        v.nc = v.cl.n()
        v.idx = v.vec("indices", "int")
        v.n = v.idx.n()
        v.IX = v.idx.arr()
        v.assume(z3.And(v.n <= 1 << 30, v.nc <= 1 << 30))
        k = z3.Int("k!ix")
        v.assume(FA(k, z3.Implies(z3.And(k >= 0, k < v.n), z3.And(v.IX[k] >= 0, v.IX[k] < v.nc)), [v.IX[k]]))
        v.X, v.Y = v.cl.arr(0), v.cl.arr(4)
        sp = v.blob("cloud.ptr", 16)
        v.cell(sp, 0, "ptr", cloud)
        v.cell(sp, 8, "ptr", Ptr(None, 0))
        return [sp, v.idx.p]

    def xy(self, v, i):
        return v.X[v.IX[i]], v.Y[v.IX[i]]

    def norm(self, v, i):
        x, y = self.xy(v, i)
        return SQRT(x * x + y * y)


POINTS_OFF = 48
SQRT, ACOS = models.uf("sqrt"), models.uf("acos")


def cs(x1, y1, x2, y2, n1, n2):
    """hypotheses and conclusion of the Cauchy-Schwarz lemma"""
    d = x1 * x2 + y1 * y2
    return [n1 > 0, n2 > 0, n1 * n1 == x1 * x1 + y1 * y1, n2 * n2 == x2 * x2 + y2 * y2], z3.And(d / (n1 * n2) <= 1, d / (n1 * n2) >= -1)


class CauchySchwarz(Lemma):
    name = "lemma: cosine of the angle between two directions is in [-1,1]"

    def goals(self, v):
        x1, y1, x2, y2, n1, n2 = z3.Reals("x1 y1 x2 y2 n1 n2")
        h, g = cs(x1, y1, x2, y2, n1, n2)
        d, p, w = z3.Reals("d p w")
        hd = [d == x1 * x2 + y1 * y2, p == n1 * n2]
        u = z3.Real("u")
        return [("sum of squares", h + hd, p * p - d * d == (x1 * y2 - x2 * y1) * (x1 * y2 - x2 * y1)),
                ("bounds from squares", [p > 0, w >= 0, p * p - d * d == w], z3.And(d <= p, d >= -p)),
                ("quotient", [p > 0, d <= p, d >= -p, u * p == d], z3.And(u <= 1, u >= -1))]


class Neighbor(Points):
    layouts = {"pcl::PointXYZ": (16, {0: "f32", 4: "f32", 8: "f32", 12: "f32"}), "PointXYZ": (16, {0: "f32", 4: "f32", 8: "f32", 12: "f32"})}
    name = "NeighborCheckXY client"
    rx = r"^irvc_neighbor$"

    def setup(self, v):
        a = self.base(v)
        v.thr = v.real("threshold")
        v.i, v.j = v.int("i"), v.int("j")
        return a + [v.thr, v.i, v.j]

    def inside(self, v, k):
        return z3.And(k >= 0, k < v.n)

    def origin(self, v, k):
        x, y = self.xy(v, k)
        return z3.And(x == 0, y == 0)

    def cs(self, v):
        (x1, y1), (x2, y2) = self.xy(v, v.i), self.xy(v, v.j)
        n1, n2 = self.norm(v, v.i), self.norm(v, v.j)
        h, g = cs(x1, y1, x2, y2, n1, n2)
        out = [z3.Implies(z3.And(*h), g)]
        for x, y, n in ((x1, y1, n1), (x2, y2, n2)):
            out += [n >= 0, n * n == x * x + y * y, (n == 0) == z3.And(x == 0, y == 0)]
        return out

    def angle(self, v):
        (x1, y1), (x2, y2) = self.xy(v, v.i), self.xy(v, v.j)
        return ACOS((x1 * x2 + y1 * y2) / (self.norm(v, v.i) * self.norm(v, v.j)))

    def throws(self, v, t, both):
        return [("rejected exactly: fewer than two points or two points at the origin (invalid_argument), an index outside the line (out_of_range)",
                 z3.If(v.n < 2, z3.BoolVal(t == "std::invalid_argument"), z3.If(z3.Not(z3.And(self.inside(v, v.i), self.inside(v, v.j))), z3.BoolVal(t == "std::out_of_range"),
                       z3.And(both, z3.BoolVal(t == "std::invalid_argument")))), self.cs(v))]

    def post(self, v, o):
        both = z3.And(self.origin(v, v.i), self.origin(v, v.j))
        if o[0] == "throw":
            return self.throws(v, o[1], both)
        return [("a line of fewer than two points and an index outside the line are rejected", z3.And(v.n >= 2, self.inside(v, v.i), self.inside(v, v.j)))] + self.value(v)

    def value(self, v):
        one = z3.Or(self.origin(v, v.i), self.origin(v, v.j))
        return [("neighbours exactly when the angle between the horizontal directions is below the threshold", z3.Implies(z3.Not(one), Zb(v.ret) == (self.angle(v) < v.thr)), self.cs(v))]


def Zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Symmetric(Neighbor):
    name = "NeighborCheckXY symmetry client"
    rx = r"^irvc_neighbor_symmetric$"

    def value(self, v):
        return [("the relation is symmetric", Zb(v.ret))]


class Slice(Neighbor):
    name = "NeighborCheckXY slice client"
    rx = r"^irvc_neighbor_slice$"

    def setup(self, v):
        a = self.base(v)
        v.thr = v.real("threshold")
        v.b, v.e, v.si, v.sj = v.int("b"), v.int("e"), v.int("i"), v.int("j")
        v.assume(z3.And(v.n >= 2, v.b >= 0, v.b <= v.e, v.e <= v.n, v.si > -(1 << 30), v.si < 1 << 30, v.sj > -(1 << 30), v.sj < 1 << 30))
        v.i, v.j = v.b + v.si, v.b + v.sj
        return a + [v.thr, v.b, v.e, v.si, v.sj]

    def post(self, v, o):
        inside = z3.And(v.si >= 0, v.si < v.e - v.b, v.sj >= 0, v.sj < v.e - v.b)
        if o[0] == "throw":
            both = z3.And(self.origin(v, v.i), self.origin(v, v.j))
            t = o[1]
            return [("rejected exactly: fewer than two points in the sub-range or both at the origin (invalid_argument), an index outside the sub-range (out_of_range)",
                     z3.If(v.e - v.b < 2, z3.BoolVal(t == "std::invalid_argument"), z3.If(z3.Not(inside), z3.BoolVal(t == "std::out_of_range"),
                           z3.And(both, z3.BoolVal(t == "std::invalid_argument")))), self.cs(v))]
        return [("a sub-range of fewer than two points and an index outside it are rejected", z3.And(inside, v.e - v.b >= 2)),
                ("restricting to a sub-range shifts the indices and has the sub-range's size", Zb(v.ret))]


class Size(Neighbor):
    name = "NeighborCheckXY size client"
    rx = r"^irvc_neighbor_size$"

    def setup(self, v):
        a = self.base(v)
        v.thr = v.real("threshold")
        return a + [v.thr]

    def post(self, v, o):
        if o[0] == "throw":
            return [("rejected only for fewer than two points, with invalid_argument", z3.And(v.n < 2, z3.BoolVal(o[1] == "std::invalid_argument")))]
        return [("size is the number of points", z3.And(v.n >= 2, Z(v.ret) == v.n))]


class RangeOf(Neighbor):
    name = "Range client"
    rx = r"^irvc_range$"

    def setup(self, v):
        a = self.base(v)
        v.i = v.int("i")
        return a + [v.i]

    def post(self, v, o):
        if o[0] == "throw":
            return [("only an index outside the line is rejected, with out_of_range", z3.And(z3.Not(self.inside(v, v.i)), z3.BoolVal(o[1] == "std::out_of_range")))]
        return [("an index outside the line is rejected", self.inside(v, v.i)), ("the range is the horizontal distance of the point", ZR(v.ret) == self.norm(v, v.i))]


class RangePiece(Neighbor):
    name = "Range piece client"
    rx = r"^irvc_range_piece$"

    def setup(self, v):
        a = self.base(v)
        v.b, v.e, v.k = v.int("b", 0), v.int("e"), v.int("k", 0)
        v.assume(z3.And(v.b <= v.e, v.e <= v.n, v.k < v.e - v.b))
        return a + [v.b, v.e, v.k]

    def templates(self, v, lc):
        k = z3.Int("k!t")
        for it in lc.items:
            if it.kind == "arr" and str(it.sym.sort().range()) == "Real":
                for i in lc.ints():
                    yield ("ranges written up to the cursor", FA(k, z3.Implies(z3.And(k >= 0, k < Z(i.logical())), it.sym[k] == self.norm(v, v.b + k))))

    def post(self, v, o):
        if o[0] == "throw":
            return [("a piece inside the line is accepted", False)]
        return [("a piece of the ranges is the ranges of the piece", ZR(v.ret) == self.norm(v, v.b + v.k))]


UNITS = [Unit("u_nb.cpp", [CauchySchwarz(), Neighbor(), Symmetric(), Slice(), Size(), RangeOf(), RangePiece()], defs=["PCL"])]
REPLAY = ["c08.cpp"]
ASSUME = ["coordinates are finite, every stored index names a point of the cloud; float and double arithmetic is real arithmetic",
          "one point at the origin: only that an answer is given (IEEE NaN, not a neighbour) and that it is symmetric in real arithmetic"]
