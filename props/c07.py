"""C07 azimuth order of the points of a ring; grouping by ring; removal of sparse rings."""
from common import *
from contract import atoms
import containers, loops, maps

LAY = {"PointXYZIR": (32, {0: "f32", 4: "f32", 8: "f32", 12: "f32", 16: "f32", 20: "i16"})}
POINTS_OFF = 48
MAXN = 1 << 30
before = z3.Function("before", IntS, IntS, z3.BoolSort())      # azimuth of point a < azimuth of point b
MS, ORD = containers.ms(IntS)


def sector(x, y):
    """ascending azimuth: below the axis, the positive axis with the origin, above the axis, the negative axis"""
    return z3.If(y < 0, 0, z3.If(y > 0, 2, z3.If(x >= 0, 1, 3)))


def less(ax, ay, bx, by):
    """smaller azimuth, by sector and then by the turn from a to b"""
    sa, sb = sector(ax, ay), sector(bx, by)
    return z3.Or(sa < sb, z3.And(sa == sb, z3.Or(ay < 0, ay > 0), ax * by - ay * bx > 0))


class Order(Lemma):
    name = "lemma: azimuth order is a strict weak order"

    def goals(self, v):
        P = [z3.Reals("x%d y%d" % (i, i)) for i in range(3)]
        L = lambda a, b: less(*P[a], *P[b])
        inc = lambda a, b: z3.And(z3.Not(L(a, b)), z3.Not(L(b, a)))
        return [("irreflexive", [], z3.Not(L(0, 0))), ("asymmetric", [], z3.Not(z3.And(L(0, 1), L(1, 0)))),
                ("transitive", [L(0, 1), L(1, 2)], L(0, 2)), ("incomparability is transitive", [inc(0, 1), inc(1, 2)], inc(0, 2))]


class Smaller(Spec):
    name, rx, layouts = "AHasSmallerPolarAngleThanB", r"^irvc_smaller$", LAY

    def setup(self, v):
        a, b = v.blob("a", 48, fields=None), v.blob("b", 48)
        v.P = []
        for n, p in (("a", a), ("b", b)):
            x, y = v.real(n + ".x"), v.real(n + ".y")
            v.cell(p, 0, "f32", x)
            v.cell(p, 4, "f32", y)
            v.P += [x, y]
        return [a, b]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r = v.ret if isinstance(v.ret, z3.BoolRef) else (z3.BoolVal(bool(v.ret)) if isinstance(v.ret, (int, bool)) else v.ret != 0)
        return [("true exactly when the first azimuth is the smaller", r == less(*v.P))]


class _Cloud(Spec):
    layouts = LAY

    def cloud(self, v):
        v.cl = v.vec("points", "PointXYZIR", at=None, maxn=MAXN)
        c = v.blob("cloud", 128)
        models.vset(v.ex, v.st, Ptr(c.obj, POINTS_OFF), v.cl.seq(), v.cl.n())
        v.nc = v.cl.n()
        v.X, v.Y, v.RG = v.cl.arr(0), v.cl.arr(4), v.cl.arr(20)
        return c

    def ok_index(self, v, e):
        return z3.And(e >= 0, e < v.nc)

    def L(self, v, a, b):
        return less(v.X[a], v.Y[a], v.X[b], v.Y[b])


class Sort(_Cloud):
    name, rx = "SortByAtan2", r"^void SortByAtan2<"

    def apply(self, ex, st, args, I):
        """callee contract, the order being an uninterpreted relation over point indices"""
        seq, n = models.vget(ex, st, args[0])
        pts, np_ = models.vget(ex, st, Ptr(args[1].obj, iadd(args[1].off, POINTS_OFF)))
        k = z3.Int("k!c")
        o = ex.arr(st, seq, 0)
        ex.oblige(st, "precondition of SortByAtan2: every index is inside the cloud", FA(k, z3.Implies(rng(0, k, n), z3.And(o[k] >= 0, o[k] < Z(np_)))), I.loc, "pre")
        N = z3.Array(ex.fresh("sorted"), IntS, IntS)
        j = z3.Int("j!c")
        st.assume(MS(N, 0, Z(n)) == MS(o, 0, Z(n)), FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < Z(n)), z3.Not(before(N[k], N[j]))), [containers.multi(N[j], N[k])]))
        st.wr(seq).arrays[0] = N
        return [(st, ("ret", None))]

    def setup(self, v):
        c = self.cloud(v)
        v.i = v.vec("indices", "int", maxn=MAXN)
        v.I, v.n = v.i.arr(), v.i.n()
        k = z3.Int("k!s")
        v.assume(FA(k, z3.Implies(rng(0, k, v.n), self.ok_index(v, v.I[k])), [v.I[k]]))
        v.ex.order_hint = lambda st, a, b: self.L(v, a, b)
        return [v.i.p, c]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r = VecV(v, v.i.p)
        N = r.arr()
        j, k = z3.Ints("j!p k!p")
        return [("as many indices as before", Z(r.n()) == v.n), ("the same indices", MS(N, 0, v.n) == MS(v.I, 0, v.n)),
                ("in non-decreasing azimuth", FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < v.n), z3.Not(self.L(v, N[k], N[j])))))]


class _Map:
    """rings as a map: presence, number of indices and indices per ring"""

    def mk(self, v, name="rings"):
        v.rp = v.blob(name, 56)
        m = maps.new_map(v.ex, v.st, name, (4, {0: "i32"}), havoc=True)
        v.cell(v.rp, 0, "ptr", Ptr(m, 0))
        v.cell(v.rp, 8, "ptr", Ptr(None, 0))
        v.H, v.LN, v.C = self.state(v, v.st, m)
        r = z3.Int("r!s")
        v.assume(FA(r, z3.Implies(v.H[r], z3.And(v.LN[r] >= 0, v.LN[r] <= MAXN)), [v.LN[r]]))
        return v.rp

    def state(self, v, st, m):
        a = st.os(m).arrays
        return a[maps.HAS], a[maps.LEN], a[maps.EL]

    def final(self, v, p):
        m = maps.uget(v.ex, v.st, p)
        maps.close(v.ex, v.st, m)
        return self.state(v, v.st, m)

    def arrs(self, lc, f):
        for it in lc.items:
            if it.kind == "arr" and it.f == f and hasattr(it.obj, "elem"):
                yield it.sym

    def cur(self, v, lc, f):
        """the map's arrays at the loop head"""
        x = list(self.arrs(lc, f))
        return x[0] if x else {maps.HAS: v.H, maps.LEN: v.LN, maps.EL: v.C}[f]


class Sparse(_Map, Spec):
    name, rx = "RemoveSparseRings", r"^irvc_sparse$"

    def setup(self, v):
        v.n = v.int("n_min_points")
        return [self.mk(v), v.n]

    def templates(self, v, lc):
        r, i = z3.Ints("r!t i!t")
        if not getattr(v.ex, "enums", None):
            return
        H = self.cur(v, lc, maps.HAS)
        for E in v.ex.enums:
            K = E.keys
            for c in lc.ints():
                c = Z(c.logical())
                yield ("entries visited are kept exactly when long enough", FA(i, z3.Implies(rng(0, i, c), H[K[i]] == (v.LN[K[i]] >= v.n)), [K[i]]))
                yield ("entries to visit are untouched", FA(i, z3.Implies(rng(c, i, E.count), H[K[i]]), [K[i]]))
                yield ("inside", z3.And(c >= 0, c <= E.count))
            yield ("nothing else is present", FA(r, z3.Implies(H[r], v.H[r]), [H[r]]))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        H, LN, C = self.final(v, v.rp)
        r, k = z3.Ints("r!p k!p")
        return [("exactly the rings with at least the required number of points remain", FA(r, H[r] == z3.And(v.H[r], v.LN[r] >= v.n))),
                ("remaining rings keep their points", FA([r, k], z3.Implies(H[r], z3.And(LN[r] == v.LN[r], C[r][k] == v.C[r][k]))))]


class Group(_Map, _Cloud):
    name, rx = "MakePointIndices", r"^irvc_group$"

    def setup(self, v):
        c = self.cloud(v)
        v.rp = v.blob("rings", 56, lazy=False)
        v.cnt = z3.Function("points.of", IntS, IntS, IntS)      # points of ring r among the first i points
        v.H = v.LN = v.C = None
        r = z3.Int("r!s")
        v.assume(FA(r, v.cnt(r, 0) == 0, [v.cnt(r, 0)]))
        v.rng_ = lambda e: z3.If(e < 0, e + 65536, e)
        return [c, v.rp]

    def ring(self, v, k):
        x = v.RG[k]
        return z3.If(x < 0, x + 65536, x)

    def templates(self, v, lc):
        r, i, m = z3.Ints("r!t i!t m!t")
        for H in self.arrs(lc, maps.HAS):
            LN, C = self.cur(v, lc, maps.LEN), self.cur(v, lc, maps.EL)
            if LN is None or C is None:
                continue
            for c in lc.ints():
                c = Z(c.logical())
                # definition of the count, at this position
                yield ("fact", FA(r, z3.And(v.cnt(r, c) >= 0, v.cnt(r, c + 1) == v.cnt(r, c) + z3.If(self.ring(v, c) == r, 1, 0)), [v.cnt(r, c + 1)]))
                yield ("fact", FA(r, v.cnt(r, c) >= 0, [v.cnt(r, c)]))
                yield ("rings seen so far", FA(r, H[r] == (v.cnt(r, c) > 0)))
                yield ("as many indices as points seen", FA(r, z3.Implies(H[r], LN[r] == v.cnt(r, c))))
                yield ("every index is a point of the ring seen", FA([r, m], z3.Implies(z3.And(H[r], rng(0, m, LN[r])), z3.And(C[r][m] >= 0, C[r][m] < c, self.ring(v, C[r][m]) == r, v.cnt(r, C[r][m]) == m))))
                yield ("every point seen is listed", FA(i, z3.Implies(rng(0, i, c), z3.And(H[self.ring(v, i)], v.cnt(self.ring(v, i), i) >= 0, v.cnt(self.ring(v, i), i) < LN[self.ring(v, i)], C[self.ring(v, i)][v.cnt(self.ring(v, i), i)] == i)), [v.RG[i]]))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        H, LN, C = self.final(v, v.rp)
        r, k, m, j = z3.Ints("r!p k!p m!p j!p")
        R = lambda e: self.ring(v, e)
        return [("every listed index is a point of that ring", FA([r, m], z3.Implies(z3.And(H[r], rng(0, m, LN[r])), z3.And(C[r][m] >= 0, C[r][m] < v.nc, R(C[r][m]) == r)))),
                ("every point is listed under its ring", FA(k, z3.Implies(rng(0, k, v.nc), z3.And(H[R(k)], z3.Exists([m], z3.And(rng(0, m, LN[R(k)]), C[R(k)][m] == k)))))),
                ("no point is listed twice", FA([r, m, j], z3.Implies(z3.And(H[r], m >= 0, m < j, j < LN[r]), C[r][m] != C[r][j]))),
                ("no empty ring", FA(r, z3.Implies(H[r], LN[r] > 0)))]


class SortRings(_Map, _Cloud):
    name, rx = "SortEachRingByAngle", r"^irvc_sort_rings$"

    def setup(self, v):
        c = self.cloud(v)
        p = self.mk(v)
        r, k = z3.Ints("r!s2 k!s2")
        v.assume(FA([r, k], z3.Implies(z3.And(v.H[r], rng(0, k, v.LN[r])), self.ok_index(v, v.C[r][k]))))
        return [p, c]

    def done(self, v, C, r):
        j, k = z3.Ints("j!d k!d")
        return z3.And(MS(C[r], 0, v.LN[r]) == MS(v.C[r], 0, v.LN[r]),
                      FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < v.LN[r]), z3.Not(before(C[r][k], C[r][j])))))

    def templates(self, v, lc):
        i, k = z3.Ints("i!t k!t")
        if not getattr(v.ex, "enums", None):
            return
        C = self.cur(v, lc, maps.EL)
        for E in v.ex.enums:
            K = E.keys
            for c in lc.ints():
                c = Z(c.logical())
                yield ("rings visited are sorted", FA(i, z3.Implies(rng(0, i, c), self.done(v, C, K[i]))))
                yield ("rings to visit are untouched", FA(i, z3.Implies(rng(c, i, E.count), C[K[i]] == v.C[K[i]])))
                yield ("inside", z3.And(c >= 0, c <= E.count))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        H, LN, C = self.final(v, v.rp)
        r, k, j = z3.Ints("r!p k!p j!p")
        return [("the same rings with as many indices", FA(r, z3.And(H[r] == v.H[r], LN[r] == v.LN[r]))),
                ("every ring holds the same indices", FA(r, z3.Implies(v.H[r], MS(C[r], 0, v.LN[r]) == MS(v.C[r], 0, v.LN[r])))),
                ("every ring is in non-decreasing azimuth", FA([r, j, k], z3.Implies(z3.And(v.H[r], j >= 0, j < k, k < v.LN[r]), z3.Not(before(C[r][k], C[r][j])))))]


SortRings.contracts = [Sort()]
UNITS = [Unit("u_ring.cpp", [Order(), Smaller(), Sort(), Group(), SortRings(), Sparse()], defs=["PCL"])]
REPLAY = ["c07.cpp"]
ASSUME = ["points are finite (the node rejects clouds that are not dense)", "floating-point arithmetic treated as exact", "std::sort and std::unordered_map behave as modelled"]
