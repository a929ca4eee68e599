"""C32 the feature extraction node's callback."""
from common import *
import algebra, clouds, maps, strings
from clouds import APPEND, EMPTY, READ
from c17 import ALG
from c26 import Maps
import points

MAXN = 1 << 30
AI, AR, AB = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, RealS), z3.ArraySort(IntS, z3.BoolSort())
FN = z3.Function
RHAS, RLEN, RELS = FN("rings.has", IntS, AB), FN("rings.length", IntS, AI), FN("rings.indices", IntS, z3.ArraySort(IntS, AI))
RANGES = FN("ranges", IntS, AI, IntS, IntS, IntS, AR)
CURV = FN("curvature", AR, IntS, IntS, AR)


def CURVBAD(n, p):
    """C06: the curvature needs a window of points"""
    return n < 2 * p + 1


def BLOCKBAD(n, b, p):
    """C01: every block needs a point"""
    return n - 2 * p < b


ASSIGN = FN("assign", AI, IntS, AR, IntS, IntS, AI, IntS, RealS, IntS, IntS, IntS, IntS, RealS, IntS, RealS, AI)
OCC = FN("occluded", AI, IntS, IntS, AI, IntS, RealS, IntS, AI, IntS, IntS, RealS, AI)
OUT = FN("out.of.range", AI, IntS, IntS, AI, IntS, RealS, RealS, AI)
PAR = FN("parallel", AI, IntS, IntS, AI, IntS, RealS, AI)
WHERE, WHEREN = FN("where", AI, IntS, IntS, AI), FN("where.count", AI, IntS, IntS, IntS)
PTS = FN("points.at", AI, IntS, IntS, AI, IntS, AI)
VALS = FN("values.at", AI, IntS, AR, IntS, AR)
APPX = FN("append.xyzir", IntS, AI, IntS, AR, IntS, IntS)
COLOR = FN("color", IntS, AI, IntS, AI, IntS, IntS)
XYZ, DENSE = FN("to.xyz", IntS, IntS), FN("dense", IntS, z3.BoolSort())
FOLD = {n: FN("fold." + n, IntS, IntS) for n in ("edge", "surface", "colored")}
NOBODY = {IntS: z3.K(IntS, z3.IntVal(0)), RealS: z3.K(IntS, z3.RealVal(0))}


def vec(ex, st, p, real=False):
    """(elements, how many)"""
    s, n = models.vget(ex, st, p)
    return (NOBODY[RealS if real else IntS] if s is None else ex.arr(st, s, 0)), Z(n)


def put(ex, st, p, a, n, lay):
    n = Z(n)
    st.assume(n >= 0, n <= MAXN)
    s = models.vfresh(ex, st, p, lay, z3.simplify(n))
    st.wr(s).arrays[0] = a


I64, F64, I8 = (8, {0: "i64"}), (8, {0: "f64"}), (1, {0: "i8"})


def h_rings(ex, st, I, a):
    p, c = a[0], Z(a[1])
    m = maps.new_map(ex, st, "rings", (4, {0: "i32"}), havoc=True)
    s = st.wr(m)
    s.arrays[maps.HAS], s.arrays[maps.LEN], s.arrays[maps.EL] = RHAS(c), RLEN(c), RELS(c)
    ex.write_k(st, p, Ptr(m, 0), "ptr")
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 8)), Ptr(None, 0), "ptr")
    r = z3.Int("r!h")
    st.assume(FA(r, z3.And(RLEN(c)[r] >= 0, RLEN(c)[r] <= MAXN), [RLEN(c)[r]]))


def h_sparse(ex, st, I, a):
    p, n = a
    m = maps.uget(ex, st, p)
    maps.close(ex, st, m)
    s = st.wr(m)
    H, L = s.arrays[maps.HAS], s.arrays[maps.LEN]
    N = z3.Array(ex.fresh("kept"), IntS, z3.BoolSort())
    r = z3.Int("r!h")
    st.assume(FA(r, N[r] == z3.And(H[r], L[r] >= Z(n)), [N[r]]), FA(r, N[r] == z3.And(H[r], L[r] >= Z(n)), [H[r]]))
    s.arrays[maps.HAS] = N
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 8)), Ptr(None, 0), "ptr")


def h_ring_available(ex, st, I, a):
    return ex.has_ring


def h_init(ex, st, I, a):
    put(ex, st, a[0], NOBODY[IntS], a[1], I8)


def h_ranges(ex, st, I, a):
    i, n = vec(ex, st, a[2])
    b, e = Z(a[3]), Z(a[4])
    ex.oblige(st, "the ranges asked for are inside the ring", z3.And(b >= 0, b <= e, e <= n), I.loc, "post")
    put(ex, st, a[0], RANGES(Z(a[1]), i, n, b, e), e - b, F64)


def h_curv(ex, st, I, a):
    r, n = vec(ex, st, a[1], True)
    put(ex, st, a[0], CURV(r, n, Z(a[2])), n, F64)


def labels(f):
    def h(ex, st, I, a):
        s, n = models.vget(ex, st, a[0])
        if s is not None:
            st.wr(s).arrays[0] = f(ex, st, ex.arr(st, s, 0), Z(n), a)
    return h


def num(x):
    return ZR(x)


h_assign = labels(lambda ex, st, l, n, a: ASSIGN(l, n, *vec(ex, st, a[1], True), Z(a[2]), *vec(ex, st, a[3]), num(a[4]), Z(a[5]), Z(a[6]), Z(a[7]), Z(a[8]), num(a[9]), Z(a[10]), num(a[11])))
h_occ = labels(lambda ex, st, l, n, a: OCC(l, n, Z(a[1]), *vec(ex, st, a[2]), num(a[3]), Z(a[4]), *vec(ex, st, a[5]), Z(a[6]), num(a[7])))
h_outr = labels(lambda ex, st, l, n, a: OUT(l, n, Z(a[1]), *vec(ex, st, a[2]), num(a[3]), num(a[4])))
h_par = labels(lambda ex, st, l, n, a: PAR(l, n, Z(a[1]), *vec(ex, st, a[2]), num(a[3])))


def h_where(ex, st, I, a):
    l, n = vec(ex, st, a[1])
    x = Z(a[2])
    m = WHEREN(l, n, x)
    put(ex, st, a[0], WHERE(l, n, x), m, I64)


def h_points(ex, st, I, a):
    w, n = vec(ex, st, a[1])
    put(ex, st, a[0], PTS(w, n, Z(a[2]), *vec(ex, st, a[3])), n, I64)


def h_vals(ex, st, I, a):
    w, n = vec(ex, st, a[1])
    put(ex, st, a[0], VALS(w, n, *vec(ex, st, a[2], True)), n, F64)


def h_appx(ex, st, I, a):
    q = clouds.at(ex, a[0])
    c, (w, n) = Z(ex.read_k(st, q, "i64")), vec(ex, st, a[1])
    t = APPX(c, w, n, *vec(ex, st, a[2], True))
    st.assume(z3.Implies(n == 0, t == c))
    ex.write_k(st, q, t, "i64")


def h_color(ex, st, I, a):
    return COLOR(Z(a[0]), *vec(ex, st, a[1]), *vec(ex, st, a[2]))


def h_out(ex, st, I, a):
    p = Ptr(ex.sent.obj, 8 * a[0])
    x = ZR(ex.read_k(st, p, "f64")) + 1 if a[0] % 10 == 0 else a[1]
    ex.write_k(st, p, x, "f64")


def h_shutdown(ex, st, I, a):
    ex.write_k(st, Ptr(ex.sent.obj, 8 * 39), z3.RealVal(1), "f64")


def h_int(ex, st, I, a):
    return ex.fint("parameter", st=st, lo=1, hi=MAXN)


def h_real(ex, st, I, a):
    x = z3.Real(ex.fresh("parameter"))
    st.assume(x > 0)
    return x


H = lambda n, f: (re.compile("^irvc_%s$" % n), f)
HOOKS = [H("param_int", h_int), H("param_real", h_real), H("ring_available", h_ring_available), H("rings", h_rings), H("sparse", h_sparse),
         H("init_labels", h_init), H("ranges", h_ranges), H("curvature", h_curv),
         H("curvature_fails", lambda ex, st, I, a: CURVBAD(Z(a[0]), Z(a[1]))), H("blocks_fail", lambda ex, st, I, a: BLOCKBAD(*[Z(x) for x in a])),
         H("assign", h_assign), H("occluded", h_occ), H("out_of_range", h_outr), H("parallel", h_par), H("where", h_where), H("points_at", h_points),
         H("reals_at", h_vals), H("append_xyzir", h_appx), H("color", h_color), H("xyz", lambda ex, st, I, a: XYZ(Z(a[0]))),
         H("c_dense", lambda ex, st, I, a: DENSE(Z(a[0]))), H("out", h_out), H("shutdown", h_shutdown), H("log", lambda ex, st, I, a: None)]


class Callback(Maps):
    name, rx, usable = "FeatureExtraction::Callback", r"^irvc_callback$", True
    intrinsics = HOOKS + Maps.intrinsics
    layouts = {**LAYOUTS, "PointXYZIR": (8, {0: "i64"})}
    max_unroll = 0

    def setup(self, v):
        ex = v.ex
        self.store(v)
        v.nc = Z(v.st.os(ex.clouds).n)
        ex.sent = v.blob("sent", 8 * 40)
        for i in range(40):
            v.cell(ex.sent, 8 * i, "f64", z3.RealVal(0))
        v.V = READ(z3.IntVal(1))
        ex.message_cloud = v.V
        usable = z3.And(DENSE(v.V), z3.Bool("the message has a ring channel"))
        v.assume(usable if self.usable else z3.Not(usable))
        ex.has_ring = z3.Bool("the message has a ring channel")
        n = self.call(v, "irvc_node")
        v.p, v.b = (Z(self.call(v, "irvc_" + f, n)) for f in ("padding", "n_blocks"))
        v.r = [ZR(self.call(v, "irvc_real", n, i)) for i in range(7)]
        v.thr = ZR(self.call(v, "irvc_radian", v.r[0]))
        v.sec, v.nano = v.int("seconds", 0, (1 << 31) - 1), v.int("nanoseconds", 0, 999999999)
        v.pre = list(getattr(ex, "enums", []))
        return [n, self.call(v, "irvc_cloud", v.sec, v.nano)]

    def ring(self, v, key):
        """(skipped, what the ring adds to the edge, surface and colored clouds)"""
        V, p, b = v.V, v.p, v.b
        deg, diff, ratio, et, st, lo, hi = v.r
        I, n = RELS(V)[key], RLEN(V)[key]
        at = (V, I, n)
        c = CURV(RANGES(V, I, n, z3.IntVal(0), n), n, p)
        l = ASSIGN(NOBODY[IntS], n, c, n, *at, v.thr, n, b, p, p, et, p, st)
        l = PAR(OUT(OCC(l, n, *at, v.thr, *at, p, diff), n, *at, lo, hi), n, *at, ratio)
        def feature(which):
            x = z3.IntVal(LAB[which])
            w, m = WHERE(l, n, x), WHEREN(l, n, x)
            return (PTS(w, m, *at), m, VALS(w, m, c, n), m)
        return z3.Or(CURVBAD(n, p), BLOCKBAD(n, b, p)), feature("Edge"), feature("Surface"), COLOR(*at, l, n)

    def fold(self, v, E, k):
        bad, e, s, c = self.ring(v, E.keys[k])
        fe, fs, fc = (FOLD[x] for x in ("edge", "surface", "colored"))
        t, te, ts = APPEND(fc(k), c), APPX(fe(k), *e), APPX(fs(k), *s)
        return [FOLD[x](0) == EMPTY for x in FOLD] + [
            fe(k + 1) == z3.If(bad, fe(k), te), fs(k + 1) == z3.If(bad, fs(k), ts), fc(k + 1) == z3.If(bad, fc(k), t),
            z3.Implies(e[1] == 0, te == fe(k)), z3.Implies(s[1] == 0, ts == fs(k)),
            z3.Implies(fc(k) == EMPTY, t == c), z3.Implies(c == EMPTY, t == fc(k))]

    def enums(self, v):
        return [E for E in getattr(v.ex, "enums", []) if E not in v.pre]

    def templates(self, v, lc):
        c = Z(lc.T)
        E = self.enums(v)
        if not E:
            return
        yield ("fact", z3.Implies(z3.And(c >= 0, c < E[-1].count), z3.And(self.fold(v, E[-1], c))))
        yield ("fact", z3.And([FOLD[x](0) == EMPTY for x in FOLD]))
        for it in lc.items:
            if it.kind == "arr" and it.sym.sort().range() == IntS and it.obj is v.ex.clouds:
                yield ("the scan stays", it.sym[v.nc] == v.V)
                for x in FOLD:
                    for m in range(1, 4):
                        yield ("the %s cloud holds the rings so far" % x, it.sym[v.nc + m] == FOLD[x](c))
        for i in lc.ints():
            yield ("the clouds made before stay", Z(i.sym) >= v.nc + 4)

    def out(self, v, i):
        return ZR(v.ex.read_k(v.st, Ptr(v.ex.sent.obj, 8 * i), "f64"))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        if not self.usable:
            return [("a shutdown is asked for", self.out(v, 39) == 1)]
        G = [("no shutdown is asked for", self.out(v, 39) == 0),
             ("nothing else is sent", self.out(v, 30) == 0)]
        E = self.enums(v)
        if not E:
            return G + [("the rings are visited", False)]
        E = E[-1]
        r, i = z3.Ints("r!p i!p")
        there = lambda r: RHAS(v.V)[r]
        enough = lambda r: z3.Not(z3.Or(CURVBAD(RLEN(v.V)[r], v.p), BLOCKBAD(RLEN(v.V)[r], v.b, v.p)))
        G.append(("every ring long enough for the curvature and the blocks is visited once", (FA(r, z3.Implies(z3.And(there(r), enough(r)), z3.And(rng(0, E.pos(r), E.count), E.keys[E.pos(r)] == r))))))
        G.append(("only rings of the scan are visited", (FA(i, z3.Implies(rng(0, i, E.count), there(E.keys[i]))))))
        for k, x, f in ((0, "edge", XYZ), (10, "surface", XYZ), (20, "colored", lambda t: t)):
            G += [("the %s cloud is sent once" % x, (self.out(v, k) == 1)),
                  ("it is the rings' %s points" % x, (self.out(v, k + 1) == z3.ToReal(f(FOLD[x](E.count))))),
                  ("the %s cloud carries the scan's time" % x, (z3.And(self.out(v, k + 2) == z3.ToReal(v.sec), self.out(v, k + 3) == z3.ToReal(v.nano)))),
                  ("the %s cloud is in the sensor's frame" % x, (self.out(v, k + 4) == 1))]
        return G


class Unusable(Callback):
    name, usable = "FeatureExtraction::Callback, scan not dense or without rings", False

    def templates(self, v, lc):
        for i in lc.ints():
            yield ("the clouds made before stay", Z(i.sym) >= v.nc + 4)


UNITS = [Unit("u_extract.cpp", [Callback(), Unusable()], incs=ALG)] + points.UNITS
REPLAY = ["c32.cpp"]
ASSUME = ["each step of the pipeline is some function of what it is given (its own properties: C01-C09), the curvature refuses rings shorter than its window, the blocks rings with fewer usable points than blocks (C06, C01)",
          "PCL copies the positions of a cloud point by point (copyPointCloud)", "a message is decoded by PCL to one cloud (any cloud)", "allocation never fails; std::unordered_map as modelled",
          "which callbacks run, and when, is the ROS executor's; what is sent is what publish is given"]
