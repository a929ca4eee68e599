"""C03 edge and surface selection on views."""
from common import *
import containers, fill, c08, c09

MAXN = 1 << 29
# cover(p, a, q): points a and q are at most p apart and all points between them are pairwise connected (positions in the whole line)
cover = z3.Function("cover", IntS, IntS, IntS, z3.BoolSort())
DEF, EDGE, SURF = LAB["Default"], LAB["Edge"], LAB["Surface"]


def blob_made(v, name, size, fn, *args):
    """an object built by one of the unit's own constructors"""
    p = v.blob(name, size, lazy=False)
    outs = v.ex.run_fn(v.ex.mod.fn(fn), [p] + list(args), v.st)
    assert len(outs) == 1 and outs[0][1][0] == "ret"
    v.st = outs[0][0]
    return p


class Window:
    def container(self, v):
        self.labels = v.vec("labels", "PointLabel", maxn=MAXN)
        v.N = self.labels.n()
        v.w = v.int("view begin", 0, MAXN)
        v.we = v.int("view end", 0, MAXN)
        v.assume(z3.And(v.w <= v.we, v.we <= v.N))
        v.lp = blob_made(v, "view", 16, "irvc_view", self.labels.p, v.w, v.we)
        return v.we - v.w

    def length(self, v):
        a, b = span_of(v.ex, v.st, v.lp)
        return isub(b, a)


def span_of(ex, st, p):
    a, b = ex.read_k(st, p, "ptr"), ex.read_k(st, Ptr(p.obj, iadd(p.off, 8)), "ptr")
    return ex.split(a.obj, a.off)[0], ex.split(b.obj, b.off)[0]


class WFill(Window):
    pass


def span_store(ex, st, lp):
    a, b = ex.read_k(st, lp, "ptr"), ex.read_k(st, Ptr(lp.obj, iadd(lp.off, 8)), "ptr")
    if a.obj is None or a.obj is not b.obj:
        raise Unsupported("view of two containers")
    i, j = ex.split(a.obj, a.off)[0], ex.split(b.obj, b.off)[0]
    return a.obj, i, isub(j, i)


class WLeft(WFill, fill.FillFromLeft):
    name, rx = "FillFromLeft on a view", r"^void FillFromLeft<span<"

    def apply(self, ex, st, args, I):
        return fill.apply_fill(ex, st, args, "left", self, span_store)


class WRight(WFill, fill.FillFromRight):
    name, rx = "FillFromRight on a view", r"^void FillFromRight<span<"

    def apply(self, ex, st, args, I):
        return fill.apply_fill(ex, st, args, "right", self, span_store)


class WNeighbors(WFill, fill.FillNeighbors):
    name, rx = "FillNeighbors on a view", r"^void FillNeighbors<span<"
    contracts = [WLeft(), WRight()]

    def apply(self, ex, st, args, I):
        """callee contract, in terms of the relation `cover`"""
        lp, nb, i, pad, lab = args
        seq, w, n = span_store(ex, st, lp)
        label = ex.read_k(st, lab, "i8")
        nsz = ex.read_k(st, Ptr(nb.obj, iadd(nb.off, 8)), "i32")
        for nm, g in (("index inside the labels", z3.And(Z(i) >= 0, Z(i) < Z(n))), ("padding is not negative", z3.And(Z(pad) >= 0, Z(pad) < 1 << 29)), ("labels and neighbour relation have the same size", Z(nsz) == Z(n))):
            ex.oblige(st, "precondition of FillNeighbors: " + nm, g, I.loc, "pre")
        A0 = ex.arr(st, seq, 0)
        A1 = z3.Array(ex.fresh("labels"), IntS, IntS)
        st.wr(seq).arrays[0] = A1
        q = z3.Int("k!fn")
        st.assume(FA(q, A1[q] == z3.If(cover(Z(pad), Z(w) + Z(i), q), Z(label), A0[q]), [A1[q]]))
        return [(st, ("ret", None))]


class CoverLemma(Lemma):
    name = "lemma: the covered relation is symmetric, reflexive and stays inside the line"

    def goals(self, v):
        a, q, p, n = z3.Ints("a q p n")
        c = lambda s, k: z3.And(k >= s - p, k <= s + p, k >= brk_l(s), k <= brk_r(s))
        h = [a >= 0, a < n, p >= 0] + reach_facts(a, n) + adj_domain(n)
        hq = reach_facts(q, n)
        return [("reflexive", h, c(a, a)), ("inside", h + [c(a, q)], z3.And(q >= 0, q < n)),
                ("symmetric", h + hq + [c(a, q)], c(q, a))]


class Argsort(Spec):
    name, rx = "Argsort of a view", r"Argsort<"

    def apply(self, ex, st, args, I):
        out, pb, pe = args
        a, b = ex.read_k(st, pb, "ptr"), ex.read_k(st, pe, "ptr")
        if a.obj is not b.obj:
            raise Unsupported("Argsort of two containers")
        w, e = ex.split(a.obj, a.off)[0], ex.split(b.obj, b.off)[0]
        n = isub(e, w)
        ex.oblige(st, "precondition of Argsort: a range of the values", z3.And(Z(w) >= 0, Z(w) <= Z(e), Z(e) <= Z(st.os(a.obj).n)), I.loc, "pre")
        C = ex.arr(st, a.obj, 0)
        s = ex.new_seq(st, "order", 4, {0: "i32"}, n)
        X = ex.arr(st, s, 0)
        pos = z3.Function(ex.fresh("rank"), IntS, IntS)
        m, l = z3.Ints("m!as l!as")
        n, w = Z(n), Z(w)
        st.assume(FA(m, z3.Implies(rng(0, m, n), z3.And(X[m] >= 0, X[m] < n, pos(w + X[m]) == m)), [X[m]]),
                  FA(m, z3.Implies(rng(w, m, w + n), z3.And(pos(m) >= 0, pos(m) < n, X[pos(m)] == m - w)), [pos(m)]),
                  FA([l, m], z3.Implies(z3.And(l >= w, l < w + n, m >= w, m < w + n, pos(l) <= pos(m)), C[l] <= C[m]), [containers.multi(pos(l), pos(m))]))
        models.vset(ex, st, out, s, n)
        ex.rank = pos
        return [(st, ("ret", None))]


class Assign(Window, Spec):
    layouts, intrinsics = LAYOUTS, NB
    contracts = [WNeighbors(), Argsort()]
    solver_tmo = 60

    def setup(self, v):
        v.n = self.container(v)
        v.assume(v.n >= 1)
        v.L0 = self.labels.arr()
        c = v.vec("curvature", "double", maxn=MAXN)
        v.C = c.arr()
        v.assume(c.n() == v.N)
        cv = blob_made(v, "curvature view", 16, "irvc_cview", c.p, v.w, v.we)
        v.pad, v.thr = v.int("padding", 0, (1 << 29) - 1), v.real("threshold")
        self_ = blob_made(v, "self", 16, self.make, v.pad, v.thr)
        nb = make_neighbor(v, v.n)
        a, q, p = z3.Ints("a!cv q!cv p!cv")
        W = lambda x: z3.And(x >= v.w, x < v.we)
        v.W = W
        v.assume(FA([p, a], z3.Implies(z3.And(p >= 0, W(a)), cover(p, a, a)), [cover(p, a, a)]))
        v.assume(FA([p, a, q], z3.Implies(z3.And(p >= 0, W(a), cover(p, a, q)), z3.And(W(q), cover(p, q, a))), [cover(p, a, q)]))
        return [self_, v.lp, cv, nb]

    # ---- what holds when `P` tells which points have been considered
    def facts(self, v, A, P):
        q, s = z3.Ints("q!f s!f")
        sel = lambda x: z3.And(A[x] == self.lab, v.L0[x] == DEF, v.W(x))
        cov = lambda a, b: cover(v.pad, a, b)
        good = lambda x: (v.C[x] >= v.thr) if self.up else (v.C[x] <= v.thr)
        return [("a selected point was unlabelled, is within the threshold and was considered", FA(q, z3.Implies(sel(q), z3.And(good(q), P(q))), [A[q]])),
                ("a changed label belongs to a selected point or to one connected to it, whose curvature goes before",
                 FA(q, z3.Implies(A[q] != v.L0[q], z3.Or(sel(q), z3.And(A[q] == self.lab + 1, z3.Exists([s], z3.And(sel(s), cov(s, q), z3.Implies(v.L0[q] == DEF, (v.C[s] >= v.C[q]) if self.up else (v.C[s] <= v.C[q]))))))), [A[q]])),
                ("points connected to a selected point within the padding are marked", FA([s, q], z3.Implies(z3.And(sel(s), cov(s, q), q != s), A[q] == self.lab + 1), [cov(s, q)])),
                ("points considered and left unlabelled are beyond the threshold", FA(q, z3.Implies(z3.And(v.W(q), P(q), A[q] == DEF), z3.Not(good(q))), [A[q]]))]

    def templates(self, v, lc):
        A = self.labels.arr(0, lc.st)
        r = getattr(v.ex, "rank", None)
        if r is None:
            return
        for c in lc.ints():
            c = Z(c.logical())
            for P in (lambda q: r(q) >= c, lambda q: r(q) < c):
                yield from self.facts(v, A, P)
            q = z3.Int("q!b")

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        A = self.labels.arr(0, v.st)
        q = z3.Int("q!p")
        return [(n, g) for n, g in self.facts(v, A, lambda q: z3.BoolVal(True))] + [
            ("outside the view nothing changes", FA(q, z3.Implies(z3.Not(v.W(q)), A[q] == v.L0[q]))), ("length unchanged", Z(self.labels.n(v.st)) == v.N)]


class Edge(Assign):
    name, rx, make, lab, up = "EdgeLabel::Assign", r"^void EdgeLabel::Assign<", "irvc_make_edge", EDGE, True


class Surface(Assign):
    name, rx, make, lab, up = "SurfaceLabel::Assign", r"^void SurfaceLabel::Assign<", "irvc_make_surface", SURF, False


class Init(Spec):
    name, rx, layouts = "InitLabels", r"^irvc_init$", LAYOUTS

    def setup(self, v):
        v.n = v.int("n", 0, MAXN)
        v.out = v.blob("labels", 24, lazy=False)
        return [v.n, v.out]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r = VecV(v, v.out)
        k = z3.Int("k!p")
        return [("one label per point", Z(r.n()) == v.n), ("all unlabelled", FA(k, z3.Implies(rng(0, k, v.n), r.arr()[k] == DEF)))]


bnd = z3.Function("boundary", IntS, IntS)


class Blocks(Spec):
    """the sectors of an interval (contract proved under C01): [boundary(j), boundary(j+1)) for 0 <= j < number of sectors"""
    trusted = True

    def bad(self, ex, st, j):
        return z3.Not(z3.And(ex.blk["s"] + ex.blk["n"] <= ex.blk["e"], Z(j) >= 0, Z(j) < ex.blk["n"]))

    def edge(self, ex, st, j, k):
        outs = []
        for t, s in ex.branch(st, self.bad(ex, st, j)):
            outs.append((s, ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))) if t else (s, ("ret", bnd(Z(j) + k))))
        return outs


class NBlocks(Blocks):
    name, rx = "IndexRange::NBlocks (contract proved under C01)", r"^IndexRange::NBlocks"

    def apply(self, ex, st, args, I):
        return [(st, ("ret", ex.blk["n"]))]


class Begin(Blocks):
    name, rx = "IndexRange::Begin (contract proved under C01)", r"^IndexRange::Begin"

    def apply(self, ex, st, args, I):
        return self.edge(ex, st, args[1], 0)


class End(Blocks):
    name, rx = "IndexRange::End (contract proved under C01)", r"^IndexRange::End"

    def apply(self, ex, st, args, I):
        return self.edge(ex, st, args[1], 1)


class OnBlock(Spec):
    """what AssignLabel uses of the selection's contract"""

    def apply(self, ex, st, args, I):
        self_, lp, cp, nb = args
        B = ex.blk
        lo, w, n = span_store(ex, st, lp)
        co, cw, cn = span_store(ex, st, cp)
        want, thr = B[self.make]
        idx, m = models.vget(ex, st, Ptr(nb.obj, iadd(nb.off, 24)))
        NI = ex.arr(st, idx, 0)
        k = z3.Int("k!ob")
        for nm, g in (("the selection is the one of this kind", self_.obj is want.obj), ("labels and curvature of the line", lo is B["labels"] and co is B["curvature"]),
                      ("a part of the labels", z3.And(Z(w) >= 0, Z(n) >= 1, Z(w) + Z(n) <= B["N"])), ("curvature of the same part", z3.And(Z(cw) == Z(w), Z(cn) == Z(n))),
                      ("neighbour relation of the same part", z3.And(Z(m) == Z(n), FA(k, z3.Implies(rng(0, k, Z(n)), NI[k] == B["IX"][Z(w) + k]))))):
            ex.oblige(st, "precondition of %s: %s" % (self.name, nm), g, I.loc, "pre")
        A0, C = ex.arr(st, lo, 0), ex.arr(st, co, 0)
        A1 = z3.Array(ex.fresh("labels"), IntS, IntS)
        st.wr(lo).arrays[0] = A1
        q = z3.Int("q!ob")
        good = C[q] >= thr if self.up else C[q] <= thr
        w, n = Z(w), Z(n)
        st.assume(FA(q, z3.Implies(z3.Or(q < w, q >= w + n), A1[q] == A0[q]), [A1[q]]),
                  FA(q, z3.Implies(A1[q] != A0[q], z3.Or(z3.And(A1[q] == self.lab, A0[q] == DEF, good), A1[q] == self.lab + 1)), [A1[q]]),
                  FA(q, z3.Implies(z3.And(q >= w, q < w + n, A1[q] == DEF), z3.And(A0[q] == DEF, z3.Not(good))), [A1[q]]))
        return [(st, ("ret", None))]


class OnEdge(OnBlock):
    name, rx, make, lab, up = "EdgeLabel::Assign", r"^void EdgeLabel::Assign<", "irvc_make_edge", EDGE, True


class OnSurface(OnBlock):
    name, rx, make, lab, up = "SurfaceLabel::Assign", r"^void SurfaceLabel::Assign<", "irvc_make_surface", SURF, False


class AssignLabel(Spec):
    name, rx = "AssignLabel client", r"^irvc_assign$"
    layouts = dict(LAYOUTS, **{"pcl::PointXYZ": (16, {0: "f32", 4: "f32", 8: "f32", 12: "f32"}), "PointXYZ": (16, {0: "f32", 4: "f32", 8: "f32", 12: "f32"})})
    contracts = [NBlocks(), Begin(), End(), OnEdge(), OnSurface()]

    def setup(self, v):
        p = c08.Points()
        cloud, idx = p.base(v)
        v.N = v.n
        v.lb, c = v.vec("labels", "PointLabel", maxn=MAXN), v.vec("curvature", "double", maxn=MAXN)
        v.assume(v.lb.n() == v.N, c.n() == v.N)
        v.L0, v.C = v.lb.arr(), c.arr()
        v.s, v.e, v.nb = v.int("begin"), v.int("end"), v.int("blocks")
        v.te, v.ts, v.ra = v.real("edge threshold"), v.real("surface threshold"), v.real("radian")
        v.assume(v.s >= 0, v.e <= v.N, v.nb >= 1)
        j = z3.Int("j!al")
        v.assume(bnd(0) == v.s, bnd(v.nb) == v.e, FA(j, z3.Implies(rng(0, j, v.nb), bnd(j) < bnd(j + 1)), [bnd(j)]),
                 FA(j, z3.Implies(z3.And(j >= 0, j <= v.nb), z3.And(bnd(j) >= v.s, bnd(j) <= v.e)), [bnd(j)]))
        v.fit = v.s + v.nb <= v.e
        v.assume(v.fit)
        edge = blob_made(v, "edge", 16, "irvc_make_edge", v.int("edge padding", 0, MAXN), v.te)
        surf = blob_made(v, "surface", 16, "irvc_make_surface", v.int("surface padding", 0, MAXN), v.ts)
        rg = v.blob("range", 12)
        v.ex.blk = {"s": v.s, "e": v.e, "n": v.nb, "N": v.N, "IX": v.IX, "labels": v.lb.seq(), "curvature": c.seq(), "irvc_make_edge": (edge, v.te), "irvc_make_surface": (surf, v.ts)}
        return [v.lb.p, c.p, cloud, idx, v.ra, rg, edge, surf]

    def facts(self, v, A, b, e):
        q = z3.Int("q!al")
        i = z3.And(q >= b, q < e)
        return [("points outside the blocks keep their label", FA(q, z3.Implies(z3.Not(i), A[q] == v.L0[q]), [A[q]])),
                ("no unlabelled point of the blocks satisfies a threshold", FA(q, z3.Implies(z3.And(i, A[q] == DEF), z3.And(v.L0[q] == DEF, v.C[q] < v.te, v.C[q] > v.ts)), [A[q]])),
                ("a new edge point was unlabelled and its curvature is at least the edge threshold", FA(q, z3.Implies(z3.And(A[q] == EDGE, v.L0[q] != EDGE), z3.And(i, v.L0[q] == DEF, v.C[q] >= v.te)), [A[q]])),
                ("a new surface point was unlabelled and its curvature is at most the surface threshold", FA(q, z3.Implies(z3.And(A[q] == SURF, v.L0[q] != SURF), z3.And(i, v.L0[q] == DEF, v.C[q] <= v.ts)), [A[q]]))]

    def templates(self, v, lc):
        A = v.lb.arr(0, lc.st)
        for c in lc.ints():
            yield from self.facts(v, A, v.s, bnd(Z(c.logical())))

    def post(self, v, o):
        j = z3.Int("j!al")
        if o[0] == "throw":
            return [("fails only for a block or a line of fewer than two points, with invalid_argument", z3.And(z3.BoolVal(o[1] == "std::invalid_argument"),
                     z3.Or(v.N < 2, z3.Exists([j], z3.And(rng(0, j, v.nb), bnd(j + 1) - bnd(j) < 2)))))]
        return self.facts(v, v.lb.arr(0, v.st), v.s, v.e) + [("length unchanged", Z(v.lb.n(v.st)) == v.N)]


UNITS = [Unit("u_label.cpp", [CoverLemma(), WLeft(), WRight(), WNeighbors(), Init(), Edge(), Surface()], defs=["PCL"]), Unit("u_select.cpp", [c09.ArgsortSpan()]), Unit("u_assign.cpp", [AssignLabel()], defs=["PCL"])]
REPLAY = ["c03.cpp"]
ASSUME = ["IndexRange::NBlocks/Begin/End satisfy their contract (proved under C01); no two neighbouring points of the line lie at the sensor origin (the neighbour relation rejects that pair)", "curvature values are finite", "labels, curvature and neighbour relation have the same size, of at most 2^29 points", "0 <= padding < 2^29",
          "the neighbour relation is an arbitrary symmetric relation (C08 proves it for the implementation)", "a bijection onto the positions has an inverse (the rank used in the selection's contract of Argsort)"]
