from common import *


class Fill(Spec):
    layouts = LAYOUTS
    intrinsics = NB
    opaque = []
    cont = r"std::vector<PointLabel"

    def container(self, v):
        """the labels: a whole vector; v.w is the position of its first element"""
        self.labels = v.vec("labels", "PointLabel")
        v.w = 0
        v.lp = self.labels.p
        return self.labels.n()

    def setup(self, v):
        n = self.container(v)
        v.assume(z3.And(n >= 1, n <= 1 << 30))
        v.n = n
        v.L0 = self.labels.arr()
        nb = make_neighbor(v, n)
        v.label = v.int("label", 0, 7, 8)
        lab = v.ref("lab", "i8", v.label)
        return self.args2(v, nb, lab)

    def length(self, v):
        return self.labels.n(v.st)

    def arr(self, v, st):
        return self.labels.arr(0, st)


def left_formula(A, L0, begin, end, upto, label, w=0):
    q = z3.Int("k!l")
    k = q - w if not isinstance(w, int) else q
    return FA(q, A[q] == z3.If(z3.And(k >= Z(begin), k < Z(end), k <= Z(upto)), Z(label), L0[q]), [A[q]])


def right_formula(A, L0, begin, end, down, label, w=0):
    q = z3.Int("k!r")
    k = q - w if not isinstance(w, int) else q
    return FA(q, A[q] == z3.If(z3.And(k > Z(begin), k <= Z(end), k >= Z(down)), Z(label), L0[q]), [A[q]])


class FillFromLeft(Fill):
    name = "FillFromLeft"
    rx = r"^void FillFromLeft<"

    def args2(self, v, nb, lab):
        v.b, v.e = v.int("begin"), v.int("end")
        v.assume(v.b < v.e)
        v.assume(*reach_facts(v.b, v.n))
        return [v.lp, nb, v.b, v.e, lab]

    def post(self, v, o):
        bad = z3.Or(v.e > v.n, v.b < 0)
        if o[0] == "throw":
            return [("throws only for a range outside the labels", bad), ("exception type is invalid_argument", o[1] == "std::invalid_argument"),
                    ("labels untouched on error", self.same(v))]
        A = self.arr(v, v.st)
        return [("an out-of-range request is rejected", z3.Not(bad)),
                ("exactly the connected run from begin, below end, is labelled", left_formula(A, v.L0, v.b, v.e, brk_r(v.b), v.label, v.w)),
                ("length unchanged", Z(self.length(v)) == v.n)]

    def same(self, v):
        k = z3.Int("k!s")
        return FA(k, self.arr(v, v.st)[k] == v.L0[k])

    def templates(self, v, lc):
        A = self.arr(v, lc.st)
        for i in lc.ints():
            x = Z(i.logical())
            q = z3.Int("k!t")
            k = q - v.w if not isinstance(v.w, int) else q
            yield ("filled up to the cursor", FA(q, A[q] == z3.If(z3.And(k >= v.b, k < x), v.label, v.L0[q]), [A[q]]))
            yield ("run unbroken up to the cursor", brk_r(v.b) >= x)

    def apply(self, ex, st, args, I):
        return apply_fill(ex, st, args, "left", self)


class FillFromRight(Fill):
    name = "FillFromRight"
    rx = r"^void FillFromRight<"

    def args2(self, v, nb, lab):
        v.b, v.e = v.int("begin"), v.int("end")
        v.assume(v.b < v.e)
        v.assume(*reach_facts(v.e, v.n))
        return [v.lp, nb, v.b, v.e, lab]

    def post(self, v, o):
        bad = z3.Or(v.e >= v.n, v.b < -1)
        if o[0] == "throw":
            return [("throws only for a range outside the labels", bad), ("exception type is invalid_argument", o[1] == "std::invalid_argument"),
                    ("labels untouched on error", FillFromLeft.same(self, v))]
        A = self.arr(v, v.st)
        return [("an out-of-range request is rejected", z3.Not(bad)),
                ("exactly the connected run down from end, above begin, is labelled", right_formula(A, v.L0, v.b, v.e, brk_l(v.e), v.label, v.w)),
                ("length unchanged", Z(self.length(v)) == v.n)]

    def templates(self, v, lc):
        A = self.arr(v, lc.st)
        for i in lc.ints():
            x = Z(i.logical())
            q = z3.Int("k!t")
            k = q - v.w if not isinstance(v.w, int) else q
            yield ("filled down to the cursor", FA(q, A[q] == z3.If(z3.And(k <= v.e, k > x), v.label, v.L0[q]), [A[q]]))
            yield ("run unbroken down to the cursor", brk_l(v.e) <= x)

    def apply(self, ex, st, args, I):
        return apply_fill(ex, st, args, "right", self)


def label_store(ex, st, lp):
    """the labels argument: a std::vector<PointLabel> (address, element 0 offset, length)"""
    seq, n = models.vget(ex, st, lp)
    return seq, 0, n


def apply_fill(ex, st, args, side, spec, store=label_store):
    lp, nb, b, e, lab = args
    seq, base, n = store(ex, st, lp)
    label = ex.read_k(st, lab, "i8")
    ex.oblige(st, "precondition of %s: begin < end" % spec.name, cmp_i("lt", b, e), None, "pre")
    nsz = getattr(ex, "nb_n", None)
    if nsz is None:
        nsz = ex.read_k(st, Ptr(nb.obj, iadd(nb.off, 8)), "i32")
    ex.oblige(st, "precondition of %s: labels and neighbour relation have the same size" % spec.name, cmp_i("eq", nsz, n), None, "pre")
    bad = bor(cmp_i("gt", e, n), cmp_i("lt", b, 0)) if side == "left" else bor(cmp_i("ge", e, n), cmp_i("lt", b, -1))
    outs = []
    for t, s in ex.branch(st, bad):
        if t:
            outs.append((s, ("throw", "std::invalid_argument", Ptr(Obj("exception", "opaque"), 0))))
            continue
        A0 = ex.arr(s, seq, 0)
        A1 = z3.Array(ex.fresh("labels"), IntS, IntS)
        s.wr(seq).arrays[0] = A1
        s.assume(*reach_facts(b if side == "left" else e, n))
        k = z3.Int("k!ap")
        if side == "left":
            c = z3.And(k >= Z(b), k < Z(e), k <= brk_r(Z(b)))
        else:
            c = z3.And(k > Z(b), k <= Z(e), k >= brk_l(Z(e)))
        kk = k - Z(base) if not (isinstance(base, int) and base == 0) else k
        c = z3.substitute(c, (k, kk)) if kk is not k else c
        s.assume(z3.ForAll([k], A1[k] == z3.If(c, Z(label), A0[k]), patterns=[A1[k]]))
        outs.append((s, ("ret", None)))
    return outs


class FillNeighbors(Fill):
    name = "FillNeighbors"
    rx = r"^void FillNeighbors<"

    def args2(self, v, nb, lab):
        v.i, v.pad = v.int("index"), v.int("padding", 0, 1 << 29)
        v.assume(z3.And(v.i >= 0, v.i < v.n))
        v.assume(*reach_facts(v.i, v.n))
        return [v.lp, nb, v.i, v.pad, lab]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws for an index inside the scan", False)]
        A = self.arr(v, v.st)
        q = z3.Int("k!n")
        k = q - v.w if not isinstance(v.w, int) else q
        return [("exactly the connected points at distance <= padding are labelled",
                 FA(q, A[q] == z3.If(z3.And(k >= v.i - v.pad, k <= v.i + v.pad, k >= brk_l(v.i), k <= brk_r(v.i)), v.label, v.L0[q]), [A[q]])),
                ("length unchanged", Z(self.length(v)) == v.n)]


FillNeighbors.contracts = [FillFromLeft(), FillFromRight()]
UNITS = [Unit("u_fill.cpp", [FillFromLeft(), FillFromRight(), FillNeighbors()])]
REPLAY = ["c02.cpp"]
ASSUME = ["labels.size() equals the neighbour relation's size() and both fit in 30 bits", "begin < end for the one-sided fills, 0 <= index < size and padding >= 0 for the two-sided fill",
          "the neighbour relation is an arbitrary symmetric relation (interface contract of NeighborCheckBase; C08 proves it for the implementation)"]
