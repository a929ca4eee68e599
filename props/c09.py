"""C09 selection by index, views and sorted index lists."""
from common import *
import containers, loops

MAXN = 1 << 30


class _W(Spec):
    """written-up-to-the-cursor templates for results built element by element"""

    def elem(self, v, k):
        return None

    def templates(self, v, lc):
        k = z3.Int("k!t")
        for c in lc.ints():
            c = Z(c.logical())
            for it in lc.items:
                if it.kind == "arr" and it.sym.sort().range() == self.sort:
                    yield ("written so far", FA(k, z3.Implies(z3.And(k >= 0, k < c), it.sym[k] == self.elem(v, k))))

    def res(self, v):
        r = VecV(v, v.out)
        return Z(r.n()), r.arr()


class Get(_W):
    name, rx, sort = "GetByIndices", r"^irvc_get$", RealS

    def setup(self, v):
        v.i, v.a = v.vec("indices", "unsigned long", maxn=MAXN), v.vec("array", "double", maxn=MAXN)
        v.I, v.A, v.n, v.m = v.i.arr(), v.a.arr(), v.i.n(), v.a.n()
        k = z3.Int("k!s")
        v.assume(FA(k, v.I[k] >= 0, [v.I[k]]))
        v.out = v.blob("result", 24, lazy=False)
        return [v.i.p, v.a.p, v.out]

    def elem(self, v, k):
        return v.A[v.I[k]]

    def templates(self, v, lc):
        yield from super().templates(v, lc)
        k = z3.Int("k!t")
        for c in lc.ints():
            c = Z(c.logical())
            yield ("indices seen so far are inside", FA(k, z3.Implies(z3.And(k >= 0, k < c), v.I[k] < v.m)))

    def post(self, v, o):
        k = z3.Int("k!p")
        if o[0] == "throw":
            return [("out_of_range only for an index outside the array", z3.And(z3.BoolVal(o[1] == "std::out_of_range"), z3.Exists([k], z3.And(rng(0, k, v.n), v.I[k] >= v.m))))]
        n, R = self.res(v)
        return [("as many elements as indices", n == v.n),
                ("every index is inside the array", FA(k, z3.Implies(rng(0, k, v.n), v.I[k] < v.m))),
                ("element k is the array's element at index k", FA(k, z3.Implies(rng(0, k, v.n), R[k] == v.A[v.I[k]])))]


class Where(_W):
    name, rx, sort = "GetIndicesByValue", r"^irvc_where$", IntS

    def setup(self, v):
        v.a = v.vec("labels", "int", maxn=MAXN)
        v.A, v.n = v.a.arr(), v.a.n()
        v.x = v.int("label")
        v.out = v.blob("result", 24, lazy=False)
        return [v.a.p, v.ref("label", "i32", v.x), v.out]

    def templates(self, v, lc):
        k, j = z3.Ints("k!t j!t")
        P = z3.Function("found.at", IntS, IntS)
        ints = [Z(i.logical()) for i in lc.ints()]
        v.P = P
        for c in ints:
            # count of hits below c
            yield ("fact", z3.And(P(0) == 0, P(c) >= 0, P(c + 1) == P(c) + z3.If(v.A[c] == v.x, 1, 0)))
            for m in ints:
                yield ("as many as found so far", m == P(c))
            for it in lc.items:
                if it.kind == "arr" and it.sym.sort().range() == IntS:
                    for m in ints:
                        yield ("positions found so far hold the value", FA(k, z3.Implies(z3.And(k >= 0, k < m), z3.And(it.sym[k] >= 0, it.sym[k] < c, v.A[it.sym[k]] == v.x, P(it.sym[k]) == k))))
                        yield ("every position seen so far that holds the value was found", FA(k, z3.Implies(z3.And(k >= 0, k < c, v.A[k] == v.x), z3.And(P(k) >= 0, P(k) < m, it.sym[P(k)] == k)), [P(k)]))
                        yield ("increasing", FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), it.sym[j] < it.sym[k])))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        n, R = self.res(v)
        j, k = z3.Ints("j!p k!p")
        return [("every result holds the value", FA(k, z3.Implies(rng(0, k, n), z3.And(R[k] >= 0, R[k] < v.n, v.A[R[k]] == v.x)))),
                ("increasing order", FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), R[j] < R[k]))),
                ("every position holding the value is in the result", FA(k, z3.Implies(z3.And(rng(0, k, v.n), v.A[k] == v.x), z3.Exists([j], z3.And(rng(0, j, n), R[j] == k)))))]


class _B(_W):
    def setup(self, v):
        v.a = v.vec("values", "double", maxn=MAXN)
        v.A, v.n = v.a.arr(), v.a.n()
        v.b = v.int("begin", 0, MAXN)
        v.e = v.int("end", 0, MAXN)
        v.assume(z3.And(v.b <= v.e, v.e <= v.n))
        return self.more(v)


class Argsort(_B):
    name, rx, sort = "Argsort", r"^irvc_argsort$", IntS

    def more(self, v):
        v.out = v.blob("result", 24, lazy=False)
        return [v.a.p, v.b, v.e, v.out]

    def elem(self, v, k):
        return k

    def witnesses(self, v, k, n, R):
        """places a sort may have put k at; each implies that k occurs"""
        return [z3.And(a[lo + k] == k, rng(0, p(lo + k), n), R[p(lo + k)] == k) for a, lo, p in getattr(v.ex, "perms", []) if a.sort() == R.sort()]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        n, R = self.res(v)
        j, k = z3.Ints("j!p k!p")
        return [("one index per value", n == v.e - v.b),
                ("every result is a position", FA(k, z3.Implies(rng(0, k, n), z3.And(R[k] >= 0, R[k] < n)))),
                ("every position occurs", FA(k, z3.Implies(rng(0, k, n), z3.Or(self.witnesses(v, k, n, R) + [z3.Exists([j], z3.And(rng(0, j, n), R[j] == k))])))),
                ("no position occurs twice", FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), R[j] != R[k]))),
                ("values are non-decreasing in this order", FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), v.A[v.b + R[j]] <= v.A[v.b + R[k]])))]


class ArgsortSpan(Argsort):
    name, rx = "Argsort of a view", r"^irvc_argsort_span$"


class Irange(_W):
    name, rx, sort = "irange", r"^irvc_irange$", IntS

    def setup(self, v):
        v.n = v.int("n", 0, MAXN)
        v.out = v.blob("result", 24, lazy=False)
        return [v.n, v.out]

    def elem(self, v, k):
        return k

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        n, R = self.res(v)
        k = z3.Int("k!p")
        return [("n indices", n == v.n), ("0, 1, 2, ...", FA(k, z3.Implies(rng(0, k, n), R[k] == k)))]


class Read(_B):
    name, rx = "view: reading", r"^irvc_read$"

    def more(self, v):
        v.i = v.int("index")
        return [v.a.p, v.b, v.e, v.i]

    def post(self, v, o):
        ok = z3.And(v.i >= 0, v.i < v.e - v.b)
        if o[0] == "throw":
            return [("only an index outside the view is rejected, with out_of_range", z3.And(z3.Not(ok), z3.BoolVal(o[1] == "std::out_of_range")))]
        return [("index inside the view", ok)] + self.goals(v, o)

    def goals(self, v, o):
        return [("the element of that part", ZR(o[1]) == v.A[v.b + v.i])]


class ReadW(Read):
    name, rx = "writable view: reading", r"^irvc_readw$"


class Write(Read):
    name, rx = "view: writing", r"^irvc_write$"

    def more(self, v):
        v.x = v.real("x")
        return super().more(v) + [v.x]

    def goals(self, v, o):
        k = z3.Int("k!p")
        N = VecV(v, v.a.p).arr()
        return [("the element of that part is replaced", N[v.b + v.i] == v.x), ("all others stay", FA(k, z3.Implies(z3.And(rng(0, k, v.n), k != v.b + v.i), N[k] == v.A[k])))]


class Size(_B):
    name, rx = "view: size", r"^irvc_spansize$"

    def more(self, v):
        return [v.a.p, v.b, v.e]

    def post(self, v, o):
        return [("size", o[0] == "ret" and Z(o[1]) == v.e - v.b)]


UNITS = [Unit("u_select.cpp", [Get(), Where(), Irange(), Argsort(), ArgsortSpan(), Read(), ReadW(), Write(), Size()])]
REPLAY = ["c09.cpp"]
ASSUME = ["values are finite (std::sort needs a strict weak order; not-a-number values have none)", "sequences of at most 2^30 elements", "std::sort behaves as modelled"]
