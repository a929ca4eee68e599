"""C24 the store of objects sorted by time stamp."""
from common import *
import containers, maps



def offsets(v):
    """where the mutex and the map are inside the store"""
    T = v.ex.mod.named_struct("class.StampSortedObjects")
    out = {}
    for o, e in zip(T.offs, T.elems):
        n = e.s
        for w in ("mutex", "map"):
            if w in n:
                out[w] = o
    return out["mutex"], out["map"]


MAXN = 1 << 40


class Store(Spec):
    def base(self, v):
        v.s = v.blob("store", 88)
        n = v.int("n", 0, MAXN)
        S = v.seqobj("entries", 16, {0: "f64", 8: "f64"}, n)
        S.rb = True
        mu, v.off = offsets(v)
        v.cell(v.s, v.off, "ptr", Ptr(S, 0))
        v.mu = Ptr(v.s.obj, mu)
        v.cell(v.s, mu, "i32", 0)
        v.ex.guard = v.mu
        v.K, v.X, v.n = v.ex.arr(v.st, S, 0), v.ex.arr(v.st, S, 8), n
        v.assume(maps.sorted_fact(v.K, n))
        v.t = v.real("time stamp")
        return v.s

    def now(self, v):
        S = maps.mget(v.ex, v.st, Ptr(v.s.obj, v.off))
        return v.ex.arr(v.st, S, 0), v.ex.arr(v.st, S, 8), Z(v.st.os(S).n)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        held = v.ex.read_k(v.st, v.mu, "i32")
        return [("the mutex is released", Z(held) == 0)] + self.goals(v, o)

    def same(self, v):
        K, X, n = self.now(v)
        k = z3.Int("k!p")
        return [("the store is unchanged", z3.And(n == v.n, FA(k, z3.Implies(rng(0, k, n), z3.And(K[k] == v.K[k], X[k] == v.X[k])))))]


class Insert(Store):
    name, rx = "Insert", r"^irvc_insert$"

    def setup(self, v):
        s = self.base(v)
        v.x = v.real("object")
        return [s, v.t, v.x]

    def goals(self, v, o):
        K, X, n = self.now(v)
        j, k = z3.Ints("j!p k!p")
        hit = z3.Exists([j], z3.And(rng(0, j, v.n), v.K[j] == v.t))
        return [("entries stay in time order", maps.sorted_fact(K, n)),
                ("the object is stored at its time stamp", z3.Exists([k], z3.And(rng(0, k, n), K[k] == v.t, X[k] == v.x))),
                ("every other entry stays", FA(j, z3.Implies(z3.And(rng(0, j, v.n), v.K[j] != v.t), z3.Or(*[z3.And(q < n, K[q] == v.K[j], X[q] == v.X[j]) for q in (j, j + 1)])))),
                ("nothing else is added", FA(k, z3.Implies(z3.And(rng(0, k, n), K[k] != v.t), z3.Exists([j], z3.And(rng(0, j, v.n), v.K[j] == K[k], v.X[j] == X[k]))))),
                ("one entry more unless the stamp was stored", n == v.n + z3.If(hit, 0, 1))]


class Closest(Store):
    name, rx = "GetClosest", r"^irvc_closest$"

    def setup(self, v):
        s = self.base(v)
        v.assume(v.n > 0)
        v.rt, v.ro = v.blob("time", 8, lazy=False), v.blob("object", 8, lazy=False)
        return [s, v.t, v.rt, v.ro]

    def goals(self, v, o):
        t, x = ZR(v.ex.read_k(v.st, v.rt, "f64")), ZR(v.ex.read_k(v.st, v.ro, "f64"))
        k = z3.Int("k!p")
        ab = lambda e: z3.If(e >= 0, e, -e)
        return [("a stored time stamp and the object stored with it", z3.Exists([k], z3.And(rng(0, k, v.n), v.K[k] == t, v.X[k] == x))),
                ("no stored time stamp is closer", FA(k, z3.Implies(rng(0, k, v.n), ab(v.t - t) <= ab(v.t - v.K[k])), [v.K[k]]))] + self.same(v)


class Prune(Store):
    name, rx = "RemoveOlderThan", r"^irvc_prune$"

    def setup(self, v):
        return [self.base(v), v.t]

    def templates(self, v, lc):
        """entries leave one by one from the end on"""
        k = z3.Int("k!t")
        for x in lc.ints():
            x = Z(x.logical())
            yield ("entries left", z3.And(x >= 0, x <= v.n, FA(k, z3.Implies(z3.And(rng(0, k, v.n), v.K[k] <= v.t), k < x), pats=[v.K[k]])))
            for it in lc.items:
                if it.kind == "arr":
                    for a in (v.K, v.X):
                        yield ("entries kept so far", FA(k, z3.Implies(rng(0, k, x), it.sym[k] == a[k]), pats=[it.sym[k]]))

    def goals(self, v, o):
        K, X, n = self.now(v)
        k, j = z3.Ints("k!p j!p")
        return [("entries stay in time order", maps.sorted_fact(K, n)),
                ("no entry after the time remains", FA(k, z3.Implies(rng(0, k, n), K[k] <= v.t))),
                ("entries up to the time remain", FA(k, z3.Implies(z3.And(rng(0, k, v.n), v.K[k] <= v.t), z3.And(k < n, K[k] == v.K[k], X[k] == v.X[k])))),
                ("nothing is added", z3.And(n <= v.n, FA(k, z3.Implies(rng(0, k, n), z3.And(K[k] == v.K[k], X[k] == v.X[k])))))]


class Size(Store):
    name, rx = "Size", r"^irvc_size$"

    def setup(self, v):
        return [self.base(v)]

    def goals(self, v, o):
        return [("number of entries", Z(v.ret) == v.n)] + self.same(v)


class Make(Spec):
    name, rx = "StampSortedObjects()", r"^irvc_make$"

    def setup(self, v):
        v.s = v.blob("store", 88, lazy=False)
        _, v.off = offsets(v)
        return [v.s]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("a new store is empty", Z(v.st.os(maps.mget(v.ex, v.st, Ptr(v.s.obj, v.off))).n) == 0)]


UNITS = [Unit("u_stamp.cpp", [Make(), Insert(), Closest(), Prune(), Size()])]
REPLAY = ["c24.cpp"]
ASSUME = ["time stamps are not NaN (std::map needs a strict weak order)", "time differences are computed without rounding", "std::map and std::mutex behave as modelled", "the store is instantiated with one number as object; the code never looks inside the object"]
