"""C25 recent scans and the odometry pose chain."""
from common import *
import algebra, clouds, models
from algebra import EL, ROWS, COLS, F
from clouds import APPEND, MOVE, EMPTY
from c17 import ALG
from c26 import Maps

FOLD = F("recent.merged", IntS, IntS)            # the first k of the scans that count, merged
MATCH = [F("match." + n, IntS, IntS, IntS, IntS, IntS) for n in ("rotation", "translation")]


def h_match(k, r, c):
    def h(ex, st, I, a):
        return algebra.A(ex, st).dim(MATCH[k](*[Z(x) for x in a]), r, c)
    return h


HOOKS = [(re.compile("^irvc_match_rotation$"), h_match(0, 3, 3)), (re.compile("^irvc_match_translation$"), h_match(1, 3, 1))]
TOP = 1 << 30


class Scans(Maps):
    intrinsics = Maps.intrinsics + HOOKS
    max_unroll = 0

    def scans(self, v, vec, n):
        """`vec` holds n pointers into the cloud store"""
        ex = v.ex
        self.store(v)
        v.H, v.nc = ex.arr(v.st, ex.clouds, 0), Z(v.st.os(ex.clouds).n)
        s = v.seqobj("scans", 8, {0: "i64"}, n)
        models.vset(ex, v.st, vec, s, n)
        v.S, v.vec, v.m = ex.arr(v.st, s, 0), vec, n
        i = z3.Int("i!sc")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(v.S[i] >= 0, v.S[i] < v.nc)), patterns=[v.S[i]]))

    def counts(self, v, first, n):
        """the scans from `first` on, n of them, are those that count"""
        v.first, v.count = first, n

    def fold(self, v, k):
        t = APPEND(FOLD(k), v.H[v.S[v.first + k]])
        return [FOLD(0) == EMPTY, FOLD(k + 1) == t, z3.Implies(FOLD(k) == EMPTY, t == v.H[v.S[v.first + k]]), z3.Implies(v.H[v.S[v.first + k]] == EMPTY, t == FOLD(k))]

    def templates(self, v, lc):
        c = lc.T
        yield ("fact", z3.Implies(z3.And(c >= 0, c < v.count), z3.And(self.fold(v, c))))
        yield ("fact", FOLD(0) == EMPTY)
        k = z3.Int("k!tm")
        for it in lc.items:
            if it.kind == "arr" and it.sym.sort().range() == IntS:
                for m in (v.nc, v.nc + 1):
                    yield ("the new cloud holds the scans so far", it.sym[m] == FOLD(c))
                    yield ("no other cloud changes", z3.ForAll([k], z3.Implies(k != m, it.sym[k] == it.entry[k]) if z3.is_expr(it.entry) else z3.Implies(z3.And(k >= 0, k < v.nc), it.sym[k] == v.H[k]), patterns=[it.sym[k]]))
                yield ("clouds given stay", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.nc), it.sym[k] == v.H[k]), patterns=[it.sym[k]]))

    def after(self, v):
        """(clouds, how many, scan pointers, how many)"""
        s, n = models.vget(v.ex, v.st, v.vec)
        return v.ex.arr(v.st, v.ex.clouds, 0), Z(v.st.os(v.ex.clouds).n), v.ex.arr(v.st, s, 0) if s is not None else v.S, Z(n)

    def kept(self, v):
        H, nc, S, n = self.after(v)
        k = z3.Int("k!kp")
        return [("no scan given before changes", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.nc), H[k] == v.H[k]))),
                ("the scans held before are still held, in order", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.m), S[k] == v.S[k])))]

    def merged(self, v, o):
        H, nc, S, n = self.after(v)
        r = Z(o[1])
        return [("the result is a cloud of its own", z3.And(r >= v.nc, r < nc)), ("the scans that count, merged in order, each once", H[r] == FOLD(v.count)), ("no scan is added", n == v.m)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.merged(v, o) + self.kept(v)


class Merge(Scans):
    name, rx = "MergeClouds", r"^irvc_merge$"

    def setup(self, v):
        vec = v.blob("scans.vec", 24)
        self.scans(v, vec, v.int("held", 0, TOP))
        self.counts(v, 0, v.m)
        return [vec]


class All(Scans):
    name, rx = "RecentScans::GetAll", r"^irvc_get_all$"

    def setup(self, v):
        r = self.call(v, "irvc_recent")
        self.scans(v, self.call(v, "irvc_scans", r), v.int("held", 0, TOP))
        self.counts(v, 0, v.m)
        return [r]


class Get(Scans):
    name, rx = "RecentScans::GetRecent", r"^irvc_get_recent$"

    def setup(self, v):
        r = self.call(v, "irvc_recent")
        self.scans(v, self.call(v, "irvc_scans", r), v.int("held", 0, TOP))
        w = v.int("wanted", 0, (1 << 31) - 1)
        self.counts(v, z3.If(w < v.m, v.m - w, z3.IntVal(0)), z3.If(w < v.m, w, v.m))
        return [r, w]


class Empty(Scans):
    name, rx = "RecentScans::IsEmpty", r"^irvc_is_empty$"

    def setup(self, v):
        r = self.call(v, "irvc_recent")
        self.scans(v, self.call(v, "irvc_scans", r), v.int("held", 0, TOP))
        return [r]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        b = o[1] if z3.is_expr(o[1]) and z3.is_bool(o[1]) else Z(o[1]) != 0
        return [("empty exactly when no scan is held", b == (v.m == 0))] + self.kept(v)


class Add(Scans):
    name, rx = "RecentScans::Add", r"^irvc_add$"

    def setup(self, v):
        r = self.call(v, "irvc_recent")
        self.scans(v, self.call(v, "irvc_scans", r), v.int("held", 0, TOP))
        v.scan = v.int("scan", 0, 1 << 40, 64)
        v.assume(v.scan < v.nc)
        v.pose = self.pose(v, "pose")
        return [r] + [self.ref(v, t) for t in v.pose] + [v.scan]

    def grown(self, v, l, t):
        H, nc, S, n = self.after(v)
        return [("one scan is added", n == v.m + 1), ("it is a cloud of its own", z3.And(S[v.m] >= v.nc, S[v.m] < nc)), ("it is the scan moved by the pose", H[S[v.m]] == MOVE(v.H[v.scan], l, t))]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.grown(v, *v.pose) + self.kept(v)


class Update(Add):
    name, rx = "Odometry::Update", r"^irvc_update$"

    def setup(self, v):
        w = v.int("window", 0, (1 << 31) - 1)
        od = self.call(v, "irvc_odometry", w)
        self.scans(v, self.call(v, "irvc_odometry_scans", od), v.int("held", 0, TOP))
        self.counts(v, z3.If(w < v.m, v.m - w, z3.IntVal(0)), z3.If(w < v.m, w, v.m))
        v.scan = v.int("scan", 0, 1 << 40, 64)
        v.assume(v.scan < v.nc)
        v.pose, v.od = self.pose(v, "pose"), od
        self.call(v, "irvc_put", od, *[self.ref(v, t) for t in v.pose])
        return [od, v.scan]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        l, t = v.blob("l", 8, lazy=False), v.blob("t", 8, lazy=False)
        self.call(v, "irvc_pose", v.od, l, t)
        l, t = (Z(v.ex.read_k(v.st, p, "i64")) for p in (l, t))
        a = (FOLD(v.count), v.H[v.scan], *v.pose)
        return [("the first scan leaves the pose", z3.Implies(v.m == 0, z3.And(l == v.pose[0], t == v.pose[1]))),
                ("a later scan's pose is matched against the recent scans from the previous pose", z3.Implies(v.m > 0, z3.And(l == MATCH[0](*a), t == MATCH[1](*a))))] + self.grown(v, l, t) + self.kept(v)


class Start(Scans):
    name, rx = "Odometry()", r"^irvc_odometry$"

    def setup(self, v):
        self.store(v)
        return [v.int("window", 0, (1 << 31) - 1)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        l, t = v.blob("l", 8, lazy=False), v.blob("t", 8, lazy=False)
        self.call(v, "irvc_pose", o[1], l, t)
        l, t = (Z(v.ex.read_k(v.st, p, "i64")) for p in (l, t))
        s, n = models.vget(v.ex, v.st, self.call(v, "irvc_odometry_scans", o[1]))
        return [("starts with no scan", Z(n) == 0), ("starts at the origin", z3.And(*[EL(t, i, 0) == 0 for i in range(3)])),
                ("starts unrotated", z3.And(*[EL(l, i, j) == int(i == j) for i in range(3) for j in range(3)]))]


UNITS = [Unit("u_odometry.cpp", [Merge(), All(), Get(), Empty(), Add(), Update(), Start()], incs=ALG)]
REPLAY = ["c25.cpp"]
ASSUME = ["matrix algebra of units/stubs/algebra", "point clouds are values; appending and moving are PCL's, uninterpreted except for the number of points", "pointers to clouds are positions in a store (clouds are never freed)", "the matcher gives some pose for every map, scan and start (the optimiser is C15)", "real arithmetic in place of double"]
