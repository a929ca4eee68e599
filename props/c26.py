"""C26 keyframe map building."""
from common import *
import algebra, clouds, strings
from algebra import EL, ROWS, COLS
from clouds import SIZE, append, MOVE
from c17 import Matrices, ALG

HOOKS = [(re.compile("^irvc_log$"), lambda ex, st, I, a: None)]


class Maps(Matrices):
    intrinsics = algebra.MATS + clouds.TABLE + strings.TABLE + HOOKS
    max_unroll = 4

    def call(self, v, fn, *args):
        outs = [o for o in v.ex.run_fn(v.ex.mod.fn(fn), list(args), v.st) if o[1][0] == "ret"]
        assert len(outs) == 1
        v.st = outs[0][0]
        return outs[0][1][1]

    def between(self, v, l0, t0, l1, t1):
        """(squared distance, squared vector part of the rotation) between two poses"""
        d, q = v.blob("distance", 8, lazy=False), v.blob("rotation", 8, lazy=False)
        self.call(v, "irvc_between", *[self.ref(v, t) for t in (l0, t0, l1, t1)], d, q)
        d, q = (Z(v.ex.read_k(v.st, p, "i64")) for p in (d, q))
        al = self.al(v)
        return al.dot(d, d), al.dot(q, q)

    def small(self, v, l0, t0, l1, t1, a, b):
        d, q = self.between(v, l0, t0, l1, t1)
        return z3.And(a > 0, b > 0, d < a * a, q < b * b)

    def store(self, v):
        n = v.int("clouds", 0, 1 << 40, 64)
        v.ex.clouds = v.seqobj("cloud store", 8, {0: "i64"}, n)
        v.ex.saved = v.blob("saved", 16)
        v.cell(v.ex.saved, 0, "i64", 0)
        v.cell(v.ex.saved, 8, "i64", 0)

    def pose(self, v, name):
        return self.mat(v, name + " rotation", 3, 3), self.mat(v, name + " translation", 3, 1)


class Small(Maps):
    name, rx = "PoseDiffIsSufficientlySmall", r"^irvc_small$"

    def setup(self, v):
        v.p0, v.p1 = self.pose(v, "first"), self.pose(v, "second")
        v.a, v.b = v.real("translation limit"), v.real("rotation limit")
        return [self.ref(v, t) for t in v.p0 + v.p1] + [v.a, v.b]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("exactly the poses closer than both limits", as_bool(o[1]) == self.small(v, *v.p0, *v.p1, v.a, v.b))]


def as_bool(x):
    return x if isinstance(x, bool) or z3.is_expr(x) and z3.is_bool(x) else (Z(x) != 0)


class Callback(Maps):
    name, rx = "MapBuilder::Callback", r"^irvc_callback$"

    def setup(self, v):
        self.store(v)
        v.b = self.call(v, "irvc_builder")
        v.map, v.last = v.int("map", 0, 1 << 40, 64), self.pose(v, "last")
        v.cloud = v.ex.message_cloud = v.int("scan", 0, 1 << 40, 64)
        clouds.laws(v.st, v.map)
        clouds.laws(v.st, v.cloud)
        self.call(v, "irvc_set", v.b, v.map, *[self.ref(v, t) for t in v.last])
        m = v.blob("pose", 56)
        v.m = [v.real("pose[%d]" % i) for i in range(7)]
        for i, x in enumerate(v.m):
            v.cell(m, 8 * i, "f64", x)
        return [v.b, self.call(v, "irvc_cloud"), self.call(v, "irvc_pose", m)]

    def two(self, v, fn, *args):
        l, t = v.blob("l", 8, lazy=False), v.blob("t", 8, lazy=False)
        self.call(v, fn, *args, l, t)
        return [Z(v.ex.read_k(v.st, p, "i64")) for p in (l, t)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        pose = v.ex.read_k(v.st, v.args[2], "ptr")
        l, t = self.two(v, "irvc_given", pose)
        last = self.two(v, "irvc_last", v.b)
        new = Z(self.call(v, "irvc_map", v.b))
        skip = z3.Or(SIZE(v.cloud) == 0, z3.And(SIZE(v.map) > 0, self.small(v, *v.last, l, t, z3.RealVal(1), z3.RealVal(str(Fraction(0.1))))))
        grown = clouds.APPEND(v.map, MOVE(v.cloud, l, t))
        same = lambda a, b, r, c: z3.And(ROWS(a) == r, COLS(a) == c, *[EL(a, i, j) == EL(b, i, j) for i in range(r) for j in range(c)])
        return [("a skipped scan leaves the map", z3.Implies(skip, new == v.map)),
                ("a skipped scan leaves the reference rotation", z3.Implies(skip, same(last[0], v.last[0], 3, 3))),
                ("a skipped scan leaves the reference translation", z3.Implies(skip, same(last[1], v.last[1], 3, 1))),
                ("otherwise the map grows by the scan moved by its pose", z3.Implies(z3.Not(skip), new == grown)),
                ("otherwise the scan's rotation becomes the reference", z3.Implies(z3.Not(skip), same(last[0], l, 3, 3))),
                ("otherwise the scan's translation becomes the reference", z3.Implies(z3.Not(skip), same(last[1], t, 3, 1))),
                ("nothing is saved", Z(v.ex.read_k(v.st, v.ex.saved, "i64")) == 0)]


class Save(Maps):
    name, rx = "MapBuilder::SaveMap", r"^irvc_save$"

    def setup(self, v):
        self.store(v)
        v.b = self.call(v, "irvc_builder")
        v.map = v.int("map", 0, 1 << 40, 64)
        clouds.laws(v.st, v.map)
        self.call(v, "irvc_set", v.b, v.map, *[self.ref(v, t) for t in self.pose(v, "last")])
        p = v.blob("file", 32)
        n = v.int("file name length", 0, 1 << 20, 64)
        strings.sset(v.ex, v.st, p, v.seqobj("file.chars", 1, {0: "i8"}, n), n)
        return [v.b, p]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        n, c = (Z(v.ex.read_k(v.st, Ptr(v.ex.saved.obj, k), "i64")) for k in (0, 8))
        return [("an empty map is not saved", z3.Implies(SIZE(v.map) == 0, n == 0)),
                ("a map is saved once, whole", z3.Implies(SIZE(v.map) > 0, z3.And(n == 1, c == v.map))),
                ("saving leaves the map", Z(self.call(v, "irvc_map", v.b)) == v.map)]


UNITS = [Unit("u_map.cpp", [Small(), Callback(), Save()], incs=ALG)]
REPLAY = ["c26.cpp"]
ASSUME = ["matrix algebra of units/stubs/algebra (the quaternion of a rotation matrix and the matrix of a quaternion are uninterpreted)", "point clouds are values; appending and moving are PCL's, uninterpreted except for the number of points", "a message is decoded by PCL to one cloud (any cloud)", "real arithmetic in place of double"]
