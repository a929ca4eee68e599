"""Points of the published clouds (AppendXYZIR, ColorPointsByLabel), for C32."""
from common import *
import c07
from c07 import POINTS_OFF, MAXN

RGB = (32, {0: "f32", 4: "f32", 8: "f32", 12: "f32", 16: "i8", 17: "i8", 18: "i8", 19: "i8"})
LAY = {**LAYOUTS, **c07.LAY, "pcl::PointXYZRGB": RGB}
COLOURS = [(255, 255, 255), (255, 0, 0), (255, 63, 0), (255, 0, 0), (255, 63, 0), (127, 127, 127), (255, 0, 255), (0, 255, 0)]


class _Points(Spec):
    layouts = LAY

    def want(self, v, f, k):
        """field f of the k-th point added"""

    def templates(self, v, lc):
        k = z3.Int("k!t")
        c = Z(lc.T)
        for it in lc.items:
            if it.kind != "arr" or getattr(it.obj, "stride", 0) != 32:
                continue
            w = self.want(v, it.f, k - v.m0)
            if w is not None:
                yield ("points added so far", FA(k, z3.Implies(z3.And(k >= v.m0, k < v.m0 + c), it.sym[k] == w)))
            if it.f in v.was:
                yield ("points before stay", FA(k, z3.Implies(rng(0, k, v.m0), it.sym[k] == v.was[it.f][k])))


class Append(_Points):
    name, rx = "AppendXYZIR", r"^irvc_append$"
    fields = (0, 4, 8, 16, 20)

    def setup(self, v):
        out = v.vec("output points", "PointXYZIR", at=None, maxn=MAXN)
        c = v.blob("cloud", 128)
        models.vset(v.ex, v.st, Ptr(c.obj, POINTS_OFF), out.seq(), out.n())
        v.p, v.c = v.vec("points", "PointXYZIR", maxn=MAXN), v.vec("curvature", "double", maxn=MAXN)
        v.m0, v.n = Z(out.n()), Z(v.p.n())
        v.assume(Z(v.c.n()) == v.n)
        v.was = {f: out.arr(f) for f in self.fields}
        v.P, v.C, v.cloud = {f: v.p.arr(f) for f in self.fields}, v.c.arr(), c
        return [c, v.p.p, v.c.p]

    def want(self, v, f, k):
        return v.C[k] if f == 16 else v.P[f][k] if f in v.P else None

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        s, n = models.vget(v.ex, v.st, Ptr(v.cloud.obj, POINTS_OFF))
        k = z3.Int("k!p")
        G = [("as many points more as given", Z(n) == v.m0 + v.n)]
        for f, name in zip(self.fields, ("x", "y", "z", "intensity", "ring")):
            a = v.ex.arr(v.st, s, f)
            G += [("%s of the points before stays" % name, FA(k, z3.Implies(rng(0, k, v.m0), a[k] == v.was[f][k]))),
                  ("%s of point k added is %s" % (name, "its curvature" if f == 16 else "that of point k given"), FA(k, z3.Implies(rng(0, k, v.n), a[v.m0 + k] == self.want(v, f, k))))]
        return G


class Color(_Points):
    name, rx = "ColorPointsByLabel", r"^irvc_color$"

    def setup(self, v):
        pts = v.vec("cloud points", "PointXYZIR", at=None, maxn=MAXN)
        c = v.blob("cloud", 128)
        models.vset(v.ex, v.st, Ptr(c.obj, POINTS_OFF), pts.seq(), pts.n())
        v.i, v.l = v.vec("indices", "int", maxn=MAXN), v.vec("labels", "PointLabel", maxn=MAXN)
        v.n, v.nc, v.m0, v.was = Z(v.i.n()), Z(pts.n()), z3.IntVal(0), {}
        v.I, v.L, v.P = v.i.arr(), v.l.arr(), {f: pts.arr(f) for f in (0, 4, 8)}
        k = z3.Int("k!s")
        v.assume(Z(v.l.n()) == v.n, FA(k, z3.Implies(rng(0, k, v.n), z3.And(v.I[k] >= 0, v.I[k] < v.nc)), [v.I[k]]),
                 FA(k, z3.Implies(rng(0, k, v.n), z3.And(v.L[k] >= 0, v.L[k] <= 7)), [v.L[k]]))
        return [c, v.i.p, v.l.p]

    def want(self, v, f, k):
        if f in v.P:
            return v.P[f][v.I[k]]
        if f in (16, 17, 18):
            byte = lambda i: z3.IntVal((COLOURS[i][18 - f] + 128) % 256 - 128)      # as the 8 bits are represented
            t = byte(7)
            for i in range(6, -1, -1):
                t = z3.If(v.L[k] == i, byte(i), t)
            return t
        return None

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        s, n = models.vget(v.ex, v.st, Ptr(o[1].obj, iadd(o[1].off, POINTS_OFF)))
        k = z3.Int("k!p")
        same = lambda f: True if s is None else FA(k, z3.Implies(rng(0, k, v.n), v.ex.arr(v.st, s, f)[k] == self.want(v, f, k)))
        return [("one point per label", Z(n) == v.n)] + [("%s of point k is %s" % (w, t), same(f)) for f, w, t in ((0, "x", "that of the point"), (4, "y", "that of the point"), (8, "z", "that of the point"), (18, "red", "its label's"), (17, "green", "its label's"), (16, "blue", "its label's"))]


UNITS = [Unit("u_points.cpp", [Append(), Color()], defs=["PCL"])]
