"""C14 residuals and Jacobian rows of edge and plane matching."""
from rot import *
from contract import atoms
from rot import _S


def res_spec(q, t, p0, p1, p2):
    r = rot(q, p0)
    a = [r[i] + t[i] - p1[i] for i in range(3)]
    b = [r[i] + t[i] - p2[i] for i in range(3)]
    return cross(a, b)


class EdgeS(_S):
    name, rx = "MakeEdgeResidual and MakeEdgeJacobianRow", r"^irvc_edge$"

    def setup(self, v):
        (a, v.q), (b, v.t), (c, v.p0), (d, v.p1), (e, v.p2) = self.vin(v, "q", 4), self.vin(v, "t", 3), self.vin(v, "p0_", 3), self.vin(v, "p1_", 3), self.vin(v, "p2_", 3)
        v.r, v.j = v.blob("r", 24), v.blob("j", 168)
        return [a, b, c, d, e, v.r, v.j]

    def goals(self, v):
        # the pose acts as the rotation polynomial plus (1 - |q|^2) p0 (C16), which is nothing for the unit quaternions of a pose
        n = dot(v.q, v.q) - 1
        t = [v.t[i] - n * v.p0[i] for i in range(3)]
        g = eqs("residual is the cross product of the differences to the two points", self.rd(v, v.r, 3), res_spec(v.q, t, v.p0, v.p1, v.p2))
        s = res_spec(v.q, v.t, v.p0, v.p1, v.p2)
        J = mat(v, v.j, 3, 7)
        xs = v.q + v.t
        return g + [("Jacobian (%d,%d) is the derivative of the residual" % (i, j), J[i][j] == D(s[i], xs[j])) for i in range(3) for j in range(7)]


class EdgeGeometry(Lemma):
    name = "geometry of the edge residual"

    def goals(self, v):
        p, a, b = [[v.real(n + str(i)) for i in range(3)] for n in "pab"]
        s = v.real("s")
        r = cross([p[i] - a[i] for i in range(3)], [p[i] - b[i] for i in range(3)])
        d = [b[i] - a[i] for i in range(3)]
        u = [p[i] - a[i] for i in range(3)]
        w = [u[i] - s * d[i] for i in range(3)]
        dd = dot(d, d)
        onl = cross([s * x for x in d], [a[i] + s * d[i] - b[i] for i in range(3)])
        return [("the squared length of the segment times the squared distance to any point of the line exceeds the squared residual by a square",
                 [], dd * dot(w, w) - dot(r, r) == (s * dd - dot(u, d)) * (s * dd - dot(u, d)))] + \
               [("the residual vanishes on the line (%d)" % i, [], onl[i] == 0) for i in range(3)]


class Plane(_S):
    name, rx = "SignedPointPlaneDistance", r"^irvc_plane$"

    def setup(self, v):
        (a, v.w), (b, v.x) = self.vin(v, "w", 3), self.vin(v, "x", 3)
        v.assume(dot(v.w, v.w) > 0)
        v.s, v.a = v.blob("s", 8), v.blob("a", 8)
        return [a, b, v.s, v.a]

    def goals(self, v):
        s, a = self.rd(v, v.s, 1)[0], self.rd(v, v.a, 1)[0]
        k = v.real("length")
        h = [k > 0, k * k == dot(v.w, v.w)]
        return [("distance times the length of the normal is the plane equation at the point", s * k == dot(v.w, v.x) + 1, h),
                ("unsigned distance is its absolute value", a == z3.If(s < 0, -s, s), h)]


class PlaneRow(_S):
    name, rx = "MakeJacobianRow", r"^irvc_planerow$"

    def setup(self, v):
        (a, v.w), (b, v.q), (c, v.p) = self.vin(v, "w", 3), self.vin(v, "q", 4), self.vin(v, "p", 3)
        v.assume(dot(v.w, v.w) > 0)
        v.j = v.blob("j", 56)
        return [a, b, c, v.j]

    def goals(self, v):
        J = mat(v, v.j, 1, 7)[0]
        t = [v.real("t%d" % i) for i in range(3)]
        r = rot(v.q, v.p)
        k, h = v.real("length"), []
        for t_ in atoms(z3.Sum(J), "m.sqrt"):
            if z3.simplify(t_.arg(0) - dot(v.w, v.w), som=True).eq(z3.RealVal(0)):
                k = t_
        h = [k > 0, k * k == dot(v.w, v.w)]
        f = dot(v.w, [r[i] + t[i] for i in range(3)]) + 1
        return [("entry %d is the derivative of the signed distance of the transformed point" % j, J[j] * k == D(f, x), h) for j, x in enumerate(v.q + t)]


UNITS = [Unit("u_resid.cpp", [EdgeS(), EdgeGeometry(), Plane(), PlaneRow()], defs=["PCL"])]
REPLAY = ["c14.cpp"]
ASSUME = ["finite values, plane coefficients not all zero; floating-point arithmetic is real arithmetic",
          "the plane coefficients and the line's points come from nearest-neighbour search and Eigen decompositions, which are outside the contracts: the residuals are specified for whatever plane or line they return"]
