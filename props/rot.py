"""Contracts on the rotation algebra, the rotated point's derivative and pose assembly (C12, C13, C16)."""
from common import *
from autodiff import D
from c20 import mat

SIN, COS, SQRT = models.uf("sin"), models.uf("cos"), models.uf("sqrt")


def qmul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def rot(q, p):
    """q p q*, the polynomial that defines the rotated point"""
    c = [q[0], -q[1], -q[2], -q[3]]
    return qmul(qmul(q, [z3.RealVal(0)] + list(p)), c)[1:]


def rmat(q):
    e = [[z3.RealVal(int(i == j)) for j in range(3)] for i in range(3)]
    cols = [rot(q, e[j]) for j in range(3)]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def eqs(nm, a, b, hyp=None):
    return [("%s (%d)" % (nm, i), x == y) + ((hyp,) if hyp else ()) for i, (x, y) in enumerate(zip(a, b))]


class _S(Spec):
    solver_tmo = 60

    def vin(self, v, name, n):
        p = v.blob(name, 8 * n)
        xs = [v.real("%s%d" % (name, i)) for i in range(n)]
        for i, x in enumerate(xs):
            v.cell(p, 8 * i, "f64", x)
        return p, xs

    def rd(self, v, p, n):
        return [r[0] for r in mat(v, p, n, 1)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.goals(v)


class Left(_S):
    name, rx, left = "LeftMultiplicationMatrix", r"^irvc_left$", True

    def setup(self, v):
        (a, v.q), (b, v.r) = self.vin(v, "q", 4), self.vin(v, "r", 4)
        v.lib, v.out = v.blob("lib", 32), v.blob("out", 32)
        return [a, b, v.lib, v.out]

    def goals(self, v):
        s = qmul(v.q, v.r) if self.left else qmul(v.r, v.q)
        return eqs("matrix times r is the quaternion product", self.rd(v, v.out, 4), s) + eqs("and the library's product", self.rd(v, v.lib, 4), s)


class Right(Left):
    name, rx, left = "RightMultiplicationMatrix", r"^irvc_right$", False


class WXYZ(_S):
    name, rx = "FromWXYZ and ToWXYZ", r"^irvc_wxyz$"

    def setup(self, v):
        a, v.q = self.vin(v, "q", 4)
        v.m, v.out = v.blob("members", 32), v.blob("out", 32)
        return [a, v.m, v.out]

    def goals(self, v):
        return eqs("members are w, x, y, z", self.rd(v, v.m, 4), v.q) + eqs("there and back", self.rd(v, v.out, 4), v.q)


class HatS(_S):
    name, rx = "Hat", r"^irvc_hat$"

    def setup(self, v):
        a, v.v = self.vin(v, "v", 3)
        v.k = v.blob("k", 72)
        return [a, v.k]

    def goals(self, v):
        K = mat(v, v.k, 3, 3)
        u = [v.real("u%d" % i) for i in range(3)]
        return eqs("matrix times u is the cross product", [dot(K[i], u) for i in range(3)], cross(v.v, u)) + \
            [("antisymmetric (%d,%d)" % (i, j), K[i][j] == -K[j][i]) for i in range(3) for j in range(i + 1)]


class RPY(_S):
    name, rx = "RPYToQuaternionXYZ", r"^irvc_rpy$"

    def setup(self, v):
        v.a = [v.real(n) for n in ("roll", "pitch", "yaw")]
        v.out = v.blob("out", 32)
        return v.a + [v.out]

    def goals(self, v):
        h = [x / 2 for x in v.a]
        ax = [[COS(x)] + [SIN(x) if k == i else z3.RealVal(0) for k in range(3)] for i, x in enumerate(h)]
        return eqs("rotation by roll about x, then pitch about y, then yaw about z", self.rd(v, v.out, 4), qmul(qmul(ax[2], ax[1]), ax[0]))


class DRp(_S):
    name, rx = "DRpDq", r"^irvc_drpdq$"

    def setup(self, v):
        (a, v.q), (b, v.p) = self.vin(v, "q", 4), self.vin(v, "p", 3)
        v.out = v.blob("out", 96)
        return [a, b, v.out]

    def goals(self, v):
        J = mat(v, v.out, 3, 4)
        r = rot(v.q, v.p)
        return [("d(rotated point %s)/d(q%s)" % ("xyz"[i], "wxyz"[j]), J[i][j] == D(r[i], v.q[j])) for i in range(3) for j in range(4)]


class Rotate(_S):
    """the polynomial is the rotation the rest of the code applies, for unit quaternions"""
    name, rx = "rotation applied by the code", r"^irvc_rotate$"

    def setup(self, v):
        (a, v.q), (b, v.p) = self.vin(v, "q", 4), self.vin(v, "p", 3)
        v.a, v.b = v.blob("byq", 24), v.blob("bym", 24)
        return [a, b, v.a, v.b]

    def goals(self, v):
        r = rot(v.q, v.p)
        n = dot(v.q, v.q) - 1
        # code - polynomial = -(|q|^2 - 1) * p, so both agree on unit quaternions
        out = []
        for nm, p in (("quaternion applied to a point", v.a), ("rotation matrix applied to a point", v.b)):
            for i, x in enumerate(self.rd(v, p, 3)):
                out.append(("%s is the polynomial for a unit quaternion (%d)" % (nm, i), x == r[i] - n * v.p[i]))
        return out


class Angle(_S):
    name, rx = "AngleAxisToQuaternion", r"^irvc_angle$"

    def setup(self, v):
        a, v.t = self.vin(v, "theta", 3)
        v.out = v.blob("out", 32)
        return [a, v.out]

    def goals(self, v):
        q = self.rd(v, v.out, 4)
        n2 = dot(v.t, v.t)
        k = v.real("length")
        hk = [k >= 0, k * k == n2]
        lo, hi = z3.RealVal("1/100000001"), z3.RealVal("1/99999999")    # "1e-8" up to its representation as a double
        s, c = SIN(k / 2), COS(k / 2)
        one = s * s + c * c == 1
        g = [("a rotation shorter than 1e-8 gives the identity", z3.Implies(k < lo, z3.And(q[0] == 1, q[1] == 0, q[2] == 0, q[3] == 0)), hk),
             ("scalar part is the cosine of half the length", z3.Implies(k > hi, q[0] == c), hk)]
        for i in range(3):
            g.append(("vector part is the sine of half the length times the direction (%d)" % i, z3.Implies(k > hi, q[i + 1] * k == s * v.t[i]), hk))
        g.append(("unit length", z3.Implies(k > hi, dot(q, q) == 1), hk + [one]))
        return g


class Pose(_S):
    name, rx, unit = "MakePose", r"^irvc_pose$", False

    def setup(self, v):
        (a, v.q), (b, v.t), (c, v.p) = self.vin(v, "q", 4), self.vin(v, "t", 3), self.vin(v, "p", 3)
        if self.unit:
            v.assume(dot(v.q, v.q) == 1)
        v.out, v.m = v.blob("out", 24), v.blob("m", 128)
        return [a, b, c, v.out, v.m]

    def goals(self, v):
        h = [dot(v.q, v.q) == 1]
        r = rot(v.q, v.p)
        n = dot(v.q, v.q) - 1
        M = mat(v, v.m, 4, 4)
        R = rmat(v.q)
        x = self.rd(v, v.out, 3)
        g = [("acts as the rotation followed by the translation (%d)" % i, x[i] == r[i] - n * v.p[i] + v.t[i]) for i in range(3)]
        g += [("rotation block (%d,%d)" % (i, j), M[i][j] == R[i][j] - (n if i == j else 0)) for i in range(3) for j in range(3)]
        g += [("translation column (%d)" % i, M[i][3] == v.t[i]) for i in range(3)]
        g += [("last row (%d)" % j, M[3][j] == int(j == 3)) for j in range(4)]
        return g


class Iso(Pose):
    name, rx, unit = "MakeIsometry3d", r"^irvc_isometry$", True


S12, S13, S16 = [Left(), Right(), WXYZ(), HatS(), RPY()], [DRp(), Rotate()], [Angle(), Pose(), Iso(), Rotate()]
ASSUME = ["finite values; floating-point arithmetic is real arithmetic"]
