"""C20 state prediction, transition matrix, process noise."""
from common import *
from autodiff import D

SIN, COS = models.uf("sin"), models.uf("cos")
N = ["X", "Y", "YAW", "YAWB", "VX", "WZ"]


def mat(v, p, r, c, st=None):
    return [[ZR(v.ex.read_k(st or v.st, Ptr(p.obj, iadd(p.off, 8 * (i + r * j))), "f64")) for j in range(c)] for i in range(r)]


class Predict(Spec):
    name = "predictNextState and createStateTransitionMatrix"
    rx = r"^irvc_predict$"

    def setup(self, v):
        xp = v.blob("state", 48)
        v.x = [v.real(n) for n in N]
        for i, x in enumerate(v.x):
            v.cell(xp, 8 * i, "f64", x)
        v.dt = v.real("dt")
        v.next, v.A = v.blob("next", 48), v.blob("A", 288)
        return [xp, v.dt, v.next, v.A]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        nx = [r[0] for r in mat(v, v.next, 6, 1)]
        A = mat(v, v.A, 6, 6)
        x, y, yaw, b, vx, wz = v.x
        h = yaw + b
        pi = z3.RealVal("3.1415926535897936")
        u = yaw + wz * v.dt
        out = [("x moves by speed times the cosine of the heading (yaw plus bias) times the interval", nx[0] == x + vx * COS(h) * v.dt),
               ("y moves by speed times the sine of the heading times the interval", nx[1] == y + vx * SIN(h) * v.dt),
               ("yaw stays within half a turn either way", z3.And(nx[2] >= -pi, nx[2] <= pi)),
               ("yaw turns by yaw rate times the interval", z3.And(SIN(nx[2]) == SIN(u), COS(nx[2]) == COS(u)), [SIN(u) * SIN(u) + COS(u) * COS(u) == 1]),
               ("yaw bias, speed and yaw rate are unchanged", z3.And(nx[3] == b, nx[4] == vx, nx[5] == wz))]
        one = [SIN(t) * SIN(t) + COS(t) * COS(t) == 1 for t in (h, u)]
        for i in range(6):
            for j in range(6):
                try:
                    d = D(nx[i], v.x[j])
                except ValueError as e:
                    out.append(("transition matrix (%s,%s): %s" % (N[i], N[j], e), False))
                    continue
                out.append(("transition matrix (%s,%s) is the partial derivative of the prediction" % (N[i], N[j]), A[i][j] == d, one))
        return out


class Noise(Spec):
    name = "processNoiseCovariance"
    rx = r"^irvc_noise$"

    def setup(self, v):
        q = v.blob("variances", 32)
        v.q = [v.real("q%d" % i) for i in range(4)]
        for i, x in enumerate(v.q):
            v.cell(q, 8 * i, "f64", x)
        v.out = v.blob("Q", 288)
        return [q, v.out]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        Q = mat(v, v.out, 6, 6)
        e = [0, 0] + v.q
        return [("process noise (%s,%s)" % (N[i], N[j]), Q[i][j] == (e[i] if i == j else 0)) for i in range(6) for j in range(6)]


UNITS = [Unit("u_state.cpp", [Predict(), Noise()])]
REPLAY = ["c20.cpp"]
ASSUME = ["finite state; floating-point arithmetic is real arithmetic; pi rounded up to 16 digits bounds the yaw"]
