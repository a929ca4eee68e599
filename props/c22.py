"""C22 covariances between filter state and messages."""
from common import *
from c20 import mat

AX = {0: 0, 1: 1, 2: 5}          # filter x, y, yaw -> message axis


def amat(v, p):
    return [[ZR(v.ex.read_k(v.st, Ptr(p.obj, 8 * (6 * i + j)), "f64")) for j in range(6)] for i in range(6)]


class _S(Spec):
    insz, outsz, step = 288, 288, False

    def setup(self, v):
        v.i, v.o = v.blob("in", self.insz), v.blob("out", self.outsz)
        v.m = [v.real("m%d" % k) for k in range(36)]
        for k in range(36):
            v.cell(v.i, 8 * k, "f64", v.m[k])
        if not self.step:
            return [v.i, v.o]
        v.s = v.int("steps", 0, (1 << 31) - 1, 64)
        return [v.i, v.s, v.o]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.goals(v)


class _ToMsg(_S):
    def goals(self, v):
        out = amat(v, v.o)
        P = [[v.m[i + 6 * j] for j in range(6)] for i in range(6)]
        inv = {b: a for a, b in self.ax.items()}
        g = [("message entry (%d,%d)" % (i, j), out[i][j] == (P[inv[i]][inv[j]] if i in inv and j in inv else 0)) for i in range(6) for j in range(6)]
        sym = [P[i][j] == P[j][i] for i in range(6) for j in range(i)]
        g += [("symmetric whenever the filter's is (%d,%d)" % (i, j), out[i][j] == out[j][i], sym) for i in range(6) for j in range(i)]
        return g


class PoseCov(_ToMsg):
    name, rx, ax = "EKFCovarianceToPoseMessageCovariance", r"^irvc_pose_cov$", {0: 0, 1: 1, 2: 5}


class TwistCov(_ToMsg):
    name, rx, ax = "EKFCovarianceToTwistMessageCovariance", r"^irvc_twist_cov$", {4: 0, 5: 5}


class PoseMeas(_S):
    name, rx, step, ax, outsz = "PoseMeasurementCovariance", r"^irvc_pose_meas$", True, (0, 1, 5), 72

    def goals(self, v):
        n = len(self.ax)
        R = mat(v, v.o, n, n)
        return [("entry (%d,%d) is the message's entry times the smoothing steps" % (i, j), R[i][j] == v.m[6 * a + b] * z3.ToReal(v.s)) for i, a in enumerate(self.ax) for j, b in enumerate(self.ax)]


class TwistMeas(PoseMeas):
    name, rx, ax, outsz = "TwistMeasurementCovariance", r"^irvc_twist_meas$", (0, 5), 32


class GetCov(_S):
    name, rx = "GetEigenCovariance", r"^irvc_get_cov$"

    def goals(self, v):
        M = mat(v, v.o, 6, 6)
        return [("matrix entry (%d,%d)" % (i, j), M[i][j] == v.m[6 * i + j]) for i in range(6) for j in range(6)]


class FromCov(_S):
    name, rx = "FromEigenCovariance", r"^irvc_from_cov$"

    def goals(self, v):
        M = amat(v, v.o)
        return [("message entry (%d,%d)" % (i, j), M[i][j] == v.m[i + 6 * j]) for i in range(6) for j in range(6)]


class Round(_S):
    name, rx = "message to matrix and back", r"^irvc_round$"

    def goals(self, v):
        M = amat(v, v.o)
        return [("entry (%d,%d) is unchanged" % (i, j), M[i][j] == v.m[6 * i + j]) for i in range(6) for j in range(6)]


UNITS = [Unit("u_cov.cpp", [PoseCov(), TwistCov(), PoseMeas(), TwistMeas(), GetCov(), FromCov(), Round()])]
REPLAY = ["c22.cpp"]
ASSUME = ["finite entries; floating-point arithmetic is real arithmetic; smoothing steps up to 2^31"]
