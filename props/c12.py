import rot as rot_mod, z3
from rot import *
from rot import _S


class MakeM(_S):
    name, rx = "MakeM", r"^irvc_makem$"

    def setup(self, v):
        a, v.q = self.vin(v, "q", 4)
        v.out = v.blob("out", 336)
        return [a, v.out]

    def goals(self, v):
        M = mat(v, v.out, 7, 6)
        th = [v.real("theta%d" % i) for i in range(3)]
        # first-order quaternion of the rotation vector theta is (1, theta / 2)
        r = qmul(v.q, [z3.RealVal(1)] + [x / 2 for x in th])
        g = [("d(q%s)/d(theta%d) of q times (1, theta/2)" % ("wxyz"[i], j), M[i][j] == D(r[i], th[j])) for i in range(4) for j in range(3)]
        return g + [("translation block (%d,%d)" % (i, j), M[i][j] == int(i == j + 1)) for i in range(7) for j in range(6) if i >= 4 or j >= 3]


UNITS = [Unit("u_rot.cpp", rot_mod.S12), Unit("u_opt.cpp", [MakeM()], defs=["PCL"])]
REPLAY = ["c12.cpp"]
ASSUME = rot_mod.ASSUME
