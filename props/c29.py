"""C29 frame names and angle normalisation."""
from common import *
import strings

SIN, COS = models.uf("sin"), models.uf("cos")


class Slash(Spec):
    name = "EraseBeginSlash"
    rx = r"^EraseBeginSlash\("
    intrinsics = strings.TABLE

    def setup(self, v):
        v.n = v.int("length", 0, 1 << 40, 64)
        p = v.blob("name", 32)
        s = v.seqobj("chars", 1, {0: "i8"}, v.n)
        s = s.obj if isinstance(s, Ptr) else s
        strings.sset(v.ex, v.st, p, s, v.n)
        v.C = v.ex.arr(v.st, s, 0)
        v.out = v.blob("result", 32, lazy=False)
        return [v.out, p]

    def post(self, v, o):
        if o[0] == "throw":
            return [("every name is accepted, the empty one included", False)]
        s, n = strings.sget(v.ex, v.st, v.out)
        A = v.ex.arr(v.st, s, 0)
        k = z3.Int("k!p")
        slash = z3.And(v.n > 0, v.C[0] == ord("/"))
        d = z3.If(slash, 1, 0)
        return [("exactly one leading slash is removed", Z(n) == v.n - d),
                ("all other characters are kept in order", FA(k, z3.Implies(z3.And(k >= 0, k < v.n - d), A[k] == v.C[k + d])))]


class Normalize(Spec):
    name = "normalizeYaw"
    rx = r"^irvc_normalize$"

    def setup(self, v):
        v.x = v.real("angle")
        return [v.x]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        pi = z3.RealVal("3.1415926535897936")
        r = ZR(v.ret)
        one = [SIN(v.x) * SIN(v.x) + COS(v.x) * COS(v.x) == 1]
        return [("within half a turn either way", z3.And(r >= -pi, r <= pi)), ("same sine and cosine", z3.And(SIN(r) == SIN(v.x), COS(r) == COS(v.x)), one)]


UNITS = [Unit("u_string.cpp", [Slash(), Normalize()])]
REPLAY = ["c29.cpp"]
ASSUME = ["names shorter than 2^40 characters; trigonometric functions over the reals, pi rounded up to 16 digits"]
