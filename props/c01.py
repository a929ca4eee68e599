"""C01 sectors tile the usable interval."""
from common import *


class Sector(Spec):
    name = "IndexRange client"
    rx = r"^irvc_sector$"
    solver_tmo = 60

    def setup(self, v):
        v.s, v.e, v.n, v.j = v.int("start"), v.int("end"), v.int("n_blocks"), v.int("j")
        L = v.e - v.s
        v.assume(z3.And(L >= -(1 << 31), L < (1 << 31)))
        v.out = v.blob("out", 24)
        return [v.s, v.e, v.n, v.j, v.out]

    def fits(self, v):
        return v.e - v.s >= v.n

    def post(self, v, o):
        ok = z3.And(self.fits(v), v.j >= 0, v.j < v.n)
        if o[0] == "throw":
            return [("an interval that holds all sectors and a sector index inside the number of sectors are accepted", z3.Not(ok)),
                    ("an interval with fewer points than sectors is rejected with invalid_argument, a bad sector index with out_of_range",
                     z3.If(self.fits(v), z3.BoolVal(o[1] == "std::out_of_range"), z3.BoolVal(o[1] == "std::invalid_argument")))]
        r = [Z(v.ex.read_k(v.st, Ptr(v.out.obj, 4 * i), "i32")) for i in range(6)]
        b, e, nb, b0, el, nxt = r
        L, n = v.e - v.s, v.n
        return [("too short an interval or a bad sector index is rejected", ok),
                ("number of sectors", nb == n),
                ("the first sector starts at the start", b0 == v.s),
                ("the last sector ends at the end", el == v.e),
                ("each sector starts where the previous one ends, the last ends at the end", e == nxt),
                ("no sector is empty", e - b >= 1),
                ("sector sizes differ by at most one (each is the quotient of length and number of sectors, rounded down or up)",
                 z3.And((e - b) * n < L + n, (e - b) * n > L - n)),
                ]


class Padded(Sector):
    name = "PaddedIndexRange client"
    rx = r"^irvc_sector_padded$"

    def setup(self, v):
        v.size, v.n, v.pad, v.j = v.int("size", 0), v.int("n_blocks"), v.int("padding", 0), v.int("j")
        v.s, v.e = v.pad, v.size - v.pad
        L = v.e - v.s
        v.assume(z3.And(L >= -(1 << 31), L < (1 << 31)))
        v.out = v.blob("out", 24)
        return [v.size, v.n, v.pad, v.j, v.out]


UNITS = [Unit("u_range.cpp", [Sector(), Padded()])]
REPLAY = ["c01.cpp"]
ASSUME = ["start, end and end - start fit in int; size and padding are not negative"]
