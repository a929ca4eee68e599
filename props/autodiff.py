"""exact symbolic derivative of a real z3 term (sums, products, quotients, sin, cos, sqrt, atan2)"""
import z3
from fractions import Fraction
ONE, ZERO = z3.RealVal(1), z3.RealVal(0)


def D(e, x, memo=None):
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if e.eq(x):
        r = ONE
    elif z3.is_rational_value(e) or z3.is_algebraic_value(e) or e.num_args() == 0:
        r = ZERO
    else:
        op, ch = e.decl().kind(), e.children()
        d = [D(c, x, memo) for c in ch] if op != z3.Z3_OP_ITE else None
        if op == z3.Z3_OP_ADD:
            r = z3.Sum(d)
        elif op == z3.Z3_OP_SUB:
            r = d[0] - z3.Sum(d[1:])
        elif op == z3.Z3_OP_UMINUS:
            r = -d[0]
        elif op == z3.Z3_OP_MUL:
            r = z3.Sum([z3.Product([d[i]] + [c for j, c in enumerate(ch) if j != i]) for i in range(len(ch)) if not (z3.is_rational_value(d[i]) and d[i].as_fraction() == 0)] or [ZERO])
        elif op == z3.Z3_OP_DIV:
            r = (d[0] * ch[1] - ch[0] * d[1]) / (ch[1] * ch[1])
        elif e.decl().name() == "m.sin":
            r = z3.Function("m.cos", z3.RealSort(), z3.RealSort())(ch[0]) * d[0]
        elif e.decl().name() == "m.cos":
            r = -z3.Function("m.sin", z3.RealSort(), z3.RealSort())(ch[0]) * d[0]
        elif e.decl().name() == "m.sqrt":
            r = d[0] / (2 * e)
        elif e.decl().name() == "m.atan2":
            y, w = ch
            r = (w * d[0] - y * d[1]) / (y * y + w * w)
        else:
            raise ValueError("no derivative of %s" % e.decl().name())
    r = z3.simplify(r)
    memo[k] = (e, r)
    return r
