"""Obligations in pure arithmetic: equations are used up, what is not arithmetic becomes a constant (a stronger claim)."""
import z3
from smt import *

ARITH = (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT)


def relevant(pc, goal, rounds=3):
    """hypotheses connected to the goal through shared symbols"""
    import loops
    S = set(loops.syms_of(goal)) if not isinstance(goal, bool) else set()
    fs = [(f, loops.syms_of(f)) for f in pc]
    use = [False] * len(fs)
    for _ in range(rounds):
        ch = False
        new = set()
        for i, (f, s) in enumerate(fs):
            if not use[i] and (not s or s & S):
                use[i] = True
                new |= s
                ch = True
        S |= new
        if not ch:
            break
    return [f for i, (f, _) in enumerate(fs) if use[i]]


def smt2(pc, goal):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def rebuild(e, f, memo):
    """e with f applied bottom-up"""
    todo = [e]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in memo:
            todo.pop()
            continue
        new = [c for c in x.children() if c.get_id() not in memo] if z3.is_app(x) else []
        if new:
            todo.extend(new)
            continue
        todo.pop()
        memo[k] = (x, f(x, [memo[c.get_id()][1] for c in x.children()] if z3.is_app(x) else []))
    return memo[e.get_id()][1]


def is_nra(e, memo):
    """does it multiply or divide reals that are not constants?"""
    def f(x, cs):
        if any(c for c in cs):
            return True
        if z3.is_app(x) and x.sort() == RealS:
            if x.decl().kind() == z3.Z3_OP_MUL:
                return sum(not z3.is_rational_value(c) for c in x.children()) > 1
            if x.decl().kind() == z3.Z3_OP_DIV:
                return not z3.is_rational_value(x.arg(1))
        return False
    return not has_quant(e) and rebuild(e, f, memo)


def subterm(a, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x.eq(a):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def weight(e, memo={}):
    if e.get_id() not in memo:
        memo[e.get_id()] = (1 + sum(weight(c) for c in e.children()), e)
    return memo[e.get_id()][0]


def equate(pc, goal, quick=None):
    """conditions that hold are dropped from implications; equations rewrite the rest"""
    fs = [p for p in pc if not isinstance(p, bool) and not has_quant(p)]
    g = goal
    lin = None

    def follows(a):
        nonlocal lin
        if any(a.eq(f) for f in fs):
            return True
        if quick is None:
            return False
        return quick.valid([f for f in fs if not is_nra(f, {})], a)
    for _ in range(6):
        ch = False
        while z3.is_implies(g):
            fs.append(g.arg(0))
            g = g.arg(1)
            ch = True
        out, todo = [], list(reversed(fs))
        while todo:
            f = todo.pop()
            if z3.is_and(f):
                todo.extend(reversed(f.children()))
            elif z3.is_implies(f) and follows(f.arg(0)):
                todo.append(f.arg(1))
                ch = True
            elif not z3.is_true(f):
                out.append(f)
        fs = out
        sub = []
        for i, f in enumerate(fs):
            if z3.is_eq(f) and f.arg(0).sort().kind() in ARITH[1:]:
                a, b = f.arg(0), f.arg(1)
                if weight(a) < weight(b) and not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    a, b = b, a
                if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_const(a):
                    a, b = b, a
                if a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and not subterm(a, b):
                    sub.append((a, b, i))
        for a, b, i in sub[:1]:
            fs = [fs[j] if j == i and False else z3.simplify(z3.substitute(fs[j], (a, b))) for j in range(len(fs)) if j != i]
            g = z3.simplify(z3.substitute(g, (a, b)))
            ch = True
        n = 0
        while sub and n < 60:      # one equation at a time
            n += 1
            sub = None
            for i, f in enumerate(fs):
                if z3.is_eq(f) and f.arg(0).sort().kind() in ARITH[1:]:
                    for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                        if a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and not z3.is_rational_value(a) and not subterm(a, b):
                            sub = (a, b, i)
                            break
                if sub:
                    break
            if sub:
                a, b, i = sub
                fs = [z3.simplify(z3.substitute(x, (a, b))) for j, x in enumerate(fs) if j != i]
                g = z3.simplify(z3.substitute(g, (a, b)))
        if not ch:
            break
    return fs, g


def abstract(fs, g):
    def f(e, cs):
        if z3.is_app(e) and e.num_args():
            op = e.decl().kind()
            if op in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_REAL) or any(c.sort_kind() not in ARITH for c in e.children()):
                return z3.FreshConst(e.sort(), "g")
            return e.decl()(*cs)
        return e
    memo = {}
    return [rebuild(x, f, memo) for x in fs], rebuild(g, f, memo)


def ints(e):
    return rebuild(e, lambda x, cs: any(cs) or x.sort() == IntS, {})


def grounds(pc, goal, quick=None):
    """the obligation in arithmetic alone, as texts, first those with the hypotheses nearest to the goal"""
    if has_quant(goal):
        return []
    try:
        fs, g = equate(relevant(pc, goal), goal, quick)
        fs, g = abstract(fs, g)
        if not ints(g):
            fs = [f for f in fs if not ints(f)]
        out = []
        for r in (1, 2, 9):
            t = smt2(relevant(fs, g, r), g)
            if t not in out:
                out.append(t)
        return out
    except z3.Z3Exception:
        return []


def solve(t, ms):
    ctx = z3.Context()
    s = z3.SolverFor("QF_NRA", ctx=ctx) if "Int" not in t else z3.Solver(ctx=ctx)
    s.set("timeout", ms)
    s.from_string(t)
    return s.check() == z3.unsat


def nra(pc, goal, quick, ms=2000):
    """is the real-arithmetic goal valid? (False: not shown)"""
    if isinstance(goal, bool) or not is_nra(goal, {}):
        return False
    import loops
    return any(solve(t, ms * (4 if loops.WIDE else 1)) for t in grounds(pc, goal, quick))      # the second attempt has more time


def cases(goal):
    """a claim for all k about an updated array, k being an updated place or another: [(condition, claim)]; None when it is not of that form"""
    if not (z3.is_quantifier(goal) and goal.is_forall() and goal.num_vars() == 1):
        return None
    k = z3.FreshConst(goal.var_sort(0), "k")
    b = z3.substitute_vars(goal.body(), k)
    if has_quant(b):
        return None
    at = []

    def f(e, cs):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE and e.arg(1).sort() == k.sort() and not any(e.arg(1).eq(x) for x in at) and not subterm(k, e.arg(1)):
            at.append(e.arg(1))
        return None
    rebuild(b, f, {})
    if not at or len(at) > 4:
        return None
    return [([], z3.simplify(z3.substitute(b, (k, i)))) for i in at] + [([k != i for i in at], b)]


def holds_by_cases(pc, goal, quick, rl):
    cs = cases(goal)
    return bool(cs) and any(is_nra(g, {}) for _, g in cs) and all(
        quick.valid(list(pc) + c, g) or (not c and nra(pc, g, quick)) or quick.valid(list(pc) + c, g, True, rl) for c, g in cs)


def by_cases(pc, goal, quick=None):
    """texts for the same, for the solver processes: a list of lists of texts; one of each inner list has to be shown"""
    cs = cases(goal)
    if not cs or not any(is_nra(g, {}) for _, g in cs):
        return None
    return [(grounds(pc, g, quick) if not c else []) + [smt2(list(pc) + c, g)] for c, g in cs]
