"""Trusted models of std::deque (so std::queue) and std::sort and relatives."""
import re, z3
from smt import *
from ex import Obj, Dead, ksort
import models
from models import targs, layout, put_elem


def multi(*ts):
    """z3.MultiPattern frees its arguments too early when nothing else refers to them"""
    keep = list(ts)
    r = z3.MultiPattern(*keep)
    return r


def strip_head(dm, head):
    i = dm.index(head + "<") + len(head) + 1
    d = 1
    while d:
        c = dm[i]
        if c == "<":
            d += 1
        elif c == ">" and dm[i - 1] != "-":
            d -= 1
        i += 1
    return dm[i:]


# a deque is (pointer to its front inside an unbounded element map, length); bytes 0..15 of the object hold them
def dget(ex, st, p):
    b = ex.read_k(st, p, "ptr")
    if isinstance(b, Undef) or b.obj is None:
        raise Unsupported("use of an unconstructed deque")
    n = ex.read_k(st, Ptr(p.obj, iadd(p.off, 8)), "i64")
    return b, n


def dset(ex, st, p, b, n):
    ex.write_k(st, p, b, "ptr")
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 8)), n, "i64")
    st.wr(b.obj).n = iadd(ex.split(b.obj, b.off)[0], n)


def dfresh(ex, st, p, lay):
    s = ex.new_seq(st, "deque", lay[0], dict(lay[1]), 0)
    dset(ex, st, p, Ptr(s, 0), 0)


def delem(ex, b, n):
    return Ptr(b.obj, iadd(b.off, imul(n, b.obj.stride)))


def m_deque(ex, st, I, a):
    dm = ex.cur_dm
    lay = layout(ex, targs(dm, "std::deque"))
    rest = strip_head(dm, "std::deque")
    m = re.match(r"::(~?deque|push_back|emplace_back|pop_front|front|back|size|empty|clear|operator=|operator\[\]|at|swap|_M_\w+)(.*)$", rest)
    if not m:
        raise Unsupported("deque operation " + rest)
    meth, sig = m.group(1), m.group(2)
    p = a[0]
    if meth == "~deque":
        return None
    if meth == "deque":
        if re.match(r"\(\)|\(std::allocator[^,]*const&\)$", sig):
            dfresh(ex, st, p, lay)
            return None
        if "&&" in sig or "const&" in sig:
            b, n = dget(ex, st, a[1])
            if "&&" in sig:
                dset(ex, st, p, b, n)
                dfresh(ex, st, a[1], lay)
                return None
            s = ex.new_seq(st, "deque", lay[0], dict(lay[1]), n)
            i0, _ = ex.split(b.obj, b.off)
            ex.seq_copy(st, s, 0, b.obj, i0, n)
            dset(ex, st, p, Ptr(s, 0), n)
            return None
        raise Unsupported("deque constructor " + sig)
    if meth == "operator=":
        b, n = dget(ex, st, a[1])
        if "&&" in sig:
            dset(ex, st, p, b, n)
            dfresh(ex, st, a[1], lay)
            return p
        s = ex.new_seq(st, "deque", lay[0], dict(lay[1]), n)
        i0, _ = ex.split(b.obj, b.off)
        ex.seq_copy(st, s, 0, b.obj, i0, n)
        dset(ex, st, p, Ptr(s, 0), n)
        return p
    b, n = dget(ex, st, p)
    if meth in ("push_back", "emplace_back"):
        if meth == "emplace_back" and len(a) != 2:
            raise Unsupported("deque::emplace_back with constructor arguments")
        src = a[1]
        e = delem(ex, b, n)
        st.wr(b.obj).n = iadd(ex.split(b.obj, b.off)[0], iadd(n, 1))
        put_elem(ex, st, b.obj, ex.split(e.obj, e.off)[0], src)
        dset(ex, st, p, b, iadd(n, 1))
        return e
    if meth == "pop_front":
        ex.oblige(st, "pop_front on a non-empty queue", cmp_i("gt", n, 0), I.loc)
        dset(ex, st, p, delem(ex, b, 1), isub(n, 1))
        return None
    if meth == "front":
        ex.oblige(st, "front of a non-empty queue", cmp_i("gt", n, 0), I.loc)
        return b
    if meth == "back":
        ex.oblige(st, "back of a non-empty queue", cmp_i("gt", n, 0), I.loc)
        return delem(ex, b, isub(n, 1))
    if meth == "size":
        return n
    if meth == "empty":
        return cmp_i("eq", n, 0)
    if meth == "clear":
        dset(ex, st, p, b, 0)
        return None
    if meth in ("operator[]", "at"):
        ex.oblige(st, "deque index inside", band(cmp_i("ge", a[1], 0), cmp_i("lt", a[1], n)), I.loc)
        return delem(ex, b, a[1])
    raise Unsupported("deque::" + meth + sig)


m_deque.model = "std::deque / std::queue (front position, length and element map; allocation never fails)"


# ------------------------------------------------------------------------------------------------ selection and sorting
MSS = {}


def ms(sort):
    """MS(a, lo, hi): the multiset of the elements of a in [lo, hi); ORD(m, k): its k-th element in ascending order"""
    k = str(sort)
    if k not in MSS:
        M = z3.DeclareSort("Multiset_" + k)
        MSS[k] = (z3.Function("m.MS_" + k, z3.ArraySort(IntS, sort), IntS, IntS, M), z3.Function("m.ORD_" + k, M, IntS, sort))
    return MSS[k]


def ms_ext(pc_atoms, b, lo, hi):
    """equal elements give equal multisets: one instance of extensionality per multiset in use"""
    k = z3.Int("k!ms")
    MS, _ = ms(b.sort().range())
    out = []
    for t in pc_atoms:
        a = t.arg(0)
        if a.eq(b) or a.sort() != b.sort():
            continue
        out.append(z3.Implies(z3.And(t.arg(1) == lo, t.arg(2) == hi, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), a[k] == b[k]))), t == MS(b, lo, hi)))
    return out


def seq_range(ex, st, I, f, l, what):
    if not (isinstance(f, Ptr) and isinstance(l, Ptr)) or f.obj is None or f.obj is not l.obj or f.obj.kind != "seq":
        raise Unsupported(what + " over something else than a sequence")
    if len(f.obj.fields) != 1 or 0 not in f.obj.fields:
        raise Unsupported(what + " of structures")
    lo, r0 = ex.split(f.obj, f.off)
    hi, r1 = ex.split(l.obj, l.off)
    ex.oblige(st, what + " range inside the sequence", band(cmp_i("ge", lo, 0), cmp_i("le", lo, hi), cmp_i("le", hi, st.os(f.obj).n)), I.loc, "bounds")
    return f.obj, Z(lo), Z(hi)


def shuffle(ex, st, o, lo, hi, name, perm=False):
    """o's elements in [lo,hi) become a permutation of themselves; returns (old, new, multiset)"""
    a = ex.arr(st, o, 0)
    b = z3.Array(ex.fresh(name), IntS, a.sort().range())
    MS, ORD = ms(a.sort().range())
    m = MS(a, lo, hi)
    pi, pinv = z3.Function(ex.fresh("perm"), IntS, IntS), z3.Function(ex.fresh("perminv"), IntS, IntS)
    k = z3.Int("k!pm")
    R = z3.And(k >= lo, k < hi)
    st.assume(MS(b, lo, hi) == m,
              z3.ForAll([k], z3.Implies(z3.Not(R), b[k] == a[k]), patterns=[b[k]]),
              z3.ForAll([k], z3.Implies(R, z3.And(pi(k) >= lo, pi(k) < hi, b[k] == a[pi(k)], pinv(pi(k)) == k)), patterns=[b[k]]),
              z3.ForAll([k], z3.Implies(R, z3.And(pinv(k) >= lo, pinv(k) < hi, b[pinv(k)] == a[k], pi(pinv(k)) == k)), patterns=[a[k]]))
    st.wr(o).arrays[0] = b
    ex.perms = getattr(ex, "perms", []) + [(a, lo, pinv)]
    return (a, b, m, pi, pinv) if perm else (a, b, m)


def m_nth(ex, st, I, a):
    if len(a) != 3:
        raise Unsupported("nth_element with a comparator")
    o, lo, hi = seq_range(ex, st, I, a[0], a[2], "nth_element")
    nth = Z(ex.split(a[1].obj, a[1].off)[0])
    ex.oblige(st, "nth_element position inside the range", z3.And(nth >= lo, nth <= hi), I.loc, "bounds")
    old, new, m = shuffle(ex, st, o, lo, hi, "nth")
    MS, ORD = ms(old.sort().range())
    k = z3.Int("k!nth")
    j = ex.fint("nth.from", st=st)
    st.assume(z3.Implies(nth < hi, z3.And(new[nth] == ORD(m, nth - lo), j >= lo, j < hi, new[nth] == old[j])),
              z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < nth, nth < hi), new[k] <= new[nth]), patterns=[new[k]]),
              z3.ForAll([k], z3.Implies(z3.And(k > nth, k < hi), new[k] >= new[nth]), patterns=[new[k]]))
    return None


m_nth.model = "std::nth_element permutes the range and puts the element of that rank in place"


def m_sort(ex, st, I, a):
    if len(a) != 2:
        return sort_with(ex, st, I, a)
    o, lo, hi = seq_range(ex, st, I, a[0], a[1], "sort")
    old, new, m = shuffle(ex, st, o, lo, hi, "sorted")
    MS, ORD = ms(old.sort().range())
    k, l = z3.Ints("k!so l!so")
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), new[k] == ORD(m, k - lo)), patterns=[new[k]]),
              z3.ForAll([k, l], z3.Implies(z3.And(k >= lo, k <= l, l < hi), new[k] <= new[l]), patterns=[multi(new[k], new[l])]))
    return None


m_sort.model = "std::sort permutes the range into an order in which no later element compares before an earlier one, provided the comparison is a strict weak order"


def relation(ex, st, I, obj, old, lo, hi, k, byval):
    """the comparator as a formula over two elements old[i], old[j] of the range; returns R(i, j)"""
    import llvmc
    ty = llvmc.comparator_type(ex.cur_dm)
    fn = [n for n, F in ex.mod.functions.items() if F.has_body and (ty + "::operator()(") in F.demangled and not F.demangled.startswith("void std::")]
    if len(fn) != 1:
        raise Unsupported("comparator of sort: %s (%d candidates)" % (ty, len(fn)))
    F = ex.mod.fn(fn[0])
    i, j = ex.fint("cmp.i", st=st), ex.fint("cmp.j", st=st)
    s0 = st.fork()
    base = len(s0.pc)
    s0.assume(z3.And(i >= lo, i < hi, j >= lo, j < hi))
    args = []
    if byval:
        cmp_ = obj[0]
    else:
        b = ex.new_blob("comparator", 8 * len(obj))
        s0.wr(b)
        for n, x in enumerate(obj):
            if not isinstance(x, Undef):
                ex.write_k(s0, Ptr(b, 8 * n), x, "ptr" if isinstance(x, Ptr) else "i64")
        cmp_ = Ptr(b, 0)
    for e in (i, j):
        b = ex.new_blob("element", 8)
        s0.wr(b)
        ex.write_k(s0, Ptr(b, 0), z3.Select(old, e), k)
        args.append(Ptr(b, 0) if "&" in F.demangled.rsplit("(", 1)[1] else z3.Select(old, e))
    outs = ex.run_fn(F, [cmp_] + args, s0, 1)
    cases = []
    for s, o in outs:
        if o[0] != "ret":
            try:
                ex.oblige(s, "the comparison does not throw", False, I.loc)
            except Dead:
                pass
            continue
        r = o[1]
        if isinstance(r, bool):
            r = z3.BoolVal(r)
        elif isinstance(r, int):
            r = z3.BoolVal(r != 0)
        elif r.sort() == IntS:
            r = r != 0
        cases.append(z3.And(*(s.pc[base + 1:] + [r])))
    body = z3.simplify(z3.Or(*cases)) if cases else z3.BoolVal(False)
    return lambda a, b: z3.substitute(body, (i, Z(a)), (j, Z(b)))


def sort_with(ex, st, I, a):
    o, lo, hi = seq_range(ex, st, I, a[0], a[1], "sort")
    k0 = o.fields[0]
    old = ex.arr(st, o, 0)
    callee = [ex.mod.fn(n) for n, F in ex.mod.functions.items() if F.demangled == ex.cur_dm and F.has_body]
    byval = bool(callee) and len(callee[0].args) == 3 and callee[0].args[2][3] is not None
    R = relation(ex, st, I, a[2:], old, lo, hi, k0, byval)
    x, y, w = (ex.fint("swo.%s" % n, st=st) for n in "xyz")
    s1 = st.fork()
    s1.assume(*[z3.And(t >= lo, t < hi) for t in (x, y, w)])
    for f in list(s1.pc):
        # what is known of every element of the range, at the three elements
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == IntS:
            s1.assume(*[z3.substitute_vars(f.body(), t) for t in (x, y, w)])
    H = getattr(ex, "order_hint", None)
    if H is not None:
        # the contract states the order: use its statement of it when it is the same relation
        same = R(x, y) == H(st, old[x], old[y])
        s2 = z3.Solver()
        s2.set("timeout", 5000)
        s2.add(*([f for f in s1.pc if not z3.is_quantifier(f)] + [z3.Not(same)]))
        if s2.check() == z3.unsat:
            ex.oblige(s1, "the comparison given to sort is the order of the contract", same, I.loc, "pre")
            R = lambda a, b: H(st, old[Z(a)], old[Z(b)])
    inc = lambda p, q: z3.And(z3.Not(R(p, q)), z3.Not(R(q, p)))
    for nm, g in (("irreflexive", z3.Not(R(x, x))), ("asymmetric", z3.Not(z3.And(R(x, y), R(y, x)))), ("transitive", z3.Implies(z3.And(R(x, y), R(y, w)), R(x, w))),
                  ("incomparability is transitive", z3.Implies(z3.And(inc(x, y), inc(y, w)), inc(x, w)))):
        ex.oblige(s1, "the comparison given to sort is " + nm, g, I.loc, "pre")
    a0, b0, m, pi, pinv = shuffle(ex, st, o, lo, hi, "sorted", perm=True)
    p, q = z3.Ints("p!so q!so")
    # an element of the result is an element of the range: write the order over their old positions
    st.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= lo, p < q, q < hi), z3.Not(R(pi(q), pi(p)))), patterns=[multi(b0[p], b0[q])]))
    ex.sorts = getattr(ex, "sorts", []) + [dict(old=a0, new=b0, lo=lo, hi=hi, pi=pi, pinv=pinv, R=R)]
    return None
