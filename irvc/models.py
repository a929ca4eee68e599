"""Trusted models of dependencies (libstdc++ containers and algorithms, libm, the C++ runtime).

Each model is an assumption of the proofs and is listed in the evidence as such."""
import math, re, z3
from fractions import Fraction
from smt import *
from ex import Obj, OS, Dead, KSIZE, kind_of, ksort
import llvmc

SCALARS = {
    "double": ("f64", 8), "float": ("f32", 4), "int": ("i32", 4), "unsigned int": ("i32", 4), "long": ("i64", 8),
    "unsigned long": ("i64", 8), "unsigned char": ("i8", 1), "char": ("i8", 1), "signed char": ("i8", 1), "unsigned short": ("i16", 2),
    "short": ("i16", 2), "long long": ("i64", 8), "unsigned long long": ("i64", 8),
}
NOINLINE = (r"^std::vector<.*>::(vector|~vector|push_back|emplace_back|resize|reserve|insert|assign|clear|erase|pop_back|operator=|shrink_to_fit|_M_\w+)\b|^[^(]*& std::vector<.*>::emplace_back<"
            r"|std::_Rb_tree<.*>::_M_(emplace|insert)\w*<|basic_string|^fmt::|RangeMessage|^std::(sort|stable_sort|nth_element|iota|partial_sort)<|^std::(__cxx11::)?(deque|map|unordered_map|list|set)<"
            r"|^std::(logic_error|runtime_error|invalid_argument|out_of_range|domain_error|range_error|length_error)::|^std::(sqrt|cos|sin|acos|atan2|tan|pow|exp|log|abs|fabs)\(|std::operator<<|std::function<|std::random|std::mersenne|std::uniform_|std::normal_|^void std::(sort|stable_sort|nth_element|iota)<|^auto std::|::_Node_(const_)?iterator<.*>::operator|^std::_Rb_tree_(const_)?iterator<.*>::operator|std::__throw|std::to_string|std::cerr|std::ostream|std::basic_ostream|^std::_Sp_counted_base<.*>::_M_(add_ref_copy|release|weak_release|weak_add_ref)")


# ------------------------------------------------------------------------------------------------ layouts
def flatten(T, base, out):
    if T.kind == "struct":
        for o, e in zip(T.offs, T.elems):
            flatten(e, base + o, out)
    elif T.kind == "array":
        for i in range(T.n):
            flatten(T.elems[0], base + i * T.elems[0].size, out)
    elif T.kind == "vector":
        for i in range(T.n):
            flatten(T.elems[0], base + i * T.elems[0].size, out)
    else:
        out[base] = kind_of(T)


def layout(ex, tname):
    t = tname.strip()
    if t in ex.layouts:
        return ex.layouts[t]
    if t in SCALARS:
        k, s = SCALARS[t]
        return s, {0: k}
    for pre in ("struct.", "class."):
        T = ex.mod.named_struct(pre + t)
        if T is not None:
            out = {}
            flatten(T, 0, out)
            r = (T.size, out)
            ex.layouts[t] = r
            return r
    m = re.match(r"std::pair<([^<>,]+), ([^<>,]+)>$", t)
    if m and m.group(1) in SCALARS and m.group(2) in SCALARS:
        (k1, s1), (k2, s2) = SCALARS[m.group(1)], SCALARS[m.group(2)]
        o2 = (s1 + s2 - 1) // s2 * s2
        al = max(s1, s2)
        r = ((o2 + s2 + al - 1) // al * al, {0: k1, o2: k2})
        ex.layouts[t] = r
        return r
    if t.startswith("std::shared_ptr<"):
        return 16, {0: "ptr", 8: "ptr"}
    raise Unsupported("no layout for element type " + t)


def targs(dm, head):
    """first template argument after `head<`"""
    i = dm.index(head + "<") + len(head) + 1
    d, j = 0, i
    while True:
        c = dm[j]
        if c in "<([":
            d += 1
        elif c in ">)]":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            break
        j += 1
    return dm[i:j].strip()


# ------------------------------------------------------------------------------------------------ std::vector
def vget(ex, st, p):
    b = ex.read_k(st, p, "ptr")
    if isinstance(b, Undef):
        raise Unsupported("use of an unconstructed vector")
    if b.obj is None:
        return None, 0
    e = ex.read_k(st, Ptr(p.obj, iadd(p.off, 8)), "ptr")
    if e.obj is not b.obj:
        raise Unsupported("inconsistent vector")
    n = lin_div(isub(e.off, b.off), b.obj.stride)
    if n is None:
        raise Unsupported("vector length")
    return b.obj, n


def vset(ex, st, p, seq, n):
    ex.write_k(st, p, Ptr(seq, 0), "ptr")
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 8)), Ptr(seq, imul(n, seq.stride)), "ptr")
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 16)), Ptr(seq, imul(n, seq.stride)), "ptr")
    st.wr(seq).n = n


def vfresh(ex, st, p, lay, n, zero=False, name="vec"):
    s = ex.new_seq(st, name, lay[0], dict(lay[1]), n, zero=zero)
    vset(ex, st, p, s, n)
    return s


def vlay(ex, dm):
    return layout(ex, targs(dm, "std::vector"))


def put_elem(ex, st, seq, i, src, loc=None):
    for f, k in seq.fields.items():
        v = ex.read_k(st, Ptr(src.obj, iadd(src.off, f)), k, loc)
        if isinstance(v, Undef):
            v = ex.fresh_kind(k, "undef", st)
        ex.write_k(st, Ptr(seq, iadd(imul(i, seq.stride), f)), v, k, loc)


def len_split(ex, st, n):
    """(ok states, throwing outcomes) for a requested length"""
    if isinstance(n, int):
        return (st, []) if n >= 0 else (None, [(st, ("throw", "std::length_error", Ptr(Obj("exception", "opaque"), 0)))])
    if ex.nonneg(st, n):
        return st, []
    s2 = st.fork()
    s2.assume(n < 0)
    st.assume(n >= 0)
    return st, [(s2, ("throw", "std::length_error", Ptr(Obj("exception", "opaque"), 0)))]


def m_vector(ex, st, I, a):
    dm = ex.cur_dm
    lay = vlay(ex, dm)
    m = re.search(r">::(~?vector|push_back|emplace_back|resize|reserve|insert|assign|clear|erase|pop_back|operator=|shrink_to_fit|_M_\w+)(.*)$", strip_first(dm))
    meth, sig = m.group(1), m.group(2)
    p = a[0]
    if meth == "~vector":
        return None
    if meth == "vector":
        sig2 = sig
        if re.match(r"\(\)|\((std::allocator|Eigen::aligned)[^,]*const&\)$", sig2):
            vfresh(ex, st, p, lay, 0)
            return None
        if sig2.startswith("(std::initializer_list"):
            src, n = a[1], a[2]
            if not isinstance(n, int):
                raise Unsupported("initializer_list length")
            s = vfresh(ex, st, p, lay, n)
            for i in range(n):
                put_elem(ex, st, s, i, Ptr(src.obj, iadd(src.off, i * lay[0])))
            return None
        if re.match(r"\(unsigned long, [^)]*allocator", sig2) and "const&, " not in sig2:
            st, outs = len_split(ex, st, a[1])
            if st is not None:
                vfresh(ex, st, p, lay, a[1], zero=True)
                outs = outs + [(st, ("ret", None))]
            return outs
        if sig2.startswith("(unsigned long, "):
            st, outs = len_split(ex, st, a[1])
            if st is not None:
                s = vfresh(ex, st, p, lay, a[1])
                for f, k in lay[1].items():
                    v = ex.read_k(st, Ptr(a[2].obj, iadd(a[2].off, f)), k)
                    st.wr(s).arrays[f] = z3.K(IntS, ZR(v) if ksort(k) == RealS else Z(v))
                outs = outs + [(st, ("ret", None))]
            return outs
        if sig2.startswith("<") or "normal_iterator" in sig2:
            fst, lst = a[1], a[2]
            if not (isinstance(fst, Ptr) and isinstance(lst, Ptr)):
                raise Unsupported("vector range constructor")
            if fst.obj is None:
                vfresh(ex, st, p, lay, 0)
                return None
            n = lin_div(isub(lst.off, fst.off), lay[0])
            if fst.obj.kind == "blob":
                if not isinstance(n, int):
                    raise Unsupported("vector range from blob")
                s = vfresh(ex, st, p, lay, n)
                for i in range(n):
                    put_elem(ex, st, s, i, Ptr(fst.obj, iadd(fst.off, i * lay[0])))
                return None
            st, outs = len_split(ex, st, n)
            if st is not None:
                s = vfresh(ex, st, p, lay, n)
                i0, _ = ex.split(fst.obj, fst.off)
                ex.seq_copy(st, s, 0, fst.obj, i0, n)
                outs = outs + [(st, ("ret", None))]
            return outs
        if "&&" in sig2:
            seq, n = vget(ex, st, a[1])
            if seq is None:
                vfresh(ex, st, p, lay, 0)
                return None
            vset(ex, st, p, seq, n)
            vfresh(ex, st, a[1], lay, 0)
            return None
        if "const&" in sig2:
            seq, n = vget(ex, st, a[1])
            s = vfresh(ex, st, p, lay, n)
            if seq is not None:
                for f in seq.fields:
                    st.wr(s).arrays[f] = ex.arr(st, seq, f)
            return None
        raise Unsupported("vector constructor " + sig2)
    if meth == "operator=":
        if "initializer_list" in sig:
            raise Unsupported("vector = initializer_list")
        seq, n = vget(ex, st, a[1])
        d, _ = vget(ex, st, p)
        if d is None:
            d = vfresh(ex, st, p, lay, 0)
        if seq is not None and seq is not d:
            for f in seq.fields:
                st.wr(d).arrays[f] = ex.arr(st, seq, f)
        vset(ex, st, p, d, n)
        if "&&" in sig and seq is not d:
            vfresh(ex, st, a[1], lay, 0)
        return p
    seq, n = vget(ex, st, p)
    if seq is None:
        seq = vfresh(ex, st, p, lay, 0)
    if meth in ("push_back", "emplace_back"):
        st.wr(seq).n = iadd(n, 1)
        if meth == "emplace_back" and len(a) != 2:
            # the function's own body, on a vector with room for the element
            ex.write_k(st, p, Ptr(seq, 0), "ptr")
            ex.write_k(st, Ptr(p.obj, iadd(p.off, 16)), Ptr(seq, imul(iadd(n, 1), seq.stride)), "ptr")
            G = ex.mod.functions.get(ex.cur_name)
            if G is None or not G.has_body:
                raise Unsupported("emplace_back with constructor arguments")
            outs = ex.run_fn(ex.mod.fn(ex.cur_name), a, st)
            for s, r in outs:
                if r[0] == "ret":
                    vset(ex, s, p, seq, iadd(n, 1))
            return outs
        if meth == "emplace_back":
            m2 = re.match(r"<(.*?)[ &]*>\(", sig)
            at = (m2.group(1) if m2 else "").replace(" const", "")
            if at and at != targs(dm, "std::vector") and (at in SCALARS):
                k0 = SCALARS[at][0]
                v = ex.read_k(st, a[1], k0)
                k1 = lay[1].get(0)
                if k0 != k1 and len(lay[1]) == 1:
                    if k0[0] == "f" and k1[0] == "f":
                        pass
                    elif k0[0] == "i" and k1[0] == "f":
                        v = Fraction(v) if isinstance(v, int) else z3.ToReal(v)
                    else:
                        raise Unsupported("emplace_back conversion")
                ex.write_k(st, Ptr(seq, imul(n, seq.stride)), v, k1)
            else:
                put_elem(ex, st, seq, n, a[1])
        else:
            put_elem(ex, st, seq, n, a[1])
        vset(ex, st, p, seq, iadd(n, 1))
        return Ptr(seq, imul(n, seq.stride))
    if meth == "reserve":
        st2, outs = len_split(ex, st, a[1])
        return outs + ([(st2, ("ret", None))] if st2 is not None else [])
    if meth == "shrink_to_fit":
        return None
    if meth == "_M_range_check":
        i = a[1]
        bad = bor(cmp_i("lt", i, 0), cmp_i("ge", i, n))
        outs = []
        for t, s in ex.branch(st, bad):
            outs.append((s, ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))) if t else (s, ("ret", None)))
        return outs
    if meth == "clear":
        vset(ex, st, p, seq, 0)
        return None
    if meth == "_M_erase_at_end":
        pos = a[1]
        if pos.obj is not seq:
            raise Unsupported("vector::_M_erase_at_end")
        m2 = lin_div(pos.off, seq.stride) if not isinstance(pos.off, int) else pos.off // seq.stride
        ex.oblige(st, "erase position inside the vector", band(cmp_i("ge", m2, 0), cmp_i("le", m2, n)), I.loc)
        vset(ex, st, p, seq, m2)
        return None
    if meth == "pop_back":
        ex.oblige(st, "pop_back on a non-empty vector", cmp_i("gt", n, 0), I.loc)
        vset(ex, st, p, seq, isub(n, 1))
        return None
    if meth == "resize":
        st, outs = len_split(ex, st, a[1])
        if st is None:
            return outs
        m2 = a[1]
        for f, k in seq.fields.items():
            if len(a) > 2:
                v = ex.read_k(st, Ptr(a[2].obj, iadd(a[2].off, f)), k)
                v = ZR(v) if ksort(k) == RealS else Z(v)
            else:
                v = z3.RealVal(0) if ksort(k) == RealS else z3.IntVal(0)
            if isinstance(n, int) and n == 0:
                st.wr(seq).arrays[f] = z3.K(IntS, v)
            else:
                ex.fill(st, seq, f, n, isub(m2, n), v)
        vset(ex, st, p, seq, m2)
        return outs + [(st, ("ret", None))]
    if meth == "insert" and len(a) >= 4 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and isinstance(a[3], Ptr):
        pos, fst, lst = a[1], a[2], a[3]
        if not ex.quick.valid(st.pc, cmp_i("eq", pos.off, imul(n, seq.stride))):
            raise Unsupported("vector::insert not at the end")
        if fst.obj is None or fst.obj.kind != "seq":
            raise Unsupported("vector::insert from non-sequence")
        m2 = lin_div(isub(lst.off, fst.off), seq.stride)
        i0, _ = ex.split(fst.obj, fst.off)
        ex.oblige(st, "insert range ordered", cmp_i("ge", m2, 0), I.loc)
        st.wr(seq).n = iadd(n, m2)
        ex.seq_copy(st, seq, n, fst.obj, i0, m2)
        vset(ex, st, p, seq, iadd(n, m2))
        return Ptr(seq, imul(n, seq.stride))
    raise Unsupported("vector::" + meth + sig)


def strip_first(dm):
    """text after the outermost std::vector<...>"""
    i = dm.index("std::vector<") + len("std::vector<")
    d = 1
    while d:
        c = dm[i]
        if c == "<":
            d += 1
        elif c == ">" and dm[i - 1] != "-":
            d -= 1
        i += 1
    return ">" + dm[i:]


m_vector.model = "std::vector (length + element map; allocation never fails)"


# ------------------------------------------------------------------------------------------------ runtime
def m_new(ex, st, I, a):
    n = a[0]
    if not isinstance(n, int):
        c, d = linearize(n)
        g = c
        for _, m in d.values():
            g = math.gcd(g, m)
        if g not in (1, 2, 4, 8, 16, 24, 32, 48):
            raise Unsupported("operator new of symbolic size")
        cnt = delin(c // g, {i: (e, m // g) for i, (e, m) in d.items()})
        ex.oblige(st, "allocation size is not negative", cmp_i("ge", cnt, 0), I.loc, "bounds")
        p = ex.new_seq(st, "heap", g, {}, cnt)
        o = p.obj if isinstance(p, Ptr) else p
        o.untyped = True
        return Ptr(o, 0)
    o = ex.new_blob("heap", n)
    st.wr(o)
    return Ptr(o, 0)


m_new.model = "operator new and malloc never fail"


def m_nop(ex, st, I, a):
    return None


m_count = lambda ex, st, I, a: None
m_count.model = "std::shared_ptr: reference counts are not tracked; the object outlives every use and destroying it has no other effect"
m_nop.model = "no effect on modelled state (deallocation, lifetime markers, destructors of opaque objects)"


def m_memcpy(ex, st, I, a):
    for p in a[:2]:
        if isinstance(p, Ptr) and p.obj is not None:
            ex.ensure_global(st, p.obj)
    ex.copy_bytes(st, a[0], a[1], a[2], I.loc)
    return a[0]


m_memcpy.model = "memcpy/memmove"


def m_memset(ex, st, I, a):
    ex.memset(st, a[0], a[1], a[2], I.loc)
    return a[0]


m_memset.model = "memset"


def m_assert(ex, st, I, a):
    ex.oblige(st, "assertion holds", False, I.loc, "assert")


m_assert.model = "assert() failure is an obligation"


def thrower(tn):
    def h(ex, st, I, a):
        return ex.throw(st, tn)
    h.model = "throws " + tn
    return h


def m_cxa_alloc(ex, st, I, a):
    o = ex.new_blob("exc", a[0] if isinstance(a[0], int) else 64)
    st.wr(o)
    return Ptr(o, 0)


m_cxa_alloc.model = "C++ exception runtime"


def m_cxa_throw(ex, st, I, a):
    return [(st, ("throw", ex.ti_name(a[1]), a[0]))]


m_cxa_throw.model = "C++ exception runtime"


def m_begin_catch(ex, st, I, a):
    return a[0]


m_begin_catch.model = "C++ exception runtime"


def m_rethrow(ex, st, I, a):
    t, p = st.exc
    return [(st, ("throw", t, p))]


m_rethrow.model = "C++ exception runtime"


def m_typeid(ex, st, I, a):
    g = a[0]
    return ex.typeid("catch-all" if g.obj is None else ex.ti_name(g))


m_typeid.model = "C++ exception runtime"


def m_terminate(ex, st, I, a):
    ex.oblige(st, "std::terminate not reached", False, I.loc)


m_terminate.model = "std::terminate is an obligation"


# ------------------------------------------------------------------------------------------------ libm (reals)
def map_agg(f, *vs):
    if isinstance(vs[0], Agg):
        return Agg([f(*x) for x in zip(*[v.v for v in vs])])
    return f(*vs)


def rv(ex, x):
    return ex.freal("undef") if isinstance(x, Undef) else x


def uf(name, n=1):
    return z3.Function("m." + name, *([RealS] * (n + 1)))


def real_sqrt(ex, st, x, loc=None):
    if isc(x):
        import math
        f = Fraction(x)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
    zx = ZR(x)
    r = uf("sqrt")(zx)
    st.assume(z3.Implies(zx >= 0, z3.And(r >= 0, r * r == zx)))
    return r


def m_sqrt(ex, st, I, a):
    x = rv(ex, a[0])
    if ex.fp_domain:
        ex.oblige(st, "sqrt of a non-negative number", cmp_r("ge", x, 0), I.loc, "fpdomain")
    return real_sqrt(ex, st, x)


m_sqrt.model = "sqrt: exact real square root"


def trig(name):
    def h(ex, st, I, a):
        x = ZR(rv(ex, a[0]))
        s, c = uf("sin")(x), uf("cos")(x)
        st.assume(s * s + c * c == 1)
        st.assume(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        st.assume(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
        return s if name == "sin" else c
    h.model = "sin/cos: s^2+c^2=1, values in [-1,1], sin 0=0, cos 0=1"
    return h


PI = None


def m_acos(ex, st, I, a):
    x = ZR(rv(ex, a[0]))
    r = uf("acos")(x)
    if ex.fp_domain:
        ex.oblige(st, "acos argument in [-1,1]", z3.And(x >= -1, x <= 1), I.loc, "fpdomain")
    st.assume(z3.And(r >= 0, r <= z3.RealVal("3.1415926535897936")))
    return r


m_acos.model = "acos: a function into [0,pi]"


def m_atan2(ex, st, I, a):
    y, x = ZR(rv(ex, a[0])), ZR(rv(ex, a[1]))
    r = uf("atan2", 2)(y, x)
    h = uf("hypot", 2)(y, x)
    sn, cn = uf("sin")(r), uf("cos")(r)
    pi = z3.RealVal("3.1415926535897936")
    st.assume(z3.And(r >= -pi, r <= pi))
    st.assume(z3.Implies(z3.Or(x != 0, y != 0), z3.And(h > 0, h * h == x * x + y * y, sn * h == y, cn * h == x)))
    st.assume(z3.Implies(x * x + y * y == 1, z3.And(sn == y, cn == x)))
    return r


m_atan2.model = "atan2(y,x): in [-pi,pi], sin and cos of it are y and x divided by the length of (x,y)"


def generic(name, n=1):
    def h(ex, st, I, a):
        return uf(name, n)(*[ZR(rv(ex, x)) for x in a[:n]])
    h.model = name + ": an arbitrary total function of its arguments"
    return h


def m_fabs(ex, st, I, a):
    def f(x):
        x = rv(ex, x)
        if isc(x):
            return abs(Fraction(x))
        return z3.If(x >= 0, x, -x)
    return map_agg(f, a[0])


m_fabs.model = "fabs"


def m_fmul_add(ex, st, I, a):
    return map_agg(lambda x, y, z: radd(rmul(x, y), z), a[0], a[1], a[2])


m_fmul_add.model = "fmuladd"


def m_iabs(ex, st, I, a):
    x = a[0]
    if isinstance(x, int):
        return abs(x)
    l, h = ex.rng.of(x)
    w = I.ty.w
    ex.oblige(st, "no overflow in abs", cmp_i("gt", x, -(1 << (w - 1))), I.loc, "overflow")
    v = ex.fint("abs", None, 0, (1 << (w - 1)) - 1)
    st.assume(v == z3.If(Z(x) >= 0, Z(x), -Z(x)))
    return v


m_iabs.model = "abs"


def mm(op, signed):
    def h(ex, st, I, a):
        x, y = a[0], a[1]
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise Unsupported("min/max of pointers")
        if signed or (ex.nonneg(st, x) and ex.nonneg(st, y)):
            c = cmp_i("lt" if op == "min" else "gt", x, y)
        else:
            c = cmp_i("lt" if op == "min" else "gt", ex.unsigned(st, x, I.ty.w), ex.unsigned(st, y, I.ty.w))
        return ite(c, x, y)
    h.model = "integer min/max"
    return h


def fmm(op):
    def h(ex, st, I, a):
        return map_agg(lambda x, y: ite(cmp_r("lt" if op == "min" else "gt", rv(ex, x), rv(ex, y)), x, y), a[0], a[1])
    h.model = "fmin/fmax"
    return h


def m_floor(ex, st, I, a):
    x = rv(ex, a[0])
    if isc(x):
        import math
        return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(x))


m_floor.model = "floor"


def m_ceil(ex, st, I, a):
    x = ZR(rv(ex, a[0]))
    return -z3.ToReal(z3.ToInt(-x))


m_ceil.model = "ceil"


def m_round(ex, st, I, a):
    """to the nearest integer, halves away from zero"""
    x = ZR(rv(ex, a[0]))
    h = z3.RealVal("1/2")
    k = z3.FreshConst(IntS, "round")
    r = z3.ToReal(k)
    st.assume(z3.If(x >= 0, z3.And(r - h <= x, x < r + h), z3.And(r - h < x, x <= r + h)))
    return r


m_round.model = "round"


def ovf(op):
    def h(ex, st, I, a):
        w = I.ty.elems[0].w
        sg = I.x["callee"].val.split(".")[1][0] == "s"
        x, y = a[0], a[1]
        if not sg:
            x, y = ex.unsigned(st, x, w), ex.unsigned(st, y, w)
        e = {"add": iadd, "sub": isub, "mul": imul}[op](x, y)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        o = bor(cmp_i("lt", e, lo), cmp_i("gt", e, hi))
        return Agg([ex.wrap(st, e, w, False), o])
    h.model = "overflow intrinsics"
    return h


def m_usat(ex, st, I, a):
    x, y = ex.unsigned(st, a[0], I.ty.w), ex.unsigned(st, a[1], I.ty.w)
    return ite(cmp_i("gt", x, y), isub(x, y), 0)


m_usat.model = "saturating subtraction"


def m_cmp3(ex, st, I, a):
    raise Unsupported("threeway")


def m_assume(ex, st, I, a):
    return None


m_assume.model = "llvm.assume ignored"


def m_isconst(ex, st, I, a):
    return False


m_isconst.model = "llvm.is.constant"


def m_objsize(ex, st, I, a):
    return -1


m_objsize.model = "llvm.objectsize"


def m_expect(ex, st, I, a):
    return a[0]


m_expect.model = "llvm.expect"


def m_fshl(ex, st, I, a):
    raise Unsupported("funnel shift")


# ------------------------------------------------------------------------------------------------ table
def table():
    R = re.compile
    t = []
    import containers, maps

    def add(rx, h):
        t.append((R(rx), h))
    add(r"^(.*& )?std::deque<", containers.m_deque)
    add(r"^std::__detail::_Node_(const_)?iterator<.*>::operator(\*|->|\+\+)", maps.m_node_iter)
    add(r"^std::_Rb_tree_(const_)?iterator<.*>::operator(\*|->|\+\+|--)", maps.m_rb_iter)
    add(r"^std::unordered_map<", maps.m_umap)
    add(r"std::_Rb_tree<double, .*::_M_(emplace(_hint)?|insert)_unique<", maps.m_tree)
    add(r"^std::map<", maps.m_map)
    add(r"^pthread_mutex_(un)?lock$", maps.m_lock)
    add(r"^void std::nth_element<", containers.m_nth)
    add(r"^void std::(stable_)?sort<", containers.m_sort)
    add(r"^std::vector<", m_vector)
    add(r"^void std::vector<.*>::_M_realloc|^void std::vector<.*>::_M_", m_vector)
    add(r"^(void |.*& )?std::vector<.*>::(emplace_back|insert|assign)<", m_vector)
    add(r"^operator new(\[\])?\(unsigned long|^malloc$", m_new)
    add(r"^operator delete|^free$|^llvm\.lifetime|^llvm\.dbg|^llvm\.experimental\.noalias|^llvm\.stack|^__cxa_end_catch|^__cxa_free_exception|^llvm\.donothing|^llvm\.prefetch|^__cxa_guard_release", m_nop)
    add(r"^llvm\.mem(cpy|move)|^mem(cpy|move)$", m_memcpy)
    add(r"^llvm\.memset|^memset$", m_memset)
    add(r"^__assert_fail$", m_assert)
    add(r"^std::__throw_out_of_range", thrower("std::out_of_range"))
    add(r"^std::__throw_length_error", thrower("std::length_error"))
    add(r"^std::__throw_bad_alloc|^std::__throw_bad_array", thrower("std::bad_alloc"))
    add(r"^std::__throw_logic_error", thrower("std::logic_error"))
    add(r"^std::__throw_bad_function_call", thrower("std::bad_function_call"))
    add(r"^__cxa_allocate_exception", m_cxa_alloc)
    add(r"^__cxa_throw", m_cxa_throw)
    add(r"^__cxa_begin_catch", m_begin_catch)
    add(r"^__cxa_rethrow", m_rethrow)
    add(r"^llvm\.eh\.typeid\.for", m_typeid)
    add(r"^std::terminate|^__clang_call_terminate|^abort$", m_terminate)
    add(r"^(sqrt|sqrtf|llvm\.sqrt\.f(32|64)|std::sqrt\(.*)$", m_sqrt)
    add(r"^(sinf?|llvm\.sin\.f(32|64)|std::sin\(.*)$", trig("sin"))
    add(r"^(cosf?|llvm\.cos\.f(32|64)|std::cos\(.*)$", trig("cos"))
    add(r"^(acosf?|std::acos\(.*)$", m_acos)
    add(r"^(atan2f?|std::atan2\(.*)$", m_atan2)
    for f in ("tan", "asin", "atan", "exp", "log", "log2", "log10", "cbrt"):
        add(r"^(%sf?|llvm\.%s\.f(32|64)|std::%s\(.*)$" % (f, f, f), generic(f))
    add(r"^(powf?|llvm\.pow\.f(32|64)|std::pow\(.*)$", generic("pow", 2))
    add(r"^(fmodf?)$", generic("fmod", 2))
    add(r"^(hypotf?)$", generic("hypot", 2))
    add(r"^(fabsf?|llvm\.fabs\.)|^std::(abs|fabs)\((double|float)\)", m_fabs)
    add(r"^(abs|labs|llvm\.abs\.)|^std::abs\((int|long)\)", m_iabs)
    add(r"^llvm\.fmuladd|^fmaf?$|^llvm\.fma\.", m_fmul_add)
    add(r"^llvm\.smin", mm("min", True))
    add(r"^llvm\.smax", mm("max", True))
    add(r"^llvm\.umin", mm("min", False))
    add(r"^llvm\.umax", mm("max", False))
    add(r"^llvm\.minnum|^fminf?$", fmm("min"))
    add(r"^llvm\.maxnum|^fmaxf?$", fmm("max"))
    add(r"^llvm\.floor|^floorf?$", m_floor)
    add(r"^llvm\.ceil|^ceilf?$", m_ceil)
    add(r"^llvm\.round|^roundf?$", m_round)
    add(r"^llvm\.[us]add\.with", ovf("add"))
    add(r"^llvm\.[us]sub\.with", ovf("sub"))
    add(r"^llvm\.[us]mul\.with", ovf("mul"))
    add(r"^llvm\.usub\.sat", m_usat)
    add(r"^std::_Sp_counted_base<.*>::_M_(add_ref_copy|release|weak_release|weak_add_ref)", m_count)
    add(r"^llvm\.assume", m_assume)
    add(r"^llvm\.is\.constant", m_isconst)
    add(r"^llvm\.objectsize", m_objsize)
    add(r"^llvm\.expect", m_expect)
    return t


OPAQUE = [r"^std::(__cxx11::)?basic_string", r"^std::operator", r"^fmt::", r"RangeMessage", r"^std::(logic_error|runtime_error|invalid_argument|out_of_range|domain_error|range_error|length_error)::",
          r"std::operator<<|std::ostream|std::basic_ostream|std::to_string", r"::~", r"^std::allocator<", r"^std::__cxx11::to_string"]
