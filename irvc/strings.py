"""std::string as a length and a map of characters (used by contracts that speak about the text; elsewhere strings are opaque)."""
import re, z3
from smt import *
from ex import Obj
import models

LAY = (1, {0: "i8"})


def sget(ex, st, p):
    b = ex.read_k(st, p, "ptr")
    if not isinstance(b, Ptr) or b.obj is None:
        raise Unsupported("use of an unconstructed string")
    return b.obj, ex.read_k(st, Ptr(p.obj, iadd(p.off, 8)), "i64")


def sset(ex, st, p, seq, n):
    ex.write_k(st, p, Ptr(seq, 0), "ptr")
    ex.write_k(st, Ptr(p.obj, iadd(p.off, 8)), n, "i64")


def sfresh(ex, st, p, n, arr=None):
    s = ex.new_seq(st, "string", 1, {0: "i8"}, n)
    if arr is not None:
        st.wr(s).arrays[0] = arr
    sset(ex, st, p, s, n)
    return s


def piece(ex, st, a, i, m, name="chars"):
    """fresh map with value a[i+k] for 0<=k<m"""
    b = z3.Array(ex.fresh(name), IntS, IntS)
    k = z3.Int("k!s")
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z(m)), b[k] == a[k + Z(i)]), patterns=[b[k]]))
    return b


def zmin(a, b):
    return z3.If(Z(a) < Z(b), Z(a), Z(b))


def literal(ex, st, p):
    """the bytes of a constant C string"""
    if not isinstance(p, Ptr) or not isinstance(p.off, int) or not (p.obj.tag and p.obj.tag[0] == "global"):
        raise Unsupported("string made from characters that are not a literal")
    ex.ensure_global(st, p.obj)
    cells, out, i = st.os(p.obj).cells, [], p.off
    while i in cells and isinstance(cells[i][2], int) and cells[i][2]:
        out.append(cells[i][2])
        i += 1
    return out


def chars(ex, st, p, src):
    """the string at p made from the C string src (any text where src is no literal)"""
    try:
        t = literal(ex, st, src)
    except Unsupported:
        n = ex.fint("length", st=st)
        st.assume(n >= 0)
        sfresh(ex, st, p, n)
        return
    arr = z3.K(IntS, z3.IntVal(0))
    for i, c in enumerate(t):
        arr = z3.Store(arr, i, c)
    sfresh(ex, st, p, len(t), arr)


def text(ex, st, p):
    """the text of a string built from a literal (None if it is not one)"""
    s, n = sget(ex, st, p)
    n = z3.simplify(Z(n))
    if not z3.is_int_value(n):
        return None
    out, a = "", ex.arr(st, s, 0)
    for i in range(n.as_long()):
        c = z3.simplify(a[i])
        if not z3.is_int_value(c):
            return None
        out += chr(c.as_long() & 255)
    return out


def m_string(ex, st, I, a):
    dm = ex.cur_dm
    if re.search(r"::basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)$", dm):
        chars(ex, st, a[0], a[1])
        return None
    if "::basic_string<__gnu_cxx::__normal_iterator<char" in dm and all(isinstance(x, Ptr) and x.obj is not None and x.obj is a[1].obj for x in a[1:3]):
        return within(ex, st, I, a[0], a[1], a[2])
    m = re.match(r"^std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> >::(~?[\w\[\]=+ ]+?)\((.*)\)( const)?$", dm)
    if not m:
        raise Unsupported("string operation " + dm)
    meth, sig = m.group(1), m.group(2)
    p = a[0]
    if meth == "basic_string":
        if sig == "":
            sfresh(ex, st, p, 0)
            return None
        if re.match(r"std::(__cxx11::)?basic_string<[^()]*?>(&&| const&)$", sig):
            s, n = sget(ex, st, a[1])
            sfresh(ex, st, p, n, ex.arr(st, s, 0))
            return None
        if re.match(r"std::(__cxx11::)?basic_string<.*> const&, unsigned long(, unsigned long)?$", sig):
            return substr(ex, st, I, p, a[1], a[2], a[3] if len(a) > 3 else None)
    if meth == "~basic_string":
        return None
    if meth == "substr":
        return substr(ex, st, I, a[0], a[1], a[2], a[3])
    s, n = sget(ex, st, p)
    if meth == "empty":
        return cmp_i("eq", n, 0)
    if meth in ("size", "length"):
        return n
    if meth in ("front", "back", "operator[]", "at"):
        i = 0 if meth == "front" else isub(n, 1) if meth == "back" else a[1]
        ok = band(cmp_i("ge", i, 0), cmp_i("lt", i, n))
        if meth == "at":
            return [(t, ("ret", Ptr(s, i)) if side else ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))) for side, t in ex.branch(st, ok)]
        if meth == "operator[]":        # the place after the last character may be read: it is 0
            ex.oblige(st, "character of the string exists", band(cmp_i("ge", i, 0), cmp_i("le", i, n)), I.loc, "bounds")
            outs = []
            for side, t in ex.branch(st, cmp_i("eq", i, n)):
                if side:
                    z = ex.new_seq(t, "end of the string", 1, {0: "i8"}, 1)
                    t.assume(ex.arr(t, z, 0)[0] == 0)
                    outs.append((t, ("ret", Ptr(z, 0))))
                else:
                    outs.append((t, ("ret", Ptr(s, i))))
            return outs
        ex.oblige(st, "character of the string exists", ok, I.loc, "bounds")
        return Ptr(s, i)
    if meth == "erase" and sig.startswith("unsigned long"):
        return erase(ex, st, I, p, a[1], a[2])
    if meth == "erase" and len(a) == 2 and isinstance(a[1], Ptr) and a[1].obj is s:
        ex.oblige(st, "character of the string exists", band(cmp_i("ge", a[1].off, 0), cmp_i("lt", a[1].off, n)), I.loc, "bounds")
        return [(t, ("ret", Ptr(sget(ex, t, p)[0], a[1].off)) if r[0] == "ret" else r) for t, r in erase(ex, st, I, p, a[1].off, 1)]
    if meth == "rfind" and len(a) == 3 and a[2] == 0:      # does the string begin with this?
        return z3.If(starts(ex, st, s, n, 0, prefix(ex, st, sig, a[1])), z3.IntVal(0), z3.IntVal(-1))
    if meth == "compare" and len(a) == 4 and sig.endswith("char const*") and a[1] == 0:
        t = literal(ex, st, a[3])
        if a[2] == len(t):
            r = ex.fint("compare", st=st)
            st.assume((r == 0) == starts(ex, st, s, n, 0, t))
            return r
    if meth == "operator=" and sig == "char const*":
        chars(ex, st, p, a[1])
        return p
    if meth == "operator=":
        o, k = sget(ex, st, a[1])
        sset(ex, st, p, o, k) if False else sfresh(ex, st, p, k, ex.arr(st, o, 0))
        return p
    if meth == "clear":
        sfresh(ex, st, p, 0)
        return None
    if meth in ("begin", "cbegin", "data", "c_str"):
        return Ptr(s, 0)
    if meth in ("end", "cend"):
        return Ptr(s, n)
    raise Unsupported("string::" + meth + "(" + sig + ")")


def prefix(ex, st, sig, x):
    if sig.startswith("char const*"):
        return literal(ex, st, x)
    if sig.startswith("char,") and isinstance(x, int):
        return [x]
    if "basic_string" in sig:
        t = text(ex, st, x)
        if t is not None:
            return [ord(c) for c in t]
    raise Unsupported("comparison with a text that is not a literal")


def within(ex, st, I, p, b, e):
    """the string of the characters between two places of another one"""
    o = b.obj
    n = isub(e.off, b.off)
    ex.oblige(st, "characters are a range of the string", z3.And(Z(b.off) >= 0, Z(n) >= 0, Z(e.off) <= Z(st.os(o).n)), I.loc, "bounds")
    src = ex.arr(st, o, 0)
    new = z3.Array(ex.fresh("chars"), z3.IntSort(), src.sort().range())
    i = z3.Int("i!wi")
    st.assume(z3.ForAll([i], new[i] == src[i + Z(b.off)], patterns=[new[i]]))
    sfresh(ex, st, p, n, new)
    return None


def starts(ex, st, s, n, pos, t):
    A = ex.arr(st, s, 0)
    return z3.And(Z(n) >= pos + len(t), *[A[pos + i] == c for i, c in enumerate(t)])


m_string.model = "std::string (length + character map; allocation never fails)"


def u64(ex, st, x):
    return ex.unsigned(st, x, 64)


def oor():
    return ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))


def erase(ex, st, I, p, pos, cnt):
    outs = []
    s, n = sget(ex, st, p)
    pos, cnt = u64(ex, st, pos), u64(ex, st, cnt)
    for t, s1 in ex.branch(st, cmp_i("le", pos, n)):
        if not t:
            outs.append((s1, oor()))
            continue
        m = zmin(cnt, isub(n, pos))
        a = ex.arr(s1, s, 0)
        b = z3.Array(ex.fresh("chars"), IntS, IntS)
        k = z3.Int("k!s")
        s1.assume(z3.ForAll([k], b[k] == z3.If(k < Z(pos), a[k], a[k + m]), patterns=[b[k]]))
        sfresh(ex, s1, p, isub(n, m), b)
        outs.append((s1, ("ret", p)))
    return outs


def substr(ex, st, I, dst, p, pos, cnt):
    outs = []
    s, n = sget(ex, st, p)
    pos = u64(ex, st, pos)
    for t, s1 in ex.branch(st, cmp_i("le", pos, n)):
        if not t:
            outs.append((s1, oor()))
            continue
        m = isub(n, pos) if cnt is None else zmin(u64(ex, s1, cnt), isub(n, pos))
        sfresh(ex, s1, dst, m, piece(ex, s1, ex.arr(s1, s, 0), pos, m))
        outs.append((s1, ("ret", None)))
    return outs


def m_equal(ex, st, I, a):
    """a string against a literal (anything else is not decided)"""
    try:
        s, n = sget(ex, st, a[0])
        t = literal(ex, st, a[1])
    except Unsupported:
        return z3.Bool(ex.fresh("same text"))
    r = z3.And(Z(n) == len(t), starts(ex, st, s, n, 0, t))
    return z3.Not(r) if "operator!=" in ex.cur_dm else r


m_equal.model = m_string.model
TABLE = [(re.compile(r"^bool std::operator[!=]=<char, std::char_traits<char>, std::allocator<char> >\(std::(__cxx11::)?basic_string<.*> const&, char const\*\)$"), m_equal),
         (re.compile(r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> >::"), m_string)]
