"""Trusted models of std::unordered_map<int, std::vector<T>> and std::map<double, T>.

unordered_map: `has` (which keys are present), per key the length and the elements of the mapped vector, and, while iterated,
one enumeration of the keys present when the iteration began.  A mapped vector being used is an ordinary vector living in a
node object; its content returns into the map when another entry is used, or at the end of the loop iteration.
map: the entries in key order; an iterator is a position."""
import re, z3
from smt import *
from ex import Obj, ksort, KSIZE
from models import targs, layout, vget, vset, put_elem
from containers import strip_head, multi

HAS, LEN, EL = 0, 1, 10


def targ_list(dm, head):
    i = dm.index(head + "<") + len(head) + 1
    out, d, j, s = [], 0, i, i
    while True:
        c = dm[j]
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and dm[j - 1] != "-"):
            if d == 0:
                out.append(dm[s:j].strip())
                return out
            d -= 1
        elif c == "," and d == 0:
            out.append(dm[s:j].strip())
            s = j + 1
        j += 1


def new_map(ex, st, name, elem, havoc=False):
    """elem: layout of the mapped vector's elements"""
    m = Obj(ex.fresh(name), "seq", stride=1, fields={})
    m.elem = elem
    s = st.wr(m)
    w = (lambda n, S: z3.Array("%s.%s" % (m.name, n), IntS, S)) if havoc else None
    s.arrays[HAS] = w("has", z3.BoolSort()) if havoc else z3.K(IntS, z3.BoolVal(False))
    s.arrays[LEN] = w("len", IntS) if havoc else z3.K(IntS, z3.IntVal(0))
    for f, k in elem[1].items():
        s.arrays[EL + f] = z3.Array("%s.el%d" % (m.name, f), IntS, z3.ArraySort(IntS, ksort(k)))
    return m


def ucell(ex, st, p, off):
    v = ex.read_k(st, Ptr(p.obj, iadd(p.off, off)), "ptr")
    if isinstance(v, Undef):
        raise Unsupported("use of an unconstructed map")
    return v


def uset(ex, st, p, off, v):
    ex.write_k(st, Ptr(p.obj, iadd(p.off, off)), v, "ptr")


def uget(ex, st, p):
    return ucell(ex, st, p, 0).obj


def close(ex, st, m):
    g = st.ghost.get(("node", m.id))
    if g is None:
        return
    st.ghost = dict(st.ghost)
    del st.ghost["node", m.id]
    key, blob, seq0, n0, arrs0 = g
    seq, n = vget(ex, st, Ptr(blob, 8))
    arrs = {f: ex.arr(st, seq, f) for f in seq0.fields} if seq is not None else arrs0
    s = st.wr(m)
    if not (isinstance(n, int) and n == n0 or not isinstance(n, int) and Z(n).eq(Z(n0))):
        s.arrays[LEN] = z3.Store(s.arrays[LEN], Z(key), Z(n))
    for f, a in arrs.items():
        if not a.eq(arrs0[f]):
            s.arrays[EL + f] = z3.Store(s.arrays[EL + f], Z(key), a)
    for o in (blob, seq):
        if o is not None:
            st.wr(o).dead = True


def close_new(ex, st, head):
    """end of a loop iteration"""
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == "node"]:
        g, h = st.ghost[k], head.get(k)
        if h is None or h[1] is not g[1]:
            close(ex, st, Obj.reg[k[1]])
    for k, h in head.items():
        if isinstance(k, tuple) and k[0] == "node" and (k not in st.ghost or st.ghost[k][1] is not h[1]):
            raise Unsupported("a map entry used before the loop is left inside the loop")


def open_node(ex, st, m, key):
    g = st.ghost.get(("node", m.id))
    if g is not None:
        if g[0] is key or (not isinstance(key, int) and not isinstance(g[0], int) and Z(g[0]).eq(Z(key))) or (isinstance(key, int) and isinstance(g[0], int) and key == g[0]):
            return Ptr(g[1], 0)
        close(ex, st, m)
    s = st.os(m)
    n = z3.simplify(z3.Select(s.arrays[LEN], Z(key)))
    n = n.as_long() if z3.is_int_value(n) else n
    if not isinstance(n, int):
        st.assume(z3.And(n >= 0, n <= 1 << 60))
        ex.rng.set(n, 0, 1 << 60) if z3.is_const(n) else None
    seq = ex.new_seq(st, "entry", m.elem[0], dict(m.elem[1]), n)
    arrs = {f: z3.Select(s.arrays[EL + f], Z(key)) for f in m.elem[1]}
    for f, a in arrs.items():
        st.wr(seq).arrays[f] = a
    blob = ex.new_blob("node", 32)
    st.wr(blob)
    ex.write_k(st, Ptr(blob, 0), key, "i32")
    vset(ex, st, Ptr(blob, 8), seq, n)
    st.ghost = dict(st.ghost)
    st.ghost["node", m.id] = (key, blob, seq, n, arrs)
    return Ptr(blob, 0)


def enumeration(ex, st, p):
    """the keys present, in iteration order"""
    e = ucell(ex, st, p, 8)
    if e.obj is not None:
        return e.obj
    m = uget(ex, st, p)
    has = st.os(m).arrays[HAS]
    n = ex.fint("entries", st=st, lo=0, hi=1 << 40)
    E = ex.new_seq(st, "keys", 4, {0: "i32"}, n)
    K = ex.arr(st, E, 0)
    pos = z3.Function(ex.fresh("position"), IntS, IntS)
    i = z3.Int("i!en")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(has[K[i]], pos(K[i]) == i, K[i] >= -(1 << 31), K[i] < 1 << 31)), patterns=[K[i]]),
              z3.ForAll([i], z3.Implies(has[i], z3.And(pos(i) >= 0, pos(i) < n, K[pos(i)] == i)), patterns=[has[i]]))
    E.map, E.pos, E.keys, E.count = p, pos, K, n
    ex.enums = getattr(ex, "enums", []) + [E]
    uset(ex, st, p, 8, Ptr(E, 0))
    return E


def at_iter(ex, st, I, it, what):
    """position and key of an iterator; it must denote a live entry"""
    if not isinstance(it, Ptr) or it.obj is None or not hasattr(it.obj, "pos"):
        raise Unsupported("iterator of something else")
    E = it.obj
    p = E.map
    cur = ucell(ex, st, p, 8)
    if cur.obj is not E:
        raise Unsupported("map iterator kept across an insertion")
    i, _ = ex.split(E, it.off)
    m = uget(ex, st, p)
    ex.oblige(st, "%s: the iterator denotes an entry" % what, z3.And(Z(i) >= 0, Z(i) < E.count, st.os(m).arrays[HAS][E.keys[Z(i)]]), I.loc)
    st.assume(z3.And(Z(i) >= 0, Z(i) < E.count, st.os(m).arrays[HAS][E.keys[Z(i)]]))
    return m, E, i, z3.Select(E.keys, Z(i))


def advance(ex, st, I, m, E, i):
    j = iadd(i, 1)
    ex.oblige(st, "the next entry was not removed", z3.Or(Z(j) == E.count, st.os(m).arrays[HAS][E.keys[Z(j)]]), I.loc)
    return Ptr(E, imul(j, 4))


def m_node_iter(ex, st, I, a):
    dm = ex.cur_dm
    op = re.search(r"::operator(\*|->|\+\+)(\(int\)|\(\))", dm)
    it = ex.read_k(st, a[0], "ptr")
    m, E, i, key = at_iter(ex, st, I, it, "use of a map iterator")
    if op.group(1) == "++":
        ex.write_k(st, a[0], advance(ex, st, I, m, E, i), "ptr")
        return it if op.group(2) == "(int)" else a[0]
    return open_node(ex, st, m, key)


m_node_iter.model = "iteration over std::unordered_map visits every entry present exactly once, in some order"


def m_umap(ex, st, I, a):
    dm = ex.cur_dm
    rest = strip_head(dm, "std::unordered_map")
    mt = re.match(r"::(~?unordered_map|operator\[\]|operator=|begin|end|cbegin|cend|erase|find|count|at|clear|empty|contains)(.*)$", rest)
    if not mt:
        raise Unsupported("unordered_map operation " + rest)
    meth, sig = mt.group(1), mt.group(2)
    ta = targ_list(dm, "std::unordered_map")
    if ta[0] != "int" or not ta[1].startswith("std::vector<"):
        raise Unsupported("unordered_map<%s, %s>" % (ta[0], ta[1]))
    elem = layout(ex, targs(ta[1], "std::vector"))
    p = a[0]
    if meth == "~unordered_map":
        return None
    if meth in ("unordered_map", "operator="):
        if meth == "unordered_map" and sig == "()":
            m = new_map(ex, st, "map", elem)
        elif "const&)" in sig or "&&)" in sig:
            o = uget(ex, st, a[1])
            close(ex, st, o)
            m = new_map(ex, st, "map", elem)
            for f, x in st.os(o).arrays.items():
                st.wr(m).arrays[f] = x
            if "&&)" in sig:
                e = new_map(ex, st, "map", elem)
                uset(ex, st, a[1], 0, Ptr(e, 0))
                uset(ex, st, a[1], 8, Ptr(None, 0))
        else:
            raise Unsupported("unordered_map constructor " + sig)
        uset(ex, st, p, 0, Ptr(m, 0))
        uset(ex, st, p, 8, Ptr(None, 0))
        return p if meth == "operator=" else None
    m = uget(ex, st, p)
    if meth in ("begin", "cbegin"):
        return Ptr(enumeration(ex, st, p), 0)
    if meth in ("end", "cend"):
        E = enumeration(ex, st, p)
        return Ptr(E, imul(E.count, 4))
    if meth == "clear":
        close(ex, st, m)
        s = st.wr(m)
        s.arrays[HAS] = z3.K(IntS, z3.BoolVal(False))
        uset(ex, st, p, 8, Ptr(None, 0))
        return None
    if meth == "erase" and "_iterator<" in sig and a[1:] and len(a) == 2:
        m2, E, i, key = at_iter(ex, st, I, a[1], "erase")
        close(ex, st, m)
        s = st.wr(m)
        s.arrays[HAS] = z3.Store(s.arrays[HAS], Z(key), z3.BoolVal(False))
        return advance(ex, st, I, m, E, i)
    if meth in ("operator[]", "count", "at", "find", "contains"):
        key = ex.read_k(st, a[1], "i32")
        has = z3.simplify(z3.Select(st.os(m).arrays[HAS], Z(key)))
        if meth == "count":
            return z3.If(has, z3.IntVal(1), z3.IntVal(0))
        if meth == "contains":
            return has
        if meth == "find":
            E = enumeration(ex, st, p)
            return Ptr(E, imul(z3.If(has, E.pos(Z(key)), E.count), 4))
        if meth == "at":
            outs = []
            for t, s in ex.branch(st, has):
                if t:
                    n = open_node(ex, s, m, key)
                    outs.append((s, ("ret", Ptr(n.obj, 8))))
                else:
                    outs.append((s, ("throw", "std::out_of_range", Ptr(Obj("exception", "opaque"), 0))))
            return outs
        g = st.ghost.get(("node", m.id))
        n0 = g
        close(ex, st, m) if g is not None and not (not isinstance(key, int) and Z(g[0]).eq(Z(key))) else None
        s = st.wr(m)
        if not z3.is_true(has) and not ex.quick.valid(st.pc, has):
            s.arrays[LEN] = z3.Store(s.arrays[LEN], Z(key), z3.If(has, s.arrays[LEN][Z(key)], z3.IntVal(0)))
            s.arrays[HAS] = z3.Store(s.arrays[HAS], Z(key), z3.BoolVal(True))
            uset(ex, st, p, 8, Ptr(None, 0))
        n = open_node(ex, st, m, key)
        return Ptr(n.obj, 8)
    raise Unsupported("unordered_map::" + meth + sig)


m_umap.model = "std::unordered_map<int, std::vector> (presence and content by key; allocation never fails)"


# ------------------------------------------------------------------------------------------------ mutex
def m_lock(ex, st, I, a):
    dm = ex.cur_dm
    h = ex.read_k(st, a[0], "i32")
    if isinstance(h, Undef):
        raise Unsupported("use of an unconstructed mutex")
    if "unlock" in dm:
        ex.oblige(st, "the mutex being unlocked is held", cmp_i("eq", h, 1), I.loc)
        ex.write_k(st, a[0], 0, "i32")
    else:
        ex.oblige(st, "the mutex being locked is not already held by this thread", cmp_i("eq", h, 0), I.loc)
        ex.write_k(st, a[0], 1, "i32")
    return 0


m_lock.model = "std::mutex (mutual exclusion; locking never fails)"


def locked(ex, st, I):
    g = getattr(ex, "guard", None)
    if g is not None:
        ex.oblige(st, "the entries are accessed with the mutex held", cmp_i("eq", ex.read_k(st, g, "i32"), 1), I.loc)


# ------------------------------------------------------------------------------------------------ ordered map
def mlay(ex, dm):
    ta = targ_list(dm, "std::map")
    if ta[0] != "double":
        raise Unsupported("map with key " + ta[0])
    vs, vl = layout(ex, ta[1])
    d = {0: "f64"}
    d.update({8 + o: k for o, k in vl.items()})
    return (8 + vs + 7) // 8 * 8, d


def mget(ex, st, p):
    s = ex.read_k(st, p, "ptr")
    if isinstance(s, Undef) or s.obj is None:
        raise Unsupported("use of an unconstructed map")
    return s.obj


def sorted_fact(K, n):
    i, j = z3.Ints("i!mp j!mp")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < Z(n)), K[i] < K[j]), patterns=[multi(K[i], K[j])])


def bound(ex, st, S, x, strict):
    """first position whose key is not less than x (strict: greater than x)"""
    n = st.os(S).n
    K = ex.arr(st, S, 0)
    r = ex.fint("bound", st=st, lo=0, hi=1 << 40)
    i = z3.Int("i!bd")
    st.assume(z3.And(r >= 0, r <= Z(n)),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), K[i] <= x if strict else K[i] < x), patterns=[K[i]]),
              z3.ForAll([i], z3.Implies(z3.And(i >= r, i < Z(n)), K[i] > x if strict else K[i] >= x), patterns=[K[i]]))
    # instances at the boundary
    st.assume(z3.Implies(r > 0, K[r - 1] <= x if strict else K[r - 1] < x), z3.Implies(r < Z(n), K[r] > x if strict else K[r] >= x))
    return r


def m_rb_iter(ex, st, I, a):
    dm = ex.cur_dm
    op = re.search(r"::operator(\*|->|\+\+|--)(\(int\)|\(\))", dm)
    it = ex.read_k(st, a[0], "ptr")
    if not isinstance(it, Ptr) or it.obj is None or not getattr(it.obj, "rb", False):
        raise Unsupported("iterator of something else")
    S = it.obj
    locked(ex, st, I)
    i, _ = ex.split(S, it.off)
    n = Z(st.os(S).n)
    o = op.group(1)
    if o in ("*", "->"):
        ex.oblige(st, "dereferenced iterator denotes an entry", z3.And(Z(i) >= 0, Z(i) < n), I.loc)
        st.assume(z3.And(Z(i) >= 0, Z(i) < n))
        return it
    if o == "++":
        ex.oblige(st, "incremented iterator denotes an entry", z3.And(Z(i) >= 0, Z(i) < n), I.loc)
        st.assume(z3.And(Z(i) >= 0, Z(i) < n))
        new = Ptr(S, imul(iadd(i, 1), S.stride))
    else:
        ex.oblige(st, "decremented iterator is not the first", z3.And(Z(i) > 0, Z(i) <= n), I.loc)
        st.assume(z3.And(Z(i) > 0, Z(i) <= n))
        new = Ptr(S, imul(isub(i, 1), S.stride))
    ex.write_k(st, a[0], new, "ptr")
    return it if op.group(2) == "(int)" else a[0]


m_rb_iter.model = "std::map iterators move through the entries in key order"


def enter(ex, s, p, S, stride, fields, r, x, vals):
    """the map at p with an entry (x, vals) put at position r"""
    n = s.os(S).n
    N = ex.new_seq(s, "map", stride, dict(fields), iadd(n, 1))
    N.rb = True
    i = z3.Int("i!in")
    for f, k in fields.items():
        old = ex.arr(s, S, f)
        new = z3.Array(ex.fresh("map.%d" % f), IntS, old.sort().range())
        v = x if f == 0 else vals[f]
        s.assume(z3.ForAll([i], z3.Implies(i < r, new[i] == old[i]), patterns=[new[i]]), new[r] == v,
                 z3.ForAll([i], z3.Implies(i > r, new[i] == old[i - 1]), patterns=[new[i]]))
        s.wr(N).arrays[f] = new
    s.assume(sorted_fact(ex.arr(s, N, 0), iadd(n, 1)))
    ex.write_k(s, p, Ptr(N, 0), "ptr")
    return N


def unique(ex, st, p, stride, fields, kp, vals, hint):
    """nothing happens where the key is there already"""
    vals = {f: (ZR(x) if ksort(fields[f]) == RealS else Z(x)) for f, x in vals.items()}
    S = mget(ex, st, p)
    n = st.os(S).n
    x = ZR(ex.read_k(st, kp, "f64"))
    r = bound(ex, st, S, x, False)
    outs = []
    for t, s in ex.branch(st, z3.And(r < Z(n), ex.arr(st, S, 0)[r] == x)):
        q = Ptr(S if t else enter(ex, s, p, S, stride, fields, r, x, vals), imul(r, stride))
        outs.append((s, ("ret", q if hint else Agg([q, 0 if t else 1]))))
    return outs


def m_tree(ex, st, I, a):
    """the insertions of the tree behind std::map"""
    dm = ex.cur_dm
    dm = dm[dm.rindex("std::_Rb_tree<double,", 0, dm.index(">::_M_") + 1):]
    ta, rest = targ_list(dm, "std::_Rb_tree"), strip_head(dm, "std::_Rb_tree")
    vt = re.match(r"std::pair<double const, (.*?)\s*>$", ta[1])
    op = re.match(r"::(\w+)<(.*)$", rest)
    if not vt or not op or op.group(1) not in ("_M_emplace_hint_unique", "_M_emplace_unique", "_M_insert_unique"):
        raise Unsupported("tree operation " + rest[:80])
    vs, vl = layout(ex, vt.group(1))
    fields = {0: "f64"}
    fields.update({8 + o: k for o, k in vl.items()})
    stride = (8 + vs + 7) // 8 * 8
    p = a[0]
    locked(ex, st, I)
    hint = op.group(1) == "_M_emplace_hint_unique"
    b = a[2:] if hint else a[1:]
    if len(b) == 3 and "piecewise_construct_t" in op.group(2):
        kp = ex.read_k(st, b[1], "ptr")
        if "std::tuple<>" in op.group(2):
            vals = {f: (z3.RealVal(0) if ksort(k) == RealS else z3.IntVal(0)) for f, k in fields.items() if f}
        else:
            vp = ex.read_k(st, b[2], "ptr")
            vals = {8 + o: ex.read_k(st, Ptr(vp.obj, iadd(vp.off, o)), k) for o, k in vl.items()}
    elif len(b) == 2:
        kp = b[0]
        vals = {8 + o: ex.read_k(st, Ptr(b[1].obj, iadd(b[1].off, o)), k) for o, k in vl.items()}
    elif len(b) == 1 and "std::pair<double" in op.group(2):
        kp = b[0]
        vals = {8 + o: ex.read_k(st, Ptr(kp.obj, iadd(kp.off, 8 + o)), k) for o, k in vl.items()}
    else:
        raise Unsupported("tree operation with these arguments")
    return unique(ex, st, p, stride, fields, kp, vals, hint)


m_tree.model = "std::map<double, T> (entries in key order; allocation never fails)"


def m_map(ex, st, I, a):
    dm = ex.cur_dm
    rest = strip_head(dm, "std::map")
    mt = re.match(r"::(~?map|operator\[\]|begin|end|cbegin|cend|erase|lower_bound|upper_bound|find|count|size|empty|clear|key_comp|value_comp)(.*)$", rest)
    if rest.startswith("::insert(std::pair<double const"):
        stride, fields = mlay(ex, dm)
        locked(ex, st, I)
        vals = {f: ex.read_k(st, Ptr(a[1].obj, iadd(a[1].off, f)), k) for f, k in fields.items() if f}
        return unique(ex, st, a[0], stride, fields, a[1], vals, False)
    if not mt:
        raise Unsupported("map operation " + rest)
    meth, sig = mt.group(1), mt.group(2)
    stride, fields = mlay(ex, dm)
    p = a[0]
    if meth == "~map":
        return None
    if meth == "key_comp":
        return 0
    if meth == "map":
        if sig != "()":
            raise Unsupported("map constructor " + sig)
        S = ex.new_seq(st, "map", stride, fields, 0)
        S.rb = True
        ex.write_k(st, p, Ptr(S, 0), "ptr")
        return None
    S = mget(ex, st, p)
    n = st.os(S).n
    locked(ex, st, I)
    if meth in ("begin", "cbegin"):
        return Ptr(S, 0)
    if meth in ("end", "cend"):
        return Ptr(S, imul(n, stride))
    if meth == "size":
        return n
    if meth == "empty":
        return cmp_i("eq", n, 0)
    if meth in ("lower_bound", "upper_bound"):
        x = ZR(ex.read_k(st, a[1], "f64"))
        return Ptr(S, imul(bound(ex, st, S, x, meth == "upper_bound"), stride))
    if meth in ("find", "count"):
        x = ZR(ex.read_k(st, a[1], "f64"))
        r = bound(ex, st, S, x, False)
        hit = z3.And(r < Z(n), ex.arr(st, S, 0)[r] == x)
        if meth == "count":
            return z3.If(hit, z3.IntVal(1), z3.IntVal(0))
        return Ptr(S, imul(z3.If(hit, r, Z(n)), stride))
    if meth in ("erase", "clear"):
        if meth == "clear":
            lo, hi = 0, n
        else:
            if any(not isinstance(x, Ptr) for x in a[1:]) or "double const&" in sig:
                raise Unsupported("map::erase by key")
            if any(x.obj is not S for x in a[1:]):
                raise Unsupported("erase with an iterator of another map or kept across an insertion")
            lo = ex.split(S, a[1].off)[0]
            hi = ex.split(S, a[2].off)[0] if len(a) == 3 else iadd(lo, 1)
            ex.oblige(st, "erased range is a range of entries of the map", z3.And(0 <= Z(lo), Z(lo) <= Z(hi), Z(hi) <= Z(n)), I.loc)
            st.assume(z3.And(0 <= Z(lo), Z(lo) <= Z(hi), Z(hi) <= Z(n)))
        d = isub(hi, lo)
        i = z3.Int("i!er")
        for f in fields:
            old = ex.arr(st, S, f)
            new = z3.Array(ex.fresh("map.%d" % f), IntS, old.sort().range())
            st.assume(z3.ForAll([i], z3.Implies(i < Z(lo), new[i] == old[i]), patterns=[new[i]]),
                      z3.ForAll([i], z3.Implies(i >= Z(lo), new[i] == old[i + Z(d)]), patterns=[new[i]]))
            st.wr(S).arrays[f] = new
        st.wr(S).n = isub(n, d)
        st.assume(sorted_fact(ex.arr(st, S, 0), isub(n, d)))
        return Ptr(S, imul(lo, stride)) if meth == "erase" else None
    if meth == "operator[]":
        x = ZR(ex.read_k(st, a[1], "f64"))
        r = bound(ex, st, S, x, False)
        outs = []
        for t, s in ex.branch(st, z3.And(r < Z(n), ex.arr(st, S, 0)[r] == x)):
            if t:
                outs.append((s, ("ret", Ptr(S, iadd(imul(r, stride), 8)))))
                continue
            N = enter(ex, s, p, S, stride, fields, r, x, {f: (z3.RealVal(0) if ksort(k) == RealS else z3.IntVal(0)) for f, k in fields.items() if f})
            outs.append((s, ("ret", Ptr(N, iadd(imul(r, stride), 8)))))
        return outs
    raise Unsupported("map::" + meth + sig)


m_map.model = "std::map<double, T> (entries in key order; allocation never fails)"
