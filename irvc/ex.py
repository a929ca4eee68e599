"""Symbolic executor / VC generator over LLVM IR produced by clang from /repo's sources.

Loops are cut at their headers with invariants (found Houdini-style from candidate templates and always
checked); calls go through contracts where one exists, are interpreted by a trusted model of a dependency
(libstdc++ containers, libm, ...) where one exists, and are inlined otherwise."""
import z3, re, time
from fractions import Fraction
from smt import *
import llvmc

KSIZE = {"f64": 8, "f32": 4, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1}


def kind_of(T):
    if T.kind == "double":
        return "f64"
    if T.kind == "float":
        return "f32"
    if T.kind == "int":
        return "i%d" % T.w if T.w != 1 else "i8"
    if T.kind == "ptr":
        return "ptr"
    return None


def ksort(k):
    return RealS if k in ("f64", "f32") else IntS


def krange(k):
    w = int(k[1:])
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def qualified(dm):
    """the qualified name in a demangled signature: without arguments and return type"""
    d, cut = 0, None
    for i in range(len(dm) - 1, -1, -1):
        c = dm[i]
        if c == ")":
            d += 1
        elif c == "(":
            d -= 1
            if d == 0:
                cut = i
                break
    n = dm[:cut] if cut is not None else dm
    if "operator" in n:
        j = n.index("operator")
        head, tail = n[:j], n[j:]
    else:
        head, tail = n, ""
    d, at = 0, 0
    for i, c in enumerate(head):
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == " " and d == 0:
            at = i + 1
    return head[at:] + tail


class Obj:
    _n = 0

    reg = {}

    def __init__(self, name, kind, size=None, stride=None, fields=None, lazy=False):
        Obj._n += 1
        self.id = Obj._n
        Obj.reg[self.id] = self
        self.name = name
        self.kind = kind          # blob | seq | opaque
        self.size = size
        self.stride = stride
        self.fields = fields      # seq: {off: kind}; blob (optional typed layout): {off: kind}
        self.lazy = lazy          # unwritten cells are unknown inputs rather than uninitialised
        self.inner = {}           # seq of records holding nested vectors etc.
        self.tag = None

    def __repr__(self):
        return "Obj(%s)" % self.name


class OS:
    """object state"""
    __slots__ = ("cells", "arrays", "n", "bases", "dead")

    def __init__(self):
        self.cells, self.arrays, self.n, self.bases, self.dead = {}, {}, None, (), False

    def copy(self):
        o = OS()
        o.cells, o.arrays, o.n, o.bases, o.dead = dict(self.cells), dict(self.arrays), self.n, self.bases, self.dead
        return o


class State:
    __slots__ = ("env", "mem", "pc", "ghost", "exc", "trace")

    def __init__(self):
        self.env, self.mem, self.pc, self.ghost, self.exc, self.trace = {}, {}, [], {}, None, ()

    def fork(self):
        s = State()
        s.env, s.mem, s.pc, s.ghost, s.exc, s.trace = dict(self.env), dict(self.mem), list(self.pc), dict(self.ghost), self.exc, self.trace
        return s

    def os(self, obj):
        o = self.mem.get(obj.id)
        if o is None:
            o = OS()
            self.mem[obj.id] = o
        return o

    def wr(self, obj):
        o = self.os(obj).copy()
        self.mem[obj.id] = o
        return o

    def assume(self, *fs):
        for f in fs:
            if f is True:
                continue
            if f is False:
                self.pc.append(z3.BoolVal(False))
            else:
                self.pc.append(f)


class Oblig:
    __slots__ = ("name", "pc", "goal", "loc", "kind", "status", "time", "backend", "model")

    def __init__(self, name, pc, goal, loc, kind):
        self.name, self.pc, self.goal, self.loc, self.kind = name, list(pc), goal, loc, kind
        self.status = None
        self.time = 0
        self.backend = None
        self.model = None


class Dead(Exception):
    pass


EXC_PARENTS = {
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"],
    "std::domain_error": ["std::logic_error", "std::exception"],
    "std::logic_error": ["std::exception"],
    "std::runtime_error": ["std::exception"],
    "std::range_error": ["std::runtime_error", "std::exception"],
    "std::bad_alloc": ["std::exception"],
    "std::bad_optional_access": ["std::exception"],
}


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks
        self.conc = False
        self.stay = []


def find_loops(F):
    if F.loops is not None:
        return F.loops
    blocks = F.blocks
    idx = {b: i for i, b in enumerate(blocks)}
    # reachable + dominators (iterative)
    order, seen = [], set()

    def dfs(b):
        st = [(b, iter(b.succs))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succs)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(blocks[0])
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {blocks[0]: blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) is not new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if b is blocks[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in b.succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in x.preds if p in num)
    F.loops = {h: Loop(h, bl) for h, bl in loops.items()}
    return F.loops


class Res:
    def __init__(self):
        self.outs, self.backs, self.exits = [], [], []


class Executor:
    def __init__(self, mod, contracts=(), intrinsics=(), opaque=(), mode="real"):
        self.mod = mod
        self.contracts = list(contracts)
        self.intrinsics = list(intrinsics)      # [(compiled regex on demangled, handler)]
        self.opaque = [re.compile(x) for x in opaque]
        self.quick = Quick()
        self.inf_div = False
        self.rng = Ranges()
        self.obligs = []
        self.recording = True
        self.globals = {}
        self.fresh_n = 0
        self.templates = []
        self.max_unroll = 70
        self.max_paths = 4000
        self.bound = None
        self.bounded_hit = False
        self.cur = None
        self.notes = set()
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.axioms = []
        self.loops_done = 0
        self.typeids = {}
        self.npaths = 0
        self.exit_conc = False
        self.deadline = None
        self.ub_overflow = True
        self.dispatch_cache = {}
        self.fork_select = False
        self.loop_log = []
        self.layouts = {}
        self.ctxviews = None
        self.ptr_units = {}
        self.fp_domain = True
        self.cur_dm = None
        self.loop_stack = []
        self.dropped = []
        Obj.reg = {}
        self.allobjs = Obj.reg
        self.quant_rl = 3000000

    # ---------- fresh values
    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def fresh_undef(self, it):
        return z3.Const(self.fresh("undef"), it.sym.sort())

    def body_syms(self, st):
        return ()

    def head_mark(self, hs):
        m = 0
        for n in hs:
            m = max(m, int(n.rsplit("!", 1)[1]))
        return m

    def fint(self, base, w=64, lo=None, hi=None, st=None):
        v = z3.Int(self.fresh(base))
        if w:
            l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
            lo = l if lo is None else lo
            hi = h if hi is None else hi
        self.rng.set(v, lo, hi)
        if st is not None:
            st.assume(z3.And(v >= lo, v <= hi))
        return v

    def freal(self, base):
        return z3.Real(self.fresh(base))

    def fbool(self, base):
        return z3.Bool(self.fresh(base))

    def fresh_kind(self, k, base, st):
        if k in ("f64", "f32"):
            return self.freal(base)
        if k == "i1":
            return self.fbool(base)
        return self.fint(base, int(k[1:]), st=st)

    def fresh_of(self, T, base, st):
        if T.kind == "void":
            return None
        if T.kind == "int" and T.w == 1:
            return self.fbool(base)
        if T.kind == "struct":
            return Agg([self.fresh_of(e, base, st) for e in T.elems])
        k = kind_of(T)
        if k is None or k == "ptr":
            if k == "ptr":
                return Ptr(Obj(self.fresh(base), "opaque"), 0)
            raise Unsupported("fresh of " + str(T))
        return self.fresh_kind(k, base, st)

    # ---------- obligations
    def oblige(self, st, name, goal, loc=None, kind="safety"):
        if goal is True:
            if self.recording:
                o = Oblig(name, [], True, loc, kind)
                o.status, o.backend = "proved", "trivial"
                self.obligs.append(o)
            return
        if self.recording:
            self.obligs.append(Oblig(name, self.axioms + st.pc, Z(goal), loc, kind))
        if goal is False:
            raise Dead()
        st.assume(goal)

    # ---------- objects
    def new_blob(self, name, size, lazy=False, fields=None):
        return Obj(self.fresh(name) if not lazy else name, "blob", size=size, lazy=lazy, fields=fields)

    def new_seq(self, st, name, stride, fields, n, zero=False, lazy=False):
        o = Obj(name if lazy else self.fresh(name), "seq", stride=stride, fields=fields, lazy=lazy)
        s = st.wr(o)
        s.n = n
        if zero:
            for f, k in fields.items():
                s.arrays[f] = z3.K(IntS, Z(Fraction(0)) if ksort(k) is RealS or ksort(k) == RealS else z3.IntVal(0))
        return o

    def arr(self, st, obj, foff):
        s = st.os(obj)
        a = s.arrays.get(foff)
        if a is None:
            k = obj.fields.get(foff)
            if k is None:
                raise Unsupported("undeclared field +%d of %s" % (foff, obj.name))
            a = z3.Array("%s.%d" % (obj.name, foff), IntS, ksort(k))
            s = st.wr(obj)
            s.arrays[foff] = a
        return a

    def split(self, obj, off):
        c, d = linearize(off)
        s = obj.stride
        if any(m % s for _, m in d.values()):
            raise Unsupported("index not a multiple of the element size of %s: %s" % (obj.name, off))
        fo = c % s
        return delin((c - fo) // s, {i: (e, m // s) for i, (e, m) in d.items()}), fo

    def field_at(self, obj, fo, k):
        f = obj.fields.get(fo)
        if f is None and getattr(obj, "untyped", False) and fo + KSIZE[k] <= obj.stride:
            obj.fields[fo] = f = k          # raw heap block: element type fixed by the first access
        if f is None:
            raise Unsupported("no field at +%d of %s (reading %s)" % (fo, obj.name, k))
        return f

    def read(self, st, p, T, loc=None):
        if T.kind == "vector":
            et = T.elems[0]
            return Agg([self.read(st, Ptr(p.obj, iadd(p.off, i * et.size)), et, loc) for i in range(T.n)])
        if T.kind in ("struct", "array"):
            if T.kind == "array":
                return Agg([self.read(st, Ptr(p.obj, iadd(p.off, i * T.elems[0].size)), T.elems[0], loc) for i in range(T.n)])
            return Agg([self.read(st, Ptr(p.obj, iadd(p.off, o)), e, loc) for o, e in zip(T.offs, T.elems)])
        k = kind_of(T)
        v = self.read_k(st, p, k, loc)
        if T.kind == "int" and T.w == 1:
            return self.to_bool(v)
        return v

    def to_bool(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, z3.ArithRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                return ite(v.arg(0), bool(a.as_long() & 1), bool(b.as_long() & 1))
        if isinstance(v, Undef):
            return self.fbool("undef")
        return v % 2 == 1

    def chk_bounds(self, st, p, size, loc, what):
        obj = p.obj
        if obj is None:
            self.oblige(st, "null-deref", False, loc)
        if st.os(obj).dead:
            raise Unsupported("reference into a map used after another entry was accessed")
        if obj.kind == "seq":
            idx, fo = self.split(obj, p.off)
            n = st.os(obj).n
            self.oblige(st, "in-bounds %s of %s" % (what, obj.name.split("!")[0]), band(cmp_i("ge", idx, 0), cmp_i("lt", idx, n)), loc, "bounds")
            return idx, fo
        if obj.kind == "blob":
            self.oblige(st, "in-bounds %s of %s" % (what, obj.name.split("!")[0]),
                        band(cmp_i("ge", p.off, 0), cmp_i("le", p.off, obj.size - size)), loc, "bounds")
            return None, p.off
        raise Unsupported("access to opaque object " + obj.name)

    def conv(self, v, have, want):
        if have == want or want is None:
            return v
        if {have, want} <= {"i8", "i1"}:
            return v
        if isinstance(v, Bits) and v.ty == want:
            return v.val
        if KSIZE.get(have) == KSIZE.get(want):
            if isinstance(v, Bits):
                return v
            if isinstance(v, int) and v == 0 and not isinstance(v, bool):
                return {"f": Fraction(0), "p": NULL, "i": 0}[want[0]]
            if isinstance(v, Fraction) and v == 0 and want[0] == "i":
                return 0
            if have == "ptr" and want == "i64":
                return PtrInt(v)
            if have == "i64" and want == "ptr" and isinstance(v, PtrInt):
                return v.ptr
            return Bits(v, have)
        raise Unsupported("type punning %s as %s" % (have, want))

    def lazy_name(self, obj, off, k):
        return "%s+%d:%s" % (obj.name, off, k)

    def read_k(self, st, p, k, loc=None):
        size = KSIZE[k]
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported("load through %r at %s" % (p, loc))
        if k == "ptr" and p.obj is not None and isinstance(p.off, int):
            # the virtual table of an exception of the library, and what() in it (any text)
            if p.off == 0 and (p.obj.kind == "opaque" and p.obj.name == "exception" or p.obj.kind == "blob" and p.obj.name.startswith("exc!") and 0 not in st.os(p.obj).cells):
                return Ptr(Obj("exception vtable", "opaque"), 0)
            if p.off == 16 and p.obj.kind == "opaque" and p.obj.name == "exception vtable":
                return FnPtr("what", lambda ex, st, I, a: Ptr(Obj("what", "opaque"), 0))
        idx, fo = self.chk_bounds(st, p, size, loc, "read")
        obj = p.obj
        if obj.kind == "seq":
            f = self.field_at(obj, fo, k)
            if f == "obj":
                raise Unsupported("object-valued field")
            v = z3.Select(self.arr(st, obj, fo), Z(idx))
            if f[0] == "i":
                lo, hi = krange(f)
                if v.get_id() not in self.rng.var:
                    self.rng.set(v, lo, hi)
                st.assume(z3.And(v >= lo, v <= hi))
            return self.conv(v, f, k)
        if not isinstance(fo, int):
            return self.read_sym(st, obj, fo, k)
        return self.read_cell(st, obj, st.os(obj), fo, k)

    def read_cell(self, st, obj, s, off, k, create=True):
        c = s.cells.get(off)
        if c is not None:
            if c[0] == KSIZE[k]:
                return self.conv(c[2], c[1], k)
            if c[0] > KSIZE[k]:
                if isinstance(c[2], int) and c[1][0] == "i":
                    v = c[2] & ((1 << (8 * KSIZE[k])) - 1)
                    h = 1 << (8 * KSIZE[k] - 1)
                    return v - 2 * h if v >= h else v
                raise Unsupported("partial read of %s+%d" % (obj.name, off))
            # wider read over several narrower cells
            parts = []
            o = off
            while o < off + KSIZE[k]:
                cc = s.cells.get(o)
                if cc is None:
                    break
                parts.append((o, cc))
                o += cc[0]
            if o == off + KSIZE[k] and all(isinstance(cc[2], int) and cc[1][0] == "i" for _, cc in parts):
                v = 0
                for oo, cc in parts:
                    v |= (cc[2] & ((1 << (8 * cc[0])) - 1)) << (8 * (oo - off))
                h = 1 << (8 * KSIZE[k] - 1)
                v = v - 2 * h if v >= h else v
                return self.conv(v, "i%d" % (8 * KSIZE[k]), k)
            return Bits(("group", [(oo - off, cc) for oo, cc in parts], off, obj), "group")
        for o2, c2 in s.cells.items():
            if o2 < off < o2 + c2[0]:
                if isinstance(c2[2], int) and c2[1][0] == "i" and off + KSIZE[k] <= o2 + c2[0]:
                    v = (c2[2] >> (8 * (off - o2))) & ((1 << (8 * KSIZE[k])) - 1)
                    h = 1 << (8 * KSIZE[k] - 1)
                    return v - 2 * h if v >= h else v
                raise Unsupported("overlapping read of %s+%d" % (obj.name, off))
        for lo, hi, sobj, sos, delta in reversed(s.bases):
            if lo <= off < hi:
                if sobj == "zero":
                    return self.conv(0, "i%d" % (8 * KSIZE[k]), k)
                return self.read_cell(st, sobj, sos, off + delta, k)
        if not obj.lazy:
            # uninitialised: any value
            if k == "ptr":
                return UNDEF
            v = self.fresh_kind(k, "uninit", st)
        else:
            fk = (obj.fields or {}).get(off, k)
            if fk == "ptr":
                v = Ptr(Obj(self.lazy_name(obj, off, fk), "opaque"), 0)
            elif fk in ("f64", "f32"):
                v = z3.Real(self.lazy_name(obj, off, fk))
            else:
                v = z3.Int(self.lazy_name(obj, off, fk))
                lo, hi = krange(fk)
                self.rng.set(v, lo, hi)
                st.assume(z3.And(v >= lo, v <= hi))
            if obj.fields is not None and off not in obj.fields:
                raise Unsupported("undeclared cell %s+%d" % (obj.name, off))
            if s is st.mem.get(obj.id):
                st.wr(obj).cells[off] = (KSIZE[fk], fk, v)
            return self.conv(v, fk, k)
        if s is st.mem.get(obj.id):
            st.wr(obj).cells[off] = (KSIZE[k], k, v)
        return v

    def sym_offsets(self, obj, off, k):
        c, d = linearize(off)
        import math
        g = 0
        for _, m in d.values():
            g = math.gcd(g, abs(m))
        if g < KSIZE[k]:
            raise Unsupported("symbolic offset with step %d in %s" % (g, obj.name))
        offs = [o for o in range(c % g, obj.size - KSIZE[k] + 1, g)]
        if len(offs) > 512:
            raise Unsupported("symbolic offset over a large object")
        return offs

    def read_sym(self, st, obj, off, k):
        offs = self.sym_offsets(obj, off, k)
        s = st.os(obj)
        v = None
        for o in reversed(offs):
            try:
                c = self.read_cell(st, obj, st.os(obj), o, k)
            except Unsupported:
                continue
            if isinstance(c, (Ptr, Undef, Bits, PtrInt)):
                raise Unsupported("symbolic read of non-scalar cell")
            v = c if v is None else ite(cmp_i("eq", off, o), c, v)
        if v is None:
            raise Unsupported("symbolic read: no cells")
        return v

    def write(self, st, p, v, T, loc=None):
        if T.kind == "vector":
            et = T.elems[0]
            for i in range(T.n):
                self.write(st, Ptr(p.obj, iadd(p.off, i * et.size)), v.v[i] if isinstance(v, Agg) else UNDEF, et, loc)
            return
        if T.kind in ("struct", "array"):
            offs = T.offs if T.kind == "struct" else [i * T.elems[0].size for i in range(T.n)]
            els = T.elems if T.kind == "struct" else T.elems * T.n
            for o, e, i in zip(offs, els, range(T.n)):
                self.write(st, Ptr(p.obj, iadd(p.off, o)), v.v[i] if isinstance(v, Agg) else UNDEF, e, loc)
            return
        k = kind_of(T)
        if T.kind == "int" and T.w == 1:
            v = ite(v, 1, 0) if not isinstance(v, Undef) else v
        if T.kind == "int" and T.w > 64:
            if v == 0:
                for j in range(0, T.w // 8, 8):
                    self.write_k(st, Ptr(p.obj, iadd(p.off, j)), 0, "i64", loc)
                return
            raise Unsupported("wide integer store")
        self.write_k(st, p, v, k, loc)

    def write_k(self, st, p, v, k, loc=None):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        size = KSIZE[k]
        idx, fo = self.chk_bounds(st, p, size, loc, "write")
        obj = p.obj
        if isinstance(v, Bits) and v.ty == "group":
            for o, cc in v.val[1]:
                self.write_k(st, Ptr(obj, iadd(p.off, o)), cc[2], cc[1], loc)
            return
        if obj.kind == "seq":
            if isinstance(v, Undef):
                return
            f = self.field_at(obj, fo, k)
            v = self.conv(v, k, f)
            if isinstance(v, (Ptr, PtrInt, Bits, Undef, FnPtr)):
                raise Unsupported("storing %r in a sequence" % (v,))
            a = self.arr(st, obj, fo)
            if isinstance(v, (bool, z3.BoolRef)):
                v = ite(v, 1, 0)
            zv = ZR(v) if ksort(f) == RealS else Z(v)
            st.wr(obj).arrays[fo] = z3.Store(a, Z(idx), zv)
            return
        if not isinstance(fo, int):
            offs = self.sym_offsets(obj, fo, k)
            for o in offs:
                self.read_cell(st, obj, st.os(obj), o, k)
            w = st.wr(obj)
            for o in offs:
                c = w.cells.get(o)
                old = self.conv(c[2], c[1], k) if c else self.fresh_kind(k, "uninit", st)
                w.cells[o] = (size, k, ite(cmp_i("eq", fo, o), v, old))
            return
        w = st.wr(obj)
        c = w.cells.get(fo)
        if isinstance(v, Bits) and KSIZE.get(v.ty) == size:
            v, k = v.val, v.ty
        if c is None or c[0] != size:
            for o2 in list(w.cells):
                c2 = w.cells[o2]
                if o2 < fo + size and fo < o2 + c2[0]:
                    if fo <= o2 and o2 + c2[0] <= fo + size:
                        del w.cells[o2]
                    elif isinstance(c2[2], int) and c2[1][0] == "i":
                        del w.cells[o2]
                        for b in range(c2[0]):
                            if not (fo <= o2 + b < fo + size):
                                by = (c2[2] >> (8 * b)) & 255
                                w.cells[o2 + b] = (1, "i8", by - 256 if by > 127 else by)
                    else:
                        raise Unsupported("partial overwrite of %s+%d" % (obj.name, fo))
        if isinstance(v, PtrInt) and k == "i64":
            v, k = v.ptr, "ptr"
        w.cells[fo] = (size, k, v)

    def copy_bytes(self, st, dst, src, n, loc=None):
        """memcpy/memmove of n bytes (n constant, or a whole number of sequence elements)"""
        if isinstance(n, int) and n == 0:
            return
        so, do = src.obj, dst.obj
        if so is None or do is None:
            if self.quick.valid(st.pc, cmp_i("eq", n, 0)):
                return
            raise Unsupported("memcpy with null pointer")
        if so.kind == "seq" and do.kind == "seq":
            if so.stride != do.stride:
                raise Unsupported("memcpy between sequences of different element types")
            i, fi = self.split(so, src.off)
            j, fj = self.split(do, dst.off)
            m = lin_div(n, so.stride)
            if m is not None and fi == 0 and fj == 0:
                self.seq_copy(st, do, j, so, i, m, loc)
                return
        if not isinstance(n, int):
            raise Unsupported("memcpy of symbolic size")
        if so.kind == "blob" and do.kind == "blob":
            if not isinstance(src.off, int) or not isinstance(dst.off, int):
                raise Unsupported("memcpy at symbolic offset")
            self.oblige(st, "in-bounds copy", band(src.off >= 0, src.off + n <= so.size, dst.off >= 0, dst.off + n <= do.size), loc, "bounds")
            ss = st.os(so)
            delta = dst.off - src.off
            moved = {o + delta: c for o, c in ss.cells.items() if src.off <= o and o + c[0] <= src.off + n}
            for o, c in ss.cells.items():
                if (o < src.off < o + c[0]) or (o < src.off + n < o + c[0]):
                    raise Unsupported("memcpy splits a cell")
            w = st.wr(do)
            for o in list(w.cells):
                if o < dst.off + n and dst.off < o + w.cells[o][0]:
                    if o >= dst.off and o + w.cells[o][0] <= dst.off + n:
                        del w.cells[o]
                    else:
                        raise Unsupported("memcpy splits a destination cell")
            w.cells.update(moved)
            w.bases = w.bases + ((dst.off, dst.off + n, so, ss, -delta),)
            return
        # element <-> blob
        if so.kind == "seq":
            i, fo = self.split(so, src.off)
            fs = [(f, k) for f, k in so.fields.items() if fo <= f < fo + n]
            if fo + n > so.stride:
                raise Unsupported("memcpy crosses elements")
            for f, k in fs:
                v = self.read_k(st, Ptr(so, iadd(src.off, f - fo)), k, loc)
                self.write_k(st, Ptr(do, iadd(dst.off, f - fo)), v, k, loc)
            return
        if do.kind == "seq":
            j, fo = self.split(do, dst.off)
            if fo + n > do.stride:
                raise Unsupported("memcpy crosses elements")
            for f, k in do.fields.items():
                if fo <= f < fo + n:
                    v = self.read_k(st, Ptr(so, iadd(src.off, f - fo)), k, loc)
                    self.write_k(st, Ptr(do, iadd(dst.off, f - fo)), v, k, loc)
            return
        raise Unsupported("memcpy %s -> %s" % (so.kind, do.kind))

    def seq_copy(self, st, do, j, so, i, m, loc=None):
        """do[j..j+m) := so[i..i+m)"""
        ns, nd = st.os(so).n, st.os(do).n
        self.oblige(st, "in-bounds range copy", bor(cmp_i("le", m, 0), band(cmp_i("ge", i, 0), cmp_i("le", iadd(i, m), ns), cmp_i("ge", j, 0), cmp_i("le", iadd(j, m), nd))), loc, "bounds")
        whole = isinstance(j, int) and j == 0 and isinstance(i, int) and i == 0
        new = {}
        for f in so.fields:
            if do.fields.get(f) != so.fields[f]:
                raise Unsupported("field layout mismatch in copy")
            a, b = self.arr(st, so, f), self.arr(st, do, f)
            k = z3.Int("k!cp")
            if whole and self.quick.valid(st.pc, cmp_i("ge", m, nd)):
                new[f] = a
                continue
            sh = isub(i, j)
            new[f] = z3.Lambda([k], z3.If(z3.And(k >= Z(j), k < Z(iadd(j, m))), z3.Select(a, lin_norm(k + Z(sh))), z3.Select(b, k)))
            new[f] = self.name_array(st, new[f], do, f, (j, m, a, b, sh))
        w = st.wr(do)
        w.arrays.update(new)

    def name_array(self, st, lam, obj, f, info):
        """introduce a fresh array with pointwise axioms instead of a lambda (friendlier to the solvers)"""
        j, m, a, b, sh = info
        r = z3.Array(self.fresh(obj.name.split("!")[0] + ".c%d" % f), IntS, a.sort().range())
        k = z3.Int("k!c")
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= Z(j), k < Z(iadd(j, m))), z3.Select(r, k) == z3.Select(a, Z(lin_norm(k + Z(sh))))), patterns=[z3.Select(r, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Not(z3.And(k >= Z(j), k < Z(iadd(j, m)))), z3.Select(r, k) == z3.Select(b, k)), patterns=[z3.Select(r, k)]))
        return r

    def memset(self, st, p, byte, n, loc=None):
        if isinstance(n, int) and n == 0:
            return
        if p.obj is None:
            if self.quick.valid(st.pc, cmp_i("eq", n, 0)):
                return
            raise Unsupported("memset null")
        if p.obj.kind == "blob" and isinstance(n, int) and byte == 0:
            w = st.wr(p.obj)
            for o in list(w.cells):
                if o < p.off + n and p.off < o + w.cells[o][0]:
                    del w.cells[o]
            w.bases = w.bases + ((p.off, p.off + n, "zero", None, 0),)
            return
        if p.obj.kind == "seq":
            i, fo = self.split(p.obj, p.off)
            m = lin_div(n, p.obj.stride)
            if m is not None and fo == 0:
                nd = st.os(p.obj).n
                self.oblige(st, "in-bounds memset", bor(cmp_i("le", m, 0), band(cmp_i("ge", i, 0), cmp_i("le", iadd(i, m), nd))), loc, "bounds")
                for f, k in p.obj.fields.items():
                    if isinstance(byte, int) and byte == 0:
                        val = z3.RealVal(0) if ksort(k) == RealS else z3.IntVal(0)
                    elif k == "i8":
                        val = Z(byte)
                    else:
                        raise Unsupported("memset pattern")
                    self.fill(st, p.obj, f, i, m, val)
                return
        raise Unsupported("memset")

    def fill(self, st, obj, f, i, m, val):
        b = self.arr(st, obj, f)
        r = z3.Array(self.fresh(obj.name.split("!")[0] + ".f%d" % f), IntS, b.sort().range())
        k = z3.Int("k!f")
        st.assume(z3.ForAll([k], z3.Select(r, k) == z3.If(z3.And(k >= Z(i), k < Z(iadd(i, m))), val, z3.Select(b, k)), patterns=[z3.Select(r, k)]))
        st.wr(obj).arrays[f] = r

    # ---------- globals
    def global_ptr(self, name):
        if name in self.globals:
            return Ptr(self.globals[name], 0)
        T, init, const = self.mod.global_init(name)
        if init is None:
            o = Obj("@" + name, "opaque")
        else:
            o = Obj("@" + name, "blob", size=T.size, lazy=not const)
            o.tag = ("global", init, T)
        self.globals[name] = o
        return Ptr(o, 0)

    def const_cells(self, c, T, base, cells):
        if c.kind in ("undef",):
            return
        if T.kind == "array":
            if c.kind == "zero":
                for i in range(min(T.n, 4096)):
                    self.const_cells(llvmc.Const("zero", T.elems[0]), T.elems[0], base + i * T.elems[0].size, cells)
                return
            for i, x in enumerate(c.ops):
                self.const_cells(x, T.elems[0], base + i * T.elems[0].size, cells)
            return
        if T.kind == "struct":
            for i, (o, e) in enumerate(zip(T.offs, T.elems)):
                self.const_cells(c.ops[i] if c.kind == "agg" else llvmc.Const("zero", e), e, base + o, cells)
            return
        if T.kind == "vector":
            return
        if c.kind == "zero":
            c = llvmc.Const("int" if T.kind == "int" else "fp" if T.kind in ("double", "float") else "null", T, 0)
        v = self.cval(c)
        if T.kind == "int" and T.w == 1:
            v = 1 if v else 0
        cells[base] = (T.size, kind_of(T), v)

    def ensure_global(self, st, obj):
        if obj.tag and obj.tag[0] == "global" and obj.id not in st.mem:
            s = OS()
            self.const_cells(obj.tag[1], obj.tag[2], 0, s.cells)
            st.mem[obj.id] = s

    # ---------- constants
    def cval(self, c):
        k, T = c.kind, c.ty
        if k == "int":
            if T.w == 1:
                return bool(c.val)
            v = c.val
            return v - (1 << T.w) if v >= (1 << (T.w - 1)) else v
        if k == "fp":
            import math
            if math.isinf(c.val) or math.isnan(c.val):
                return self.special_fp(c.val)
            return Fraction(c.val)
        if k == "null":
            return NULL
        if k == "undef":
            if T.kind in ("struct", "vector", "array"):
                n = T.n
                return Agg([UNDEF] * n)
            return UNDEF
        if k == "zero":
            if T.kind in ("struct",):
                return Agg([self.cval(llvmc.Const("zero", e)) for e in T.elems])
            if T.kind in ("vector", "array"):
                return Agg([self.cval(llvmc.Const("zero", T.elems[0])) for _ in range(T.n)])
            return {"int": 0, "double": Fraction(0), "float": Fraction(0), "ptr": NULL}[T.kind] if not (T.kind == "int" and T.w == 1) else False
        if k == "func":
            return FnPtr(c.val)
        if k == "global":
            return self.global_ptr(c.val)
        if k == "agg":
            return Agg([self.cval(x) for x in c.ops])
        if k == "expr":
            ops = [self.cval(x) for x in c.ops]
            if c.opc == "gep":
                return self.gep(ops[0], ops[1:], c.extra)
            if c.opc == "ptrtoint":
                return PtrInt(ops[0])
            if c.opc in ("bitcast", "inttoptr"):
                return ops[0]
            if c.opc == "sub" and all(isinstance(o, PtrInt) for o in ops):
                return isub(ops[0].ptr.off, ops[1].ptr.off)
        raise Unsupported("constant %s %s" % (k, c.opc))

    def special_fp(self, v):
        import math
        if math.isnan(v):
            raise Unsupported("NaN constant")
        # infinity: a real larger than every finite double; used only in comparisons
        big = Fraction(10) ** 400
        self.notes.add("infinity constant modelled as 10^400")
        return big if v > 0 else -big

    def val(self, st, o):
        if isinstance(o, llvmc.Ref):
            return st.env[o.id]
        return self.cval(o)

    # ---------- gep
    def gep(self, p, idx, T):
        if isinstance(p, Undef):
            return UNDEF
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        off = p.off
        off = iadd(off, imul(idx[0], T.size))
        cur = T
        for i in idx[1:]:
            if cur.kind == "struct":
                off = iadd(off, cur.offs[i])
                cur = cur.elems[i]
            else:
                e = cur.elems[0]
                off = iadd(off, imul(i, e.size))
                cur = e
        if p.obj is None and isinstance(off, int):
            return Ptr(None, off)
        return Ptr(p.obj, off)

    # ---------- integer semantics
    def in_range(self, st, e, w):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(e, int):
            return lo <= e <= hi
        l, h = self.rng.of(e)
        if l is not None and h is not None and lo <= l and h <= hi:
            return True
        return self.quick.valid(st.pc, z3.And(e >= lo, e <= hi))

    def wrap(self, st, e, w, single=True):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(e, int):
            e &= (1 << w) - 1
            return e - (1 << w) if e > hi else e
        if self.in_range(st, e, w):
            return e
        if single:
            return z3.If(e > hi, e - (1 << w), z3.If(e < lo, e + (1 << w), e))
        return (e - lo) % (1 << w) + lo

    def nonneg(self, st, e):
        if isinstance(e, int):
            return e >= 0
        l, h = self.rng.of(e)
        if l is not None and l >= 0:
            return True
        return self.quick.valid(st.pc, e >= 0)

    def unsigned(self, st, e, w):
        if isinstance(e, int):
            return e if e >= 0 else e + (1 << w)
        if self.nonneg(st, e):
            return e
        return z3.If(e < 0, e + (1 << w), e)

    def arith(self, st, op, a, b, w, nsw, nuw, loc):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if w == 1:
            if op in ("add", "sub"):
                return self.bxor(a, b)
            if op == "mul":
                return band(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, NegPtr) or isinstance(b, NegPtr):
            if op == "add":
                if isinstance(a, NegPtr):
                    a, b = b, a
                if isinstance(a, PtrInt):
                    return self.pdiff(a.ptr, b.ptr)
                if not isinstance(a, (NegPtr, Ptr)):
                    return NegPtr(Ptr(b.ptr.obj, isub(b.ptr.off, a)))
            if op == "sub" and isinstance(a, NegPtr) and not isinstance(b, (NegPtr, PtrInt, Ptr)):
                return NegPtr(Ptr(a.ptr.obj, iadd(a.ptr.off, b)))
            raise Unsupported("pointer arithmetic")
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == "sub" and isinstance(b, PtrInt) and not isinstance(a, (PtrInt, Ptr)):
                return NegPtr(Ptr(b.ptr.obj, isub(b.ptr.off, a)))
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.pdiff(a.ptr, b.ptr)
            if op == "add" and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                return PtrInt(Ptr(a.ptr.obj, iadd(a.ptr.off, b)))
            if op == "add" and isinstance(b, PtrInt) and not isinstance(a, PtrInt):
                return PtrInt(Ptr(b.ptr.obj, iadd(b.ptr.off, a)))
            if op == "sub" and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.ptr.obj, isub(a.ptr.off, b)))
            raise Unsupported("pointer arithmetic")
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported("arithmetic on punned bits")
        e = {"add": iadd, "sub": isub, "mul": imul}[op](a, b)
        if nsw:
            if isinstance(e, int) or not self.ub_overflow or self.in_range(st, e, w):
                if isinstance(e, int):
                    return self.wrap(st, e, w)
                return e
            self.oblige(st, "no signed overflow", z3.And(e >= -(1 << (w - 1)), e <= (1 << (w - 1)) - 1), loc, "overflow")
            return e
        return self.wrap(st, e, w, op != "mul")

    def bxor(self, a, b):
        if isinstance(a, bool):
            return bnot(b) if a else b
        if isinstance(b, bool):
            return bnot(a) if b else a
        return z3.Xor(a, b)

    def divrem(self, st, op, a, b, w, loc):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        self.oblige(st, "division by zero", cmp_i("ne", b, 0), loc, "div")
        if op[0] == "u":
            a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
            if isinstance(a, int) and isinstance(b, int):
                return self.wrap(st, a // b if op == "udiv" else a % b, w)
            if op == "udiv" and isinstance(b, int):
                e = lin_div(a, b)
                if e is not None:
                    return e
            r = Z(a) / Z(b) if op == "udiv" else Z(a) % Z(b)
            return self.wrap(st, r, w)
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            return self.wrap(st, q if op == "sdiv" else a - b * q, w)
        if isinstance(b, int) and op == "sdiv":
            e = lin_div(a, b)
            if e is not None:
                return e
        za, zb = Z(a), Z(b)
        if self.nonneg(st, a) and self.nonneg(st, b):
            return za / zb if op == "sdiv" else za % zb
        # truncated division
        q = z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / (-zb))), z3.If(zb > 0, -((-za) / zb), (-za) / (-zb)))
        return q if op == "sdiv" else za - zb * q

    def shift(self, st, op, a, b, w, loc, nsw=False):
        if isinstance(a, PtrInt):
            raise Unsupported("shift of pointer")
        if isinstance(a, Bits):
            raise Unsupported("shift of bits")
        if isinstance(a, Undef):
            return UNDEF
        if not isinstance(b, int):
            raise Unsupported("shift by a variable")
        if op == "shl":
            e = imul(a, 1 << b)
            if nsw and not isinstance(e, int):
                if not self.in_range(st, e, w):
                    self.oblige(st, "no signed overflow (shl)", z3.And(e >= -(1 << (w - 1)), e <= (1 << (w - 1)) - 1), loc, "overflow")
                return e
            return self.wrap(st, e, w, False)
        if op == "lshr":
            a = self.unsigned(st, a, w)
        if isinstance(a, int):
            return self.wrap(st, a >> b, w)
        e = lin_div(a, 1 << b)
        if e is not None:
            return e
        return a / z3.IntVal(1 << b)

    def pdiff(self, a, b):
        if a.obj is b.obj:
            return isub(a.off, b.off)
        if a.obj is None or b.obj is None:
            raise Unsupported("null pointer difference")
        raise Unsupported("difference of pointers into different objects")

    def rdiv_inf(self, a, b):
        """division with x/0 = +-1e400 (standing for infinity); 0/0 unspecified"""
        if isc(b) and b != 0:
            return rdiv(a, b)
        inf = z3.RealVal(10 ** 400)
        a, b = ZR(a), ZR(b)
        return z3.If(b == 0, z3.If(a > 0, inf, z3.If(a < 0, -inf, a / b)), a / b)

    def bitop(self, st, op, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if w == 1:
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            return self.bxor(a, b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(b, PtrInt):
                a, b = b, a
            if op == "xor" and isinstance(b, int) and b in (-1, (1 << w) - 1):
                return NegPtr(Ptr(a.ptr.obj, iadd(a.ptr.off, 1)))
            if op == "and" and isinstance(b, int) and 0 <= b <= 63:
                self.notes.add("heap/stack pointers assumed suitably aligned")
                if isinstance(a.ptr.off, int):
                    return a.ptr.off & b
                return 0
            raise Unsupported("bit operation on pointer (%s %s %s)" % (op, a, b))
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            x, y = a & m, b & m
            return self.wrap(st, {"and": x & y, "or": x | y, "xor": x ^ y}[op], w)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            m = b & ((1 << w) - 1)
            if op == "and":
                if m == 0:
                    return 0
                if (m & (m + 1)) == 0:      # low mask 2^k-1
                    if m == (1 << w) - 1:
                        return a
                    r = Z(a) % (m + 1)
                    l, h = self.rng.of(a)
                    if l is not None and l >= 0 and h is not None and h <= m:
                        return a
                    return self.wrap(st, r, w)
                inv = ((1 << w) - 1) ^ m
                if (inv & (inv + 1)) == 0:  # high mask: clear low bits
                    return isub(a, Z(a) % (inv + 1))
                if m & (m - 1) == 0 and m < (1 << (w - 1)):
                    return ite((Z(a) / m) % 2 == 1, m, 0)
            if op == "xor":
                if m == (1 << w) - 1:
                    return isub(-1, a)
            if op == "or":
                if m == 0:
                    return a
                if (m & (m + 1)) == 0:
                    return iadd(isub(a, Z(a) % (m + 1)), m)
                # disjoint or: low bits of a known to be zero
                lo = m & -m
                if self.quick.valid(st.pc, z3.And(a >= 0, a < lo)):
                    return self.wrap(st, iadd(a, m), w)
                if m < (1 << (w - 1)) and self.quick.valid(st.pc, Z(a) % (1 << m.bit_length()) == 0):
                    return iadd(a, m)
        raise Unsupported("bit operation %s on symbolic values" % op)

    def ucmp(self, st, p, a, b, w):
        na, nb = self.nonneg(st, a), self.nonneg(st, b)
        s = {"ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}[p]
        if na and nb:
            return cmp_i(s, a, b)
        return cmp_i(s, self.unsigned(st, a, w), self.unsigned(st, b, w))

    def icmp(self, st, p, a, b, T):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fbool("undef")
        if T.kind == "ptr" or isinstance(a, (Ptr, PtrInt, FnPtr)) or isinstance(b, (Ptr, PtrInt, FnPtr)):
            if isinstance(a, PtrInt):
                a = a.ptr
            if isinstance(b, PtrInt):
                b = b.ptr
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return same if p == "eq" else not same
            if a.obj is b.obj:
                q = {"eq": "eq", "ne": "ne", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge"}[p]
                return cmp_i(q, a.off, b.off)
            if p == "eq":
                return False
            if p == "ne":
                return True
            raise Unsupported("ordering of pointers into different objects")
        if T.kind == "int" and T.w == 1:
            if p == "eq":
                return bnot(self.bxor(a, b))
            if p == "ne":
                return self.bxor(a, b)
            raise Unsupported("i1 icmp")
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported("icmp on punned bits")
        if p in ("eq", "ne"):
            return cmp_i(p, a, b)
        if p[0] == "s":
            return cmp_i(p[1:], a, b)
        return self.ucmp(st, p, a, b, T.w)

    def fcmp(self, st, p, a, b):
        if p == "true":
            return True
        if p == "false":
            return False
        if p == "ord":
            self.notes.add("floating point values are finite mathematical reals (no NaN, no rounding)")
            return True
        if p == "uno":
            self.notes.add("floating point values are finite mathematical reals (no NaN, no rounding)")
            return False
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fbool("undef")
        q = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le",
             "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}[p]
        return cmp_r(q, a, b)

    # ---------- instructions
    def step(self, st, I):
        op = I.op
        loc = I.loc
        V = lambda i: self.val(st, I.ops[i])
        if op in ("add", "sub", "mul"):
            if I.ty.kind == "vector":
                raise Unsupported("integer vector op")
            return self.arith(st, op, V(0), V(1), I.ty.w, I.x["nsw"], I.x["nuw"], loc)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = V(0), V(1)
            f = {"fadd": radd, "fsub": rsub, "fmul": rmul, "fdiv": self.rdiv_inf if self.inf_div else rdiv}[op]
            if I.ty.kind == "vector":
                return Agg([f(x, y) for x, y in zip(a.v, b.v)])
            if isinstance(a, Undef) or isinstance(b, Undef):
                return self.freal("undef")
            if isinstance(a, Bits) or isinstance(b, Bits):
                raise Unsupported("fp op on punned bits")
            return f(a, b)
        if op == "fneg":
            a = V(0)
            if isinstance(a, Agg):
                return Agg([rneg(x) for x in a.v])
            return rneg(a)
        if op in ("udiv", "sdiv", "urem", "srem"):
            return self.divrem(st, op, V(0), V(1), I.ty.w, loc)
        if op in ("shl", "lshr", "ashr"):
            return self.shift(st, op, V(0), V(1), I.ty.w, loc, I.x.get("nsw", False))
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, V(0), V(1), I.ty.w)
        if op == "icmp":
            return self.icmp(st, I.x["pred"], V(0), V(1), I.ops[0].ty)
        if op == "fcmp":
            return self.fcmp(st, I.x["pred"], V(0), V(1))
        if op == "alloca":
            T = I.x["ty"]
            n = self.val(st, I.ops[0])
            o = self.new_blob("alloca", T.size * (n if isinstance(n, int) else 1))
            st.wr(o)
            return Ptr(o, 0)
        if op == "load":
            p = V(0)
            if isinstance(p, Ptr) and p.obj is not None:
                self.ensure_global(st, p.obj)
            return self.read(st, p, I.ty, loc)
        if op == "store":
            p = V(1)
            if isinstance(p, Ptr) and p.obj is not None:
                self.ensure_global(st, p.obj)
            self.write(st, p, V(0), I.ops[0].ty, loc)
            return None
        if op == "gep":
            return self.gep(V(0), [V(i) for i in range(1, len(I.ops))], I.x["ty"])
        if op in ("trunc", "zext", "sext"):
            a = V(0)
            sw, dw = I.ops[0].ty.w, I.ty.w
            if isinstance(a, (Undef, PtrInt)):
                if isinstance(a, PtrInt):
                    raise Unsupported("resizing pointer")
                return a
            if op == "trunc":
                if isinstance(a, Bits):
                    raise Unsupported("trunc of bits")
                if dw == 1:
                    return self.to_bool(a)
                return self.wrap(st, a, dw, False)
            if sw == 1:
                return ite(a, 1 if op == "zext" else -1, 0)
            if isinstance(a, Bits):
                raise Unsupported("ext of bits")
            return a if op == "sext" else self.unsigned(st, a, sw)
        if op in ("fptrunc", "fpext"):
            if op == "fptrunc":
                self.notes.add("float/double conversions and float storage treated as exact")
            return V(0)
        if op in ("sitofp", "uitofp"):
            a = V(0)
            if isinstance(a, Undef):
                return self.freal("undef")
            if I.ops[0].ty.w == 1:
                return ite(a, Fraction(1 if op == "uitofp" else -1), Fraction(0))
            if op == "uitofp":
                a = self.unsigned(st, a, I.ops[0].ty.w)
            return Fraction(a) if isinstance(a, int) else z3.ToReal(a)
        if op in ("fptosi", "fptoui"):
            a = V(0)
            w = I.ty.w
            if isinstance(a, Fraction):
                import math
                return self.wrap(st, math.trunc(a), w)
            r = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if op == "fptoui":
                lo, hi = 0, (1 << w) - 1
            self.oblige(st, "float-to-int conversion in range", z3.And(r >= lo, r <= hi), loc, "overflow")
            v = self.fint("fptosi", None, lo, hi)
            st.assume(v == r)
            if op == "fptoui":
                return self.wrap(st, v, w)
            return v
        if op == "ptrtoint":
            a = V(0)
            return PtrInt(a) if isinstance(a, Ptr) else a
        if op == "inttoptr":
            a = V(0)
            if isinstance(a, PtrInt):
                return a.ptr
            if isinstance(a, int):
                return Ptr(None, a)
            raise Unsupported("inttoptr")
        if op in ("bitcast", "freeze"):
            if op == "freeze":
                return V(0)
            a = V(0)
            sk, dk = kind_of(I.ops[0].ty), kind_of(I.ty)
            if sk and dk:
                return self.conv(a, sk, dk)
            raise Unsupported("bitcast")
        if op == "extractvalue":
            a = V(0)
            for i in I.x["idx"]:
                if isinstance(a, Undef):
                    return UNDEF
                a = a.v[i]
            return a
        if op == "insertvalue":
            def ins(a, idx, v, T):
                if not idx:
                    return v
                if isinstance(a, Undef):
                    a = Agg([UNDEF] * T.n)
                r = list(a.v)
                r[idx[0]] = ins(r[idx[0]], idx[1:], v, T.elems[idx[0]] if T.kind == "struct" else T.elems[0])
                return Agg(r)
            return ins(V(0), I.x["idx"], V(1), I.ty)
        if op == "extractelement":
            a, i = V(0), V(1)
            return a.v[i] if not isinstance(a, Undef) else UNDEF
        if op == "insertelement":
            a, v, i = V(0), V(1), V(2)
            r = list(a.v) if isinstance(a, Agg) else [UNDEF] * I.ty.n
            r[i] = v
            return Agg(r)
        if op == "shufflevector":
            raise Unsupported("shufflevector")
        raise Unsupported("instruction " + op)

    # ---------- running
    def run_fn(self, F, args, st, depth=0):
        if depth > 40:
            raise Unsupported("call depth")
        saved = st.env
        st.env = {}
        for (i, T, sr, bv), a in zip(F.args, args):
            if bv is not None and isinstance(a, Ptr):
                o = self.new_blob("byval", bv.size)
                st.wr(o)
                self.copy_bytes(st, Ptr(o, 0), a, bv.size)
                a = Ptr(o, 0)
            st.env[i] = a
        try:
            res = self.run([(F.blocks[0], 0, st)], F, None, depth)
        except Unsupported as e:
            if len(getattr(e, "__notes__", [])) < 8:
                e.add_note("in " + F.demangled[:150])
            raise
        if res.backs or res.exits:
            raise Unsupported("internal: loop escape")
        for s, _ in res.outs:
            s.env = saved if len(res.outs) == 1 else dict(saved)
        return res.outs

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for symbolic execution exceeded")

    def enter(self, b, prev, st):
        vals = []
        n = 0
        for I in b.instrs:
            if I.op != "phi":
                break
            n += 1
            v = None
            for bb, o in I.x["inc"]:
                if bb is prev:
                    v = self.val(st, o)
                    break
            vals.append((I.id, v))
        for i, v in vals:
            st.env[i] = v
        return n

    def run(self, entries, F, within, depth):
        res = Res()
        loops = find_loops(F)
        work = list(entries)

        def goto(s, cur, st):
            if within is not None:
                if s is within.header:
                    res.backs.append((cur, st))
                    return
                if s not in within.blocks:
                    res.exits.append((s, cur, st))
                    return
            L = loops.get(s)
            if L is not None:
                r = self.handle_loop(F, L, cur, st, depth)
                res.outs.extend(r.outs)
                for b, p, s2 in r.exits:
                    goto(b, p, s2)
                return
            n = self.enter(s, cur, st)
            work.append((s, n, st))

        while work:
            self.check_time()
            self.npaths += 1
            b, idx, st = work.pop()
            try:
                self.run_block(F, b, idx, st, goto, work, res, within, depth)
            except Dead:
                continue
        return res

    def branch(self, st, cond):
        """list of (bool, state) of feasible sides"""
        if isinstance(cond, Undef):
            cond = self.fbool("undef")
        if isinstance(cond, bool):
            return [(cond, st)]
        c = cond
        out = []
        t = self.quick.feasible(st.pc + [c])
        f = self.quick.feasible(st.pc + [bnot(c)])
        if t and f:
            s2 = st.fork()
            st.assume(c)
            s2.assume(bnot(c))
            return [(True, st), (False, s2)]
        if t:
            st.assume(c)
            return [(True, st)]
        if f:
            st.assume(bnot(c))
            return [(False, st)]
        return []

    def run_block(self, F, b, idx, st, goto, work, res, within, depth):
        ins = b.instrs
        n = len(ins)
        while idx < n:
            I = ins[idx]
            op = I.op
            if op == "phi":
                raise Unsupported("phi in block body")
            if op in ("call", "invoke"):
                outs = self.call(F, I, st, depth)
                if op == "call" and len(outs) == 1 and outs[0][1][0] == "ret":
                    st = outs[0][0]
                    if I.ty.kind != "void":
                        st.env[I.id] = outs[0][1][1]
                    idx += 1
                    continue
                for s, o in outs:
                    if o[0] == "ret":
                        if I.ty.kind != "void":
                            s.env[I.id] = o[1]
                        if op == "invoke":
                            goto(I.x["normal"], b, s)
                        else:
                            work.append((b, idx + 1, s))
                    elif o[0] == "throw" and op == "invoke":
                        s.exc = (o[1], o[2])
                        goto(I.x["unwind"], b, s)
                    else:
                        res.outs.append((s, o))
                return
            if op == "select":
                c = self.val(st, I.ops[0])
                x, y = self.val(st, I.ops[1]), self.val(st, I.ops[2])
                if isinstance(c, Undef):
                    c = self.fbool("undef")
                if isinstance(c, bool):
                    st.env[I.id] = x if c else y
                    idx += 1
                    continue
                r = self.select(c, x, y)
                if r is None:
                    for side, s in self.branch(st, c):
                        s.env[I.id] = x if side else y
                        work.append((b, idx + 1, s))
                    return
                st.env[I.id] = r
                idx += 1
                continue
            if op == "ret":
                res.outs.append((st, ("ret", self.val(st, I.ops[0]) if I.ops else None)))
                return
            if op == "br":
                if not I.ops:
                    goto(I.x["succs"][0], b, st)
                    return
                c = self.val(st, I.ops[0])
                if within is not None and not all(s in within.blocks for s in I.x["succs"]):
                    if isinstance(c, bool):
                        within.conc = True
                    elif not isinstance(c, Undef) and any(s in within.blocks for s in I.x["succs"]):
                        within.stay.append(c if I.x["succs"][0] in within.blocks else bnot(c))
                sides = self.branch(st, c)
                tgt = [(I.x["succs"][0] if side else I.x["succs"][1], s) for side, s in sides]
                for t, s in tgt:
                    goto(t, b, s)
                return
            if op == "switch":
                v = self.val(st, I.ops[0])
                w = I.ops[0].ty.w
                rest = st
                for cv, blk in I.x["cases"]:
                    cc = cv - (1 << w) if w > 1 and cv >= (1 << (w - 1)) else cv
                    sides = self.branch(rest, cmp_i("eq", v, cc) if w > 1 else (v if cc else bnot(v)))
                    rest = None
                    for side, s in sides:
                        if side:
                            goto(blk, b, s)
                        else:
                            rest = s
                    if rest is None:
                        return
                goto(I.x["default"], b, rest)
                return
            if op == "unreachable":
                self.oblige(st, "unreachable code reached", False, I.loc)
                return
            if op == "landingpad":
                st.env[I.id] = self.landing(st, I)
                idx += 1
                continue
            if op == "resume":
                t, p = st.exc
                res.outs.append((st, ("throw", t, p)))
                return
            v = self.step(st, I)
            if I.ty.kind != "void":
                st.env[I.id] = v
            idx += 1
        raise Unsupported("block without terminator")

    def select(self, c, x, y):
        if isinstance(x, Undef):
            return y
        if isinstance(y, Undef):
            return x
        if isinstance(x, Agg) and isinstance(y, Agg):
            r = [self.select(c, a, b) for a, b in zip(x.v, y.v)]
            return None if any(e is None for e in r) else Agg(r)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is y.obj:
                return Ptr(x.obj, ite(c, x.off, y.off) if not (isinstance(x.off, int) and isinstance(y.off, int) and x.off == y.off) else x.off)
            return None
        if isinstance(x, (FnPtr, PtrInt, Bits, Ptr)) or isinstance(y, (FnPtr, PtrInt, Bits, Ptr)):
            return None
        if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
            if isinstance(x, bool):
                return bor(c, y) if x else band(bnot(c), y)
            if isinstance(y, bool):
                return bor(bnot(c), x) if y else band(c, x)
            return z3.If(c, x, y)
        return ite(c, x, y)

    # ---------- exceptions
    def typeid(self, n):
        return self.typeids.setdefault(n, len(self.typeids) + 1)

    def ti_name(self, g):
        n = g.obj.name
        assert n.startswith("@_ZTI"), n
        return llvmc.demangle([n[1:]])[n[1:]].replace("typeinfo for ", "")

    def landing(self, st, I):
        t, p = st.exc
        sel = 0
        for c in I.x["clauses"]:
            g = self.val(st, c)
            if isinstance(g, Agg):      # filter
                continue
            if g.obj is None:
                sel = self.typeid("catch-all")
                break
            n = self.ti_name(g)
            if n == t or n in EXC_PARENTS.get(t, []):
                sel = self.typeid(n)
                break
        return Agg([p, sel])

    # ---------- calls
    def call(self, F, I, st, depth):
        cal = I.x["callee"]
        f = self.val(st, cal)
        args = [self.val(st, o) if not (o.ty.kind == "metadata") else None for o in I.ops]
        if isinstance(f, FnPtr) and f.handler is not None:
            return self.norm(st, f.handler(self, st, I, args))
        if not isinstance(f, FnPtr):
            raise Unsupported("indirect call through %r" % (f,))
        return self.call_named(f.name, I, args, st, depth)

    def norm(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, ("ret", r))]

    def dispatch(self, name):
        d = self.dispatch_cache.get(name)
        if d is not None:
            return d
        G = self.mod.functions.get(name)
        dm = G.demangled if G else name
        d = None
        for c in self.contracts:
            if c.matches(dm):
                d = ("contract", c)
                break
        if d is None:
            # a container as return type of a function template is not an operation of the container
            skip = False
            m = re.match(r"std::(vector|unordered_map|map|deque)<", dm)
            if m and G is not None and G.has_body:
                import containers
                try:
                    skip = not containers.strip_head(dm, "std::" + m.group(1)).startswith("::")
                except (ValueError, IndexError):
                    pass
            for rx, h in self.intrinsics:
                if not skip and rx.search(dm):
                    d = ("intrinsic", h)
                    break
        if d is None:
            for rx in self.opaque:
                if rx.search(qualified(dm)):
                    d = ("opaque", None)
                    break
        if d is None:
            if G is not None and G.has_body:
                d = ("inline", self.mod.fn(name))
            else:
                d = ("unknown", None)
        self.dispatch_cache[name] = d
        return d

    def call_named(self, name, I, args, st, depth):
        kind, h = self.dispatch(name)
        G = self.mod.functions.get(name)
        dm = G.demangled if G else name
        if kind == "contract" and h is not self.cur:
            self.used_contracts.add(h.name)
            return h.apply(self, st, args, I)
        if kind == "contract" and h is self.cur:
            if G is not None and G.has_body:
                kind, h = "inline", self.mod.fn(name)
        if kind == "intrinsic":
            self.cur_dm, self.cur_name = dm, name
            self.used_models.add(getattr(h, "model", None) or h.__name__)
            return self.norm(st, h(self, st, I, args))
        if kind == "opaque":
            self.used_models.add("opaque: no effect on modelled state")
            return self.norm(st, self.opaque_call(st, I, args, dm))
        if kind == "inline":
            self.inlined.add(dm)
            return self.run_fn(h, args, st, depth + 1)
        raise Unsupported("call to unmodelled function " + dm)

    def opaque_call(self, st, I, args, dm):
        return self.fresh_of(I.ty, "opq", st)

    def throw(self, st, ti):
        return [(st, ("throw", ti, Ptr(Obj("exception", "opaque"), 0)))]

    # ---------- loops
    def handle_loop(self, F, L, prev, st, depth):
        import loops
        return loops.handle(self, F, L, prev, st, depth)
