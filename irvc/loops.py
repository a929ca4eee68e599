"""Loops: concrete unrolling when the exit tests are decided, otherwise cut at the header with an invariant.

Invariant = the largest inductive subset (Houdini) of candidates: generic ones (monotonicity, lockstep with the
iteration counter, the previous iteration's loop test) and the templates supplied by the contract being verified.
Whatever survives is re-checked as a recorded proof obligation (entry + preservation) in the final pass."""
import z3
import maps
import arith
from smt import *
from ex import Res, OS, Dead, kind_of, krange, ksort, KSIZE, Loop


class Item:
    """one havocked location"""

    def __init__(self, key, kind, sym, entry, put, get, base=0, disp=None):
        self.key, self.kind, self.sym, self.entry, self.put, self.get = key, kind, sym, entry, put, get
        self.base = base        # index of the entry position for pointers
        self.delta = None
        self.disp = disp

    def logical(self):
        """source-level index value of this item (pointers: element index)"""
        return iadd(self.base, self.sym) if self.kind == "ptr" else self.sym


WIDE = False     # also try invariant templates at cursor+1 and cursor-1 (second attempt, for differently written loops)


class Shift:
    def __init__(self, it, d):
        self.it, self.d = it, d

    def __getattr__(self, a):
        return getattr(self.it, a)

    def logical(self):
        return iadd(self.it.logical(), self.d)


class LoopCtx:
    def __init__(self, ex, L, st, items, T, prev_ctx):
        self.ex, self.L, self.st, self.items, self.T, self.outer = ex, L, st, items, T, prev_ctx

    def ints(self):
        r = [i for i in self.items if i.kind in ("int", "ptr")]
        if WIDE:
            r = r + [Shift(i, d) for i in r for d in (-1, 1)]
        return r


def syms_of(e, _c={}):
    """names of the constants in e (kept for every subterm: terms are shared a lot)"""
    if isc(e):
        return NONE
    r = _c.get(e.get_id())
    if r is not None:
        return r[1]
    todo = [e]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in _c:
            todo.pop()
            continue
        cs = [x.body()] if z3.is_quantifier(x) else x.children()
        new = [c for c in cs if c.get_id() not in _c]
        if new:
            todo.extend(new)
            continue
        todo.pop()
        if not cs:
            s = frozenset([x.decl().name()]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else NONE
        else:
            s = NONE
            for c in cs:
                t = _c[c.get_id()][1]
                if not t <= s:
                    s = t if s <= t else s | t
        _c[k] = (x, s)
    return _c[e.get_id()][1]


NONE = frozenset()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and same(a.off, b.off)
    if isinstance(a, PtrInt) and isinstance(b, PtrInt):
        return same(a.ptr, b.ptr)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isc(a) and isc(b):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Bits) and isinstance(b, Bits):
        if a.ty == "group" or b.ty == "group":
            return a.val is b.val
        return a.ty == b.ty and same(a.val, b.val)
    return False


def handle(ex, F, L, prev, st, depth):
    r = unroll(ex, F, L, prev, st, depth)
    if r is not None:
        return r
    if ex.bound is not None:
        return bounded(ex, F, L, prev, st, depth)
    return invariant(ex, F, L, prev, st, depth)


def unroll(ex, F, L, prev, st, depth):
    save, sconc = len(ex.obligs), getattr(L, "conc", False)
    res = Res()
    work = [(prev, st.fork())]
    total = 0
    ok = True
    while work:
        p, s = work.pop()
        total += 1
        if total > ex.max_unroll:
            ok = False
            break
        L.conc = False
        n = ex.enter(L.header, p, s)
        r = ex.run([(L.header, n, s)], F, L, depth)
        if not L.conc and r.backs:
            ok = False
            break
        res.outs += r.outs
        res.exits += r.exits
        work += r.backs
    L.conc = sconc
    if not ok:
        del ex.obligs[save:]
        return None
    return res


def bounded(ex, F, L, prev, st, depth):
    res = Res()
    work = [(prev, st, 0)]
    while work:
        p, s, k = work.pop()
        if k > ex.bound:
            ex.bounded_hit = True
            continue
        try:
            n = ex.enter(L.header, p, s)
            r = ex.run([(L.header, n, s)], F, L, depth)
        except Dead:
            continue
        res.outs += r.outs
        res.exits += r.exits
        work += [(a, b, k + 1) for a, b in r.backs]
    return res


# ------------------------------------------------------------------------------------------------ invariants
def mk_item(ex, key, entry, T, put, get, name):
    """entry: entry value; T: kind string of the location"""
    if isinstance(entry, (Ptr, PtrInt)):
        pi = isinstance(entry, PtrInt)
        p0 = entry.ptr if pi else entry
        if p0.obj is None or p0.obj.kind == "opaque":
            def get_same(s):
                v = get(s)
                if not same(v, entry):
                    raise Unsupported("loop-carried pointer changes its target")
                return None
            return Item(key, "fixed", None, None, lambda s: None, get_same)
        o = p0.obj
        unit = o.stride if o.kind == "seq" else (ex.ptr_units.get(key) or 8)
        d = z3.Int(ex.fresh("d." + name))
        ex.rng.set(d, -(1 << 60), 1 << 60)
        off0 = p0.off
        base = 0
        if o.kind == "seq":
            base = ex.split(o, off0)[0]

        def put_p(s):
            v = Ptr(o, iadd(off0, imul(d, unit)))
            put(s, PtrInt(v) if pi else v)

        def get_p(s):
            v = get(s)
            q = v.ptr if isinstance(v, PtrInt) else v
            if not isinstance(q, Ptr) or q.obj is not o:
                raise Unsupported("loop-carried pointer changes its target (%r -> %r)" % (entry, v))
            e = lin_div(isub(q.off, off0), unit)
            if e is None:
                if o.kind != "seq" and unit > 1:
                    ex.ptr_units[key] = {8: 4, 4: 1}[unit]
                    raise Retry()
                raise Unsupported("pointer step is not a whole element")
            return e
        it = Item(key, "ptr", d, 0, put_p, get_p, base)
        it.obj = o
        return it
    if T == "ptr" or isinstance(entry, (Undef, FnPtr, Bits)):
        if isinstance(entry, FnPtr):
            def get_same2(s):
                if not same(get(s), entry):
                    raise Unsupported("loop-carried function pointer")
            return Item(key, "fixed", None, None, lambda s: None, get_same2)
        if isinstance(entry, Bits):
            raise Unsupported("loop-carried punned value")
        if T == "ptr" or T is None:
            return Item(key, "undef", None, None, lambda s: put(s, UNDEF), lambda s: None)
    if isinstance(entry, Agg):
        raise Unsupported("loop-carried aggregate")
    if T in ("f64", "f32"):
        v = z3.Real(ex.fresh("h." + name))
        return Item(key, "real", v, None if isinstance(entry, Undef) else entry, lambda s: put(s, v), get)
    if T == "i1" or isinstance(entry, (bool, z3.BoolRef)):
        v = z3.Bool(ex.fresh("h." + name))
        return Item(key, "bool", v, None if isinstance(entry, Undef) else entry, lambda s: put(s, v), get)
    v = z3.Int(ex.fresh("h." + name))
    lo, hi = krange(T)
    ex.rng.set(v, lo, hi)
    it = Item(key, "int", v, None if isinstance(entry, Undef) else entry, lambda s: put(s, v), get)
    it.range = (lo, hi)
    return it


class Retry(Exception):
    pass


def build_items(ex, L, st, phis, mod):
    items = []
    for pid, T, e in phis:
        k = "i1" if T.kind == "int" and T.w == 1 else kind_of(T)

        def put(s, v, pid=pid):
            s.env[pid] = v

        def get(s, pid=pid):
            return s.env["phi", pid]
        items.append(mk_item(ex, ("phi", pid), e, k, put, get, "p"))
    shared = {}
    for key in mod:
        if key[0] == "n":
            obj = key[1]
            n0 = st.os(obj).n
            v = z3.Int(ex.fresh("n." + obj.name.split("!")[0]))
            ex.rng.set(v, 0, 1 << 60)

            def putn(s, _v, obj=obj, v=v):
                s.wr(obj).n = v
            it = Item(key, "int", v, n0, lambda s, obj=obj, v=v: setattr(s.wr(obj), "n", v), lambda s, obj=obj: s.os(obj).n)
            it.range = (0, 1 << 60)
            it.nonneg = True
            items.append(it)
            shared[obj.id] = it
    for key in mod:
        if key[0] == "cell":
            obj, off = key[1], key[2]
            s0 = st.os(obj)
            c = s0.cells.get(off)
            kk = mod[key]
            e = c[2] if c is not None else UNDEF
            if c is not None and isinstance(e, (bool, z3.BoolRef)):
                kk = "i1"
            # finish pointer of a vector: shares the element-count symbol
            if isinstance(e, Ptr) and e.obj is not None and e.obj.id in shared and e.obj.kind == "seq":
                itn = shared[e.obj.id]
                if same(lin_norm(e.off), lin_norm(imul(itn.entry, e.obj.stride))):
                    so = e.obj

                    def putf(s, obj=obj, off=off, so=so, v=itn.sym):
                        s.wr(obj).cells[off] = (8, "ptr", Ptr(so, imul(v, so.stride)))

                    def getf(s, obj=obj, off=off, so=so):
                        c = s.os(obj).cells.get(off)
                        if c is None or not isinstance(c[2], Ptr) or c[2].obj is not so or \
                           not same(lin_norm(c[2].off), lin_norm(imul(s.os(so).n, so.stride))):
                            raise Unsupported("vector size and end pointer diverge")
                        return None
                    items.append(Item(key, "fixed", None, None, putf, getf))
                    continue

            def put(s, v, obj=obj, off=off, kk=kk):
                if isinstance(v, Undef):
                    s.wr(obj).cells.pop(off, None)
                else:
                    s.wr(obj).cells[off] = (KSIZE[kk], kk if kk != "i1" else "i8", v)

            def get(s, obj=obj, off=off, kk=kk):
                c = s.os(obj).cells.get(off)
                if c is None:
                    return UNDEF
                if c[1] != kk and not (kk == "i1"):
                    return ex.conv(c[2], c[1], kk)
                return c[2]
            items.append(mk_item(ex, key, e, kk, put, get, "m"))
        elif key[0] == "arr":
            obj, f = key[1], key[2]
            a0 = ex.arr(st, obj, f)
            v = z3.Const(ex.fresh(obj.name.split("!")[0] + ".h%d" % f), a0.sort())

            def puta(s, obj=obj, f=f, v=v):
                s.wr(obj).arrays[f] = v

            def geta(s, obj=obj, f=f):
                return ex.arr(s, obj, f)
            it = Item(key, "arr", v, a0, puta, geta)
            it.obj, it.f = obj, f
            items.append(it)
        elif key[0] == "clear":
            obj = key[1]

            def putc(s, obj=obj):
                w = s.wr(obj)
                w.cells, w.bases = {}, ()
            items.insert(0, Item(key, "fixed", None, None, putc, lambda s: None))
    return items


def diff(ex, st, back, mod, known):
    """locations of pre-existing objects changed between the header state st and a back-edge state"""
    added = {}
    for oid, b in back.mem.items():
        if oid not in known:
            continue
        a = st.mem.get(oid)
        if a is b:
            continue
        obj = known[oid]
        if ("clear", obj) in mod:
            continue
        a = a or OS()
        if b.bases is not a.bases and b.bases != a.bases:
            if obj.lazy:
                raise Unsupported("region copy into an input object inside a loop")
            added[("clear", obj)] = None
            continue
        for off, c in b.cells.items():
            d = a.cells.get(off)
            if d is None and obj.lazy:
                try:
                    v = ex.read_cell(st, obj, st.os(obj), off, c[1])
                    d = st.os(obj).cells.get(off)
                except Unsupported:
                    d = None
            if d is None or d[0] != c[0] or not same(d[2], c[2]):
                key = ("cell", obj, off)
                if key not in mod:
                    if d is not None and d[0] != c[0]:
                        raise Unsupported("cell changes width in loop: %s+%d" % (obj.name, off))
                    k = d[1] if d is not None else c[1]
                    added[key] = "i1" if isinstance(c[2], (bool, z3.BoolRef)) and k == "i8" else k
        for f, x in b.arrays.items():
            y = a.arrays.get(f)
            if y is None:
                y = ex.arr(st, obj, f)
            if not x.eq(y) and ("arr", obj, f) not in mod:
                added[("arr", obj, f)] = None
        if b.n is not None and a.n is not None and not same(b.n, a.n) and ("n", obj) not in mod:
            added[("n", obj)] = None
    return added


def known_objs(ex, st):
    """objects reachable in the entry state (by id)"""
    known = {}

    def see(p):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.id not in known:
            known[p.obj.id] = p.obj
            ex.ensure_global(st, p.obj)
            work.append(p.obj)
        elif isinstance(p, PtrInt):
            see(p.ptr)
        elif isinstance(p, Agg):
            for x in p.v:
                see(x)
    work = []
    for v in list(st.env.values()):
        see(v)
    for o in list(ex.globals.values()):
        see(Ptr(o, 0))
    for o in list(ex.allobjs.values()):
        if o.id in st.mem:
            see(Ptr(o, 0))
    while work:
        o = work.pop()
        s = st.mem.get(o.id)
        if s is None:
            continue
        for c in s.cells.values():
            see(c[2])
        for q in o.inner.values():
            see(Ptr(q, 0)) if hasattr(q, "kind") else None
    return known


def run_body(ex, F, L, sH, depth, nphi):
    g0 = dict(sH.ghost)
    r = ex.run([(L.header, nphi, sH)], F, L, depth)
    for b, s in r.backs:
        maps.close_new(ex, s, g0)
        # evaluate header phis on the back edge
        for I in L.header.instrs:
            if I.op != "phi":
                break
            for bb, o in I.x["inc"]:
                if bb is b:
                    s.env["phi", I.id] = ex.val(s, o)
    return r


def invariant(ex, F, L, prev, st, depth):
    for attempt in range(6):
        try:
            return invariant1(ex, F, L, prev, st.fork(), depth)
        except Retry:
            continue
    raise Unsupported("loop: no pointer unit")


def invariant1(ex, F, L, prev, st, depth):
    loc = L.header.instrs[-1].loc
    nphi = ex.enter(L.header, prev, st)
    phis = []
    for I in L.header.instrs[:nphi]:
        phis.append((I.id, I.ty, st.env[I.id]))
    save_rec, save_ob = ex.recording, len(ex.obligs)
    ex.recording = False
    save_stack = ex.loop_stack
    T = z3.Int(ex.fresh("T"))
    ex.rng.set(T, 0, 1 << 60)

    def head(items):
        s = st.fork()
        for it in items:
            it.put(s)
            if getattr(it, "range", None):
                s.assume(z3.And(it.sym >= it.range[0], it.sym <= it.range[1]))
        s.assume(T >= 0)
        return s

    def back_vals(items, s):
        sub = []
        for it in items:
            v = it.get(s)
            if it.sym is None:
                continue
            if isinstance(v, Undef):
                v = ex.fresh_undef(it)
            if it.kind == "real":
                v = ZR(v)
            elif it.kind == "bool" and isinstance(v, int) and not isinstance(v, bool):
                v = bool(v)
            elif it.kind == "int" and isinstance(v, (bool, z3.BoolRef)):
                v = ite(v, 1, 0)
            if isinstance(v, (Ptr, Bits, PtrInt, Agg)):
                raise Unsupported("loop-carried %r" % (v,))
            sub.append((it.sym, Z(v)))
        return sub
    try:
        # ---- 1. what does the loop modify?
        mod = {}
        known = known_objs(ex, st)
        L.stay = []
        for rnd in range(12):
            items = build_items(ex, L, st, phis, mod)
            ex.loop_stack = save_stack + [LoopCtx(ex, L, None, items, T, None)]
            sH = head(items)
            base = sH.fork()
            L.stay = []
            r = run_body(ex, F, L, sH, depth, nphi)
            added = {}
            for b, s in r.backs:
                added.update(diff(ex, base, s, mod, known))
            if not added:
                break
            mod.update(added)
        else:
            raise Unsupported("loop: modified set does not stabilise")
        if not r.backs:
            # body never completes: run straight through, no invariant needed
            pass
        # ---- 2. candidates
        backs = [(s, back_vals(items, s)) for _, s in r.backs]
        for it in items:
            if it.kind in ("int", "ptr") and backs:
                ds = []
                for s, sub in backs:
                    v = dict((a.get_id(), b) for a, b in sub)[it.sym.get_id()]
                    v = unwrapped(decided(v, s))
                    d = isub(v if not z3.is_int_value(v) else v.as_long(), it.sym)
                    ds.append(d)
                if all(isinstance(d, int) for d in ds):
                    it.deltas = set(ds)
                    if len(set(ds)) == 1:
                        it.delta = ds[0]
                else:
                    it.deltas = None
        cands, facts = candidates(ex, L, base, items, T)
        ent = []
        for it in items:
            if it.sym is None:
                continue
            e = it.entry
            if e is None:
                e = ex.fresh_undef(it)
            elif it.kind == "real":
                e = ZR(e)
            elif it.kind == "bool" and isinstance(e, int) and not isinstance(e, bool):
                e = bool(e)
            ent.append((it.sym, Z(e)))
        ent.append((T, z3.IntVal(0)))
        keep = []
        efacts = [z3.substitute(Z(f), *ent) for f in facts]
        for nm, c in cands:
            g = z3.substitute(Z(c), *ent)
            if holds(ex, st.pc + efacts, g):
                keep.append((nm, c))
            else:
                ex.dropped.append((loc, "entry", nm))
        # ---- 3. Houdini
        for rnd in range(40):
            sH = head(items)
            sH.assume(*facts)
            sH.assume(*[c for _, c in keep])
            ex.loop_stack = save_stack + [LoopCtx(ex, L, sH, items, T, None)]
            start = sH.fork()
            L.stay = []
            r = run_body(ex, F, L, sH, depth, nphi)
            added = {}
            for b, s in r.backs:
                added.update(diff(ex, base, s, mod, known))
            if added:
                raise Unsupported("loop: modified set grew")
            drop = set()
            for b, s in r.backs:
                sub = back_vals(items, s) + [(T, T + 1)]
                bf = [z3.substitute(Z(f), *sub) for f in facts]
                for i, (nm, c) in enumerate(keep):
                    if i in drop:
                        continue
                    g = z3.substitute(Z(c), *sub)
                    if not holds(ex, s.pc + bf, g):
                        drop.add(i)
                        ex.dropped.append((loc, "preserve", nm))
            if not drop:
                break
            keep = [x for i, x in enumerate(keep) if i not in drop]
        else:
            raise Unsupported("loop: Houdini does not converge")
    finally:
        ex.recording = save_rec
        del ex.obligs[save_ob:]
        ex.loop_stack = save_stack
    # ---- 4. final pass with obligations
    if ex.recording:
        s0 = st.fork()
        s0.assume(*efacts)
        for nm, c in keep:
            ex.oblige(s0.fork(), "loop invariant holds initially: " + nm, z3.substitute(Z(c), *ent), loc, "inv-entry")
    sH = head(items)
    sH.assume(*facts)
    sH.assume(*[c for _, c in keep])
    ex.loop_stack = save_stack + [LoopCtx(ex, L, sH.fork(), items, T, None)]
    try:
        r = run_body(ex, F, L, sH, depth, nphi)
    finally:
        ex.loop_stack = save_stack
    for b, s in r.backs:
        if diff(ex, base, s, mod, known):
            raise Unsupported("loop: modified set grew")
        sub = back_vals(items, s) + [(T, T + 1)]
        if ex.recording:
            sb = s.fork()
            sb.assume(*[z3.substitute(Z(f), *sub) for f in facts])
            for nm, c in keep:
                try:
                    ex.oblige(sb.fork(), "loop invariant preserved: " + nm, z3.substitute(Z(c), *sub), loc, "inv-step")
                except Dead:
                    pass
    if ex.recording:
        ex.loops_done += 1
        ex.loop_log.append((loc, [nm for nm, _ in keep]))
    res = Res()
    res.outs, res.exits = r.outs, r.exits
    return res


def holds(ex, pc, g):
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    if has_quant(g):
        return ex.quick.valid(pc, g, True, ex.quant_rl) or arith.holds_by_cases(pc, g, ex.quick, ex.quant_rl)
    if ex.quick.valid(pc, g):
        return True
    if any(has_quant(p) for p in pc if not isinstance(p, bool)):
        if ex.quick.valid(pc, g, True, ex.quant_rl):
            return True
    return arith.nra(pc, g, ex.quick)


def decided(v, s):
    """v with the conditionals dropped whose condition the path has decided (a guess, as in unwrapped)"""
    yes, no = None, None
    while isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        if yes is None:
            yes, no = set(), set()
            for p in s.pc:
                if isinstance(p, bool):
                    continue
                for q in p.children() if z3.is_and(p) else (p,):
                    if z3.is_not(q):
                        no.add(q.arg(0).get_id())
                    else:
                        yes.add(q.get_id())
        c = v.arg(0)
        neg = z3.is_not(c)
        i = c.arg(0).get_id() if neg else c.get_id()
        t = True if i in yes else False if i in no else None
        if t is None:
            break
        v = v.arg(1) if t != neg else v.arg(2)
    return v


def unwrapped(v):
    """the value of ex.wrap before the wrap-around (only a guess for the per-iteration step; every candidate is checked)"""
    while isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int(v):
        a, b = v.arg(1), v.arg(2)
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            v = b
        elif isinstance(isub(a, b), int) and abs(isub(a, b)) in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            v = b
        else:
            break
    return v


def candidates(ex, L, sH, items, T):
    out, facts = [], []
    hs = set()
    for it in items:
        if it.sym is not None:
            hs.add(it.sym.decl().name())
    for it in items:
        if it.kind not in ("int", "ptr") or it.entry is None:
            continue
        v, e = it.sym, it.entry
        if it.delta is not None:
            if it.delta == 0:
                out.append(("const", v == Z(e)))
            else:
                out.append(("lockstep", v == Z(iadd(e, imul(T, it.delta)))))
        else:
            ds = getattr(it, "deltas", None)
            if ds:
                out.append(("low", v >= Z(iadd(e, imul(T, min(ds))))))
                out.append(("high", v <= Z(iadd(e, imul(T, max(ds))))))
            else:
                out.append(("mono+", v >= Z(e)))
                out.append(("mono-", v <= Z(e)))
        if getattr(it, "nonneg", False) or (it.delta is not None and it.delta < 0):
            out.append(("nonneg", v >= 0))
    # previous iteration's loop test
    lock = [(it.sym, it.sym - it.delta) for it in items if it.kind in ("int", "ptr") and it.delta]
    locks = {a.decl().name() for a, _ in lock}
    seen = set()
    for c in L.stay:
        if isinstance(c, bool):
            continue
        ss = syms_of(c)
        if not (ss & hs) or not ((ss & hs) <= locks) or c.get_id() in seen or has_quant(c):
            continue
        if any(x in ex.body_syms(sH) for x in ()):
            continue
        seen.add(c.get_id())
        p = z3.substitute(c, *lock)
        if post_head_symbol(ss, hs, sH, ex):
            continue
        out.append(("prev-test", z3.Or(T == 0, p)))
        q = c.arg(0) if z3.is_not(c) else c
        if (z3.is_not(c) and z3.is_eq(q) or z3.is_distinct(c)) and z3.is_int(q.arg(0)):
            out.append(("not past the end", q.arg(0) <= q.arg(1)))
            out.append(("not past the end", q.arg(0) >= q.arg(1)))
        # forall earlier iterations: the test (lockstep only)
    if WIDE:
        k = z3.Int("k!frame")
        for it in items:
            if it.kind != "arr" or it.entry is None or it.sym is None:
                continue
            for c in items:
                if c.kind in ("int", "ptr") and c.delta:
                    x = Z(c.logical())
                    far = k >= x if c.delta > 0 else k <= x
                    out.append(("frame: not reached yet, as before", z3.ForAll([k], z3.Implies(far, it.sym[k] == it.entry[k]), patterns=[it.sym[k]])))
    for t in ex.templates:
        lc = LoopCtx(ex, L, sH, items, T, ex.loop_stack[:-1])
        rs = t(lc)
        for x in rs:
            if x[0] == "fact":
                facts.append(x[1])
            else:
                if x[1] is True:
                    continue
                out.append((x[0], x[1]))
    return out, facts


def post_head_symbol(ss, hs, sH, ex):
    """does the expression mention symbols invented inside the loop body (names carry a fresh-counter)?"""
    lim = ex.head_mark(hs)
    for n in ss:
        if "!" in n and n not in hs:
            try:
                if int(n.rsplit("!", 1)[1]) > lim:
                    return True
            except ValueError:
                pass
    return False
