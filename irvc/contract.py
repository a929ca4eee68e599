"""Contracts: symbolic set-up of a function under verification, application at call sites, discharge."""
import re, os, sys, time, subprocess, tempfile, json, traceback
import multiprocessing as mp
import z3
from fractions import Fraction
from smt import *
from arith import grounds, smt2, relevant
import arith
import ex as EX
from ex import Obj, OS, State, Executor, Dead, Oblig, KSIZE, ksort
import models, llvmc

REPO = os.environ.get("IRVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
INCS = ["extraction/include", "lib/include", "localization/include", "rotationlib/include", "kalman_filter/include",
        "ekf_localizer/include", "mapping/include", "map_loader/include", "map_tf_generator/include", "path_generator/include", "imu_integration/include"]
PASSES = "always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce)"


class BuildError(Exception):
    pass


def compile_unit(path, work, noinline="", incs=(), defs=(), tag=""):
    b = os.path.join(work, os.path.basename(path) + tag)
    cmd = [CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-ffp-contract=off", "-w",
           "-fno-access-control", "-Xclang", "-mno-constructor-aliases", "-DEIGEN_DONT_VECTORIZE", "-DIRVC"]
    if "PCL" not in defs:
        cmd.append("-DEIGEN_MAX_ALIGN_BYTES=0")
    cmd += ["-D" + d for d in defs]
    for i in incs:
        cmd += ["-I", i]
    for i in INCS:
        cmd += ["-I", os.path.join(REPO, i)]
    cmd += ["-I", REPO, "-I", os.path.join(HERE, "units"), "-I", os.path.join(HERE, "units", "stubs"), "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14", "-emit-llvm", "-c", path, "-o", b + ".bc"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (path, r.stderr[:3000]))
    rx = models.NOINLINE + ("|" + noinline if noinline else "")
    llvmc.set_inline_attrs(b + ".bc", b + ".i.bc", re.compile(rx))
    r = subprocess.run(["opt-18", "-passes=" + PASSES, b + ".i.bc", "-o", b + ".o.bc"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed: " + r.stderr[:2000])
    return b + ".o.bc"


def compile_unit_files(u, work):
    ni = "|".join([s.rx for s in u.specs if s.rx] + [c.rx for s in u.specs for c in s.contracts if c.rx] + ([u.noinline] if u.noinline else []))
    return compile_unit(os.path.join(HERE, "units", u.file), work, noinline=ni, incs=u.incs, defs=u.defs)


# ------------------------------------------------------------------------------------------------ views
class VecV:
    """a std::vector at address `p`"""

    def __init__(self, V, p):
        self.V, self.p = V, p

    def seq(self, st=None):
        return models.vget(self.V.ex, st or self.V.st, self.p)[0]

    def n(self, st=None):
        return models.vget(self.V.ex, st or self.V.st, self.p)[1]

    def arr(self, f=0, st=None):
        st = st or self.V.st
        s = self.seq(st)
        return self.V.ex.arr(st, s, f)

    def at(self, i, f=0, st=None):
        return z3.Select(self.arr(f, st), Z(i))


class V:
    """verification context of one function"""

    def __init__(self, ex):
        self.ex = ex
        self.st = State()
        self.old = None
        self.names = set()
        self.ret = None
        self.ghost = {}

    def int(self, name, lo=None, hi=None, w=32):
        self.unique(name)
        v = z3.Int(name)
        l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
        l = l if lo is None else lo
        h = h if hi is None else hi
        self.ex.rng.set(v, l, h)
        self.st.assume(z3.And(v >= l, v <= h))
        return v

    def real(self, name):
        self.unique(name)
        return z3.Real(name)

    def unique(self, name):
        if self.names is None:
            return
        if name in self.names:
            raise Unsupported("contract error: two symbolic inputs are called %r" % name)
        self.names.add(name)

    def bool(self, name):
        self.unique(name)
        return z3.Bool(name)

    def assume(self, *fs):
        self.st.assume(*fs)

    def blob(self, name, size, fields=None, lazy=True):
        o = Obj(name, "blob", size=size, lazy=lazy, fields=fields)
        self.st.wr(o)
        return Ptr(o, 0)

    def cell(self, p, off, k, v):
        self.ex.write_k(self.st, Ptr(p.obj, iadd(p.off, off)), v, k)

    def ref(self, name, k, v):
        p = self.blob(name, KSIZE[k])
        self.cell(p, 0, k, v)
        return p

    def seqobj(self, name, stride, fields, n):
        o = Obj(name, "seq", stride=stride, fields=dict(fields), lazy=True)
        s = self.st.wr(o)
        s.n = n
        for f, k in fields.items():
            s.arrays[f] = z3.Array("%s.%d" % (name, f), IntS, ksort(k))
            if k[0] == "i":
                lo, hi = EX.krange(k)
                j = z3.Int("j!r")
                self.elem_ranges = getattr(self, "elem_ranges", [])
                self.elem_ranges.append((s.arrays[f], lo, hi))
        return o

    def vec(self, name, elem, n=None, at=None, maxn=(1 << 31) - 1):
        """a std::vector<elem> (elem: type name known to models.layout)"""
        stride, fields = models.layout(self.ex, elem)
        if n is None:
            n = self.int(name + ".n", 0, maxn, 64)
        o = self.seqobj(name, stride, fields, n)
        p = at if at is not None else self.blob(name + ".vec", 24)
        models.vset(self.ex, self.st, p, o, n)
        return VecV(self, p)

    def vtable(self, cls, p):
        """store the compiler's vtable pointer of class `cls` (as emitted in the unit) at p"""
        for n in self.ex.mod.globals:
            if n == cls:
                g = self.ex.global_ptr(n)
                self.cell(p, 0, "ptr", Ptr(g.obj, 16))
                return
        raise Unsupported("no vtable " + cls)


# ------------------------------------------------------------------------------------------------ verification of one function
class Spec:
    """A contract. Subclasses give: rx, setup(V)->args, post(V, kind, value)->[(name, goal)], optionally
    templates(lc)->loop invariant candidates, apply(...) for use at call sites."""
    name = None
    rx = None
    contracts = ()
    intrinsics = ()
    opaque = ()
    layouts = {}
    must_return = True
    may_throw = False       # otherwise a throw must be allowed by post
    budget = 300
    fp_domain = False
    inf_div = False         # model x/0 as an infinite number instead of leaving it unspecified
    max_unroll = 70
    level = "proof"
    select = None
    helper = False          # a helper contract that fails is dropped (callers are verified with the body inlined)
    trusted = False         # assumed contract (interface / external function)
    bound = None            # loop bound: a bounded stand-in, never counted as proved
    solver_tmo = 20
    wall = 400

    def matches(self, dm):
        return re.search(self.rx, dm) is not None

    def templates(self, V, lc):
        return []

    def post(self, V, out):
        return []


class Lemma(Spec):
    """a statement over the specification functions, proved by the solver (goals(v) -> [(name, hypotheses, goal)]: induction base and step)"""
    rx = None

    def goals(self, v):
        return []


class Result:
    def __init__(self, name):
        self.name = name
        self.obligs = []
        self.error = None
        self.outcomes = 0
        self.normal = 0
        self.notes, self.inlined, self.models, self.contracts_used = set(), set(), set(), set()
        self.loops = 0
        self.wall = 0
        self.fn = None
        self.loop_log = []
        self.dropped = []
        self.vac = None
        self.bounded = None


def verify(spec, mod, fn=None, debug=False, bound=None, contracts=None):
    R = Result(spec.name)
    t0 = time.time()
    cands = [fn] if fn else mod.find(spec.rx) if spec.rx else list(mod.functions)[:1]
    if not cands:
        R.error = "function not found: " + spec.rx
        return R
    if len(cands) > 1:
        cands.sort(key=lambda n: len(mod.functions[n].demangled))
    F = mod.fn(cands[0])
    R.fn = F.demangled if spec.rx else "(lemma)"
    ex = Executor(mod, contracts=(spec.contracts if contracts is None else contracts), intrinsics=list(spec.intrinsics) + models.table(), opaque=list(spec.opaque) + models.OPAQUE)
    ex.layouts = dict(spec.layouts)
    ex.cur = spec
    ex.fp_domain = spec.fp_domain
    ex.inf_div = spec.inf_div
    ex.max_unroll = spec.max_unroll
    ex.bound = bound
    ex.deadline = time.time() + spec.budget
    v = V(ex)
    v.F = F
    R.ex, R.V = ex, v
    try:
        if spec.rx is None:
            for nm, hyps, goal in spec.goals(v):
                s2 = v.st.fork()
                s2.assume(*hyps)
                ex.oblige(s2, nm, goal, None, "lemma")
            R.outcomes = R.normal = 1
            R.vac_states = [list(hyps)]
            R.obligs = ex.obligs
            R.wall = time.time() - t0
            return R
        args = spec.setup(v)
        v.names = None
        v.old = v.st.fork()
        v.args = args
        ex.templates = [lambda lc: spec.templates(v, lc)]
        outs = ex.run_fn(F, args, v.st.fork())
        rets = []
        for st, o in outs:
            R.outcomes += 1
            v.st = st
            ex.loop_stack = []
            if o[0] == "ret":
                R.normal += 1
                v.ret = o[1]
                rets.append(st)
            else:
                v.ret = None
            goals = spec.post(v, o)
            for g in goals:
                nm, goal = g[0], g[1]
                s2 = st.fork()
                s2.assume(*(g[2] if len(g) > 2 else []))
                try:
                    ex.oblige(s2, nm, goal, None, "post")
                except Dead:
                    pass
        if spec.must_return and not R.normal:
            R.error = "no path returns normally (vacuous contract)"
        R.vac_states = [(list(ex.axioms) + st.pc) for st in rets]
        if ex.bounded_hit:
            R.bounded = bound
    except Unsupported as e:
        R.error = "unsupported: %s" % (e,)
        if debug:
            traceback.print_exc()
    except RecursionError:
        R.error = "unsupported: recursion"
    except Exception as e:
        R.error = "internal: %s %s" % (type(e).__name__, e)
        if debug:
            traceback.print_exc()
    R.obligs = ex.obligs
    R.notes, R.inlined, R.models, R.contracts_used = ex.notes, ex.inlined, ex.used_models, ex.used_contracts
    R.loops, R.loop_log, R.dropped = ex.loops_done, ex.loop_log, ex.dropped
    R.wall = time.time() - t0
    return R


# ------------------------------------------------------------------------------------------------ discharge
def _consts(e, _c={}):
    import loops
    return loops.syms_of(e)


def is_nonlinear(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children()) > 1:
            return True
        st.extend(x.children())
    return False


def fraction(e, memo=None):
    """e as numerator / denominator over its division-free subterms, and the list of divisors that must not be zero"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    one = z3.RealVal(1)
    r = (e, one, [])
    if z3.is_app(e) and e.num_args():
        op = e.decl().kind()
        if op in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            f = [fraction(c, memo) for c in e.children()]
            ds = {x.get_id(): x for t in f for x in t[2]}
            if op == z3.Z3_OP_DIV:
                if not z3.is_rational_value(e.arg(1)):
                    ds[f[1][0].get_id()] = f[1][0]
                r = (f[0][0] * f[1][1], f[0][1] * f[1][0], list(ds.values()))
            elif op == z3.Z3_OP_MUL:
                n, d = one, one
                for t in f:
                    n, d = n * t[0], d if t[1].eq(one) else t[1] if d.eq(one) else d * t[1]
                r = (n, d, list(ds.values()))
            elif op == z3.Z3_OP_UMINUS:
                r = (-f[0][0], f[0][1], f[0][2])
            else:
                n, d = f[0][0], f[0][1]
                for t in f[1:]:
                    m = t[0] if op == z3.Z3_OP_ADD else -t[0]
                    if t[1].eq(d):
                        n = n + m
                    elif t[1].eq(one):
                        n = n + m * d
                    elif d.eq(one):
                        n, d = n * t[1] + m, t[1]
                    else:
                        n, d = n * t[1] + m * d, d * t[1]
                r = (n, d, list(ds.values()))
    memo[k] = (e, r)
    return r


def nonzero(pc, d):
    s = z3.Solver()
    s.set("timeout", 3000)
    for p in relevant(pc, d == 0):
        if not has_quant(p):
            s.add(p)
    s.add(d == 0)
    return s.check() == z3.unsat


def atoms(e, name):
    """applications of the modelled function `name` in e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            out.append(x)
        st.extend(x.children())
    return out


def prep(o):
    """simplified goal; None when proved by normalisation alone"""
    g = o.goal
    try:
        if z3.is_eq(g) and g.arg(0).sort() == RealS:
            d = z3.simplify(g.arg(0) - g.arg(1), som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return None
            fr = fraction(g.arg(0) - g.arg(1))
            if fr[2]:
                d = z3.simplify(fr[0], som=True)
                if z3.is_rational_value(d) and d.as_fraction() == 0 and all(nonzero(o.pc, x) for x in fr[2]):
                    return None
    except z3.Z3Exception:
        pass
    return g


def solve_soon(job):
    idx, txt, t0 = job[0], job[1], time.time()
    try:
        ctx = z3.Context()
        s = z3.SimpleSolver(ctx=ctx)
        s.set("timeout", 2000)
        s.from_string(txt)
        return idx, s.check() == z3.unsat, time.time() - t0
    except Exception:
        return idx, False, time.time() - t0


def solve_text(job):
    idx, txt, tmo, grd, cases = job
    t0 = time.time()
    out = ("unknown", None, None)
    for t in grd:
        try:
            if arith.solve(t, 4000):
                return idx, "unsat", "z3", time.time() - t0, None
        except Exception:
            pass
    try:
        if cases and all(any(arith.solve(t, 4000) for t in ts) for ts in cases):
            return idx, "unsat", "z3", time.time() - t0, None
    except Exception:
        pass
    try:
        ctx = z3.Context()
        for tac in ("quick", "default", "smt"):
            s = z3.Solver(ctx=ctx) if tac == "default" else z3.SimpleSolver(ctx=ctx)
            s.set("timeout", 3000 if tac == "quick" else int(tmo * 1000 if tac == "default" else tmo * 500))
            s.from_string(txt)
            r = s.check()
            if r == z3.unsat:
                return idx, "unsat", "z3", time.time() - t0, None
            if r == z3.sat:
                m = s.model()
                md = {}
                for d in m.decls():
                    try:
                        md[d.name()] = str(m[d])[:400]
                    except Exception:
                        pass
                return idx, "sat", "z3", time.time() - t0, md
    except Exception as e:
        out = ("unknown", None, str(e))
    r = cvc5_solve(txt, tmo)
    if r == "unsat":
        return idx, "unsat", "cvc5", time.time() - t0, None
    return idx, "unknown", None, time.time() - t0, None


def cvc5_solve(txt, tmo):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt if "(set-logic" not in txt else txt)
        nm = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(tmo * 1000), "--nl-ext-tplanes", nm], capture_output=True, text=True, timeout=tmo + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(nm)


def discharge(results, tmo=20, procs=8, budget=None):
    """prove every obligation; returns (#total, #proved, solver seconds)"""
    jobs, index = [], {}
    quick = Quick()
    dedupe = {}
    for R in results:
        for o in R.obligs:
            if o.status == "proved":
                continue
            g = prep(o)
            if g is None:
                o.status, o.backend = "proved", "normalisation"
                continue
            key = (frozenset(p.get_id() for p in o.pc), g.get_id())
            if key in dedupe:
                dedupe[key].append(o)
                continue
            dedupe[key] = [o]
            # cheap first try in-process
            t0 = time.time()
            s = z3.Solver()
            s.set("rlimit", 300000)
            s.set("timeout", 2000)
            for p in relevant(o.pc, g):
                if not has_quant(p):
                    s.add(p)
            s.add(z3.Not(g))
            r = s.check()
            o.time = time.time() - t0
            if r == z3.unsat:
                o.status, o.backend = "proved", "z3"
                continue
            i = len(jobs)
            jobs.append((i, smt2(o.pc, g), tmo, [], None))
            index[i] = (o, g)
    if jobs:
        with mp.Pool(min(procs, len(jobs))) as pool:
            for idx, ok, tm in pool.imap_unordered(solve_soon, jobs):
                o = index[idx][0]
                o.time += tm
                if ok:
                    o.status, o.backend = "proved", "z3"
        jobs = [(i, t, tmo, grounds(index[i][0].pc, index[i][1], quick), arith.by_cases(index[i][0].pc, index[i][1], quick))
                for i, t, _, _, _ in jobs if index[i][0].status != "proved"]
    if jobs:
        with mp.Pool(min(procs, len(jobs))) as pool:
            for idx, r, be, tm, md in pool.imap_unordered(solve_text, jobs):
                o = index[idx][0]
                o.time += tm
                if r == "unsat":
                    o.status, o.backend = "proved", be
                elif r == "sat":
                    o.status, o.model = "refuted", md
                else:
                    o.status = "unknown"
    for os_ in dedupe.values():
        for o in os_[1:]:
            o.status, o.backend, o.model = os_[0].status, os_[0].backend, os_[0].model
    tot = sum(len(R.obligs) for R in results)
    ok = sum(1 for R in results for o in R.obligs if o.status == "proved")
    return tot, ok, sum(o.time for R in results for o in R.obligs)


def vacuity(R):
    """is some normal return reachable under the assumptions? ('unsat' for all of them = vacuous)"""
    best = "unsat"
    for pc in R.vac_states:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.set("rlimit", 2000000)
        for p in pc:
            s.add(p)
        r = s.check()
        if r == z3.sat:
            return "sat"
        if r == z3.unknown:
            best = "unknown"
    return best
