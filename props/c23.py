"""C23 gating of queued measurements."""
from common import *
import algebra, containers, loops, strings
from algebra import EL, ROWS, COLS, DOT
from c17 import Matrices, ALG
import c30

YAW = c30.YAW
NY = z3.Function("normalised", RealS, RealS)
X = z3.Function("filter.x", IntS, IntS, IntS, RealS)             # state, delay, element
P = z3.Function("filter.P", IntS, IntS, IntS, RealS)             # state, row, column of the latest covariance
AFTER = z3.Function("state.after", IntS, IntS)                   # filter state after so many measurements of the round
HOOKS = [(re.compile(r"^tf2::getYaw\("), c30.h_yaw), (re.compile("^irvc_log$"), lambda ex, st, I, a: None)]


def R(name, n, out=RealS):
    return z3.Function(name, *[RealS] * n, out)


def els(t, r, c):
    return [EL(t, i, j) for i in range(r) for j in range(c)]


class DelayStep(Spec):
    name, rx = "ComputeDelayStep", r"^irvc_delay_step$"

    def setup(self, v):
        v.delay, v.dt = v.real("delay"), v.real("dt")
        v.assume(v.dt >= 0)
        return [v.delay, v.dt]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        r, d = Z(o[1]), v.delay
        top = (1 << 31) - 1
        return [("never negative", r >= 0), ("no delay is no step", z3.Implies(d <= 0, r == 0)),
                ("nearest number of steps", z3.Implies(z3.And(d > 0, d < top * v.dt), z3.And(z3.ToReal(r) - d / v.dt <= z3.RealVal("1/2"), d / v.dt - z3.ToReal(r) <= z3.RealVal("1/2")))),
                ("a delay too long to count is the largest", z3.Implies(z3.And(d > 0, d >= top * v.dt), r == top))]


class DelayTime(Spec):
    name, rx = "ComputeDelayTime", r"^irvc_delay_time$"

    def setup(self, v):
        v.now, v.stamp = v.int("now", 0, 1 << 62), v.int("stamp", 0, 1 << 62)
        return [v.ref("now", "i64", v.now), v.ref("stamp", "i64", v.stamp)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("the time from the stamp to now", ZR(o[1]) == z3.ToReal(v.now - v.stamp) * z3.RealVal(str(Fraction(1e-9))))]


class Distance(Matrices):
    name, rx = "SquaredMahalanobis", r"^irvc_distance$"
    intrinsics = algebra.MATS

    def setup(self, v):
        v.n = v.int("n", 1, 1 << 20)
        v.x, v.y, v.C = self.mat(v, "x", v.n, 1), self.mat(v, "y", v.n, 1), self.mat(v, "C", v.n, v.n)
        return [self.ref(v, t) for t in (v.x, v.y, v.C)]

    def value(self, v):
        al = self.al(v)
        d = al.sub(v.x, v.y)
        return al.dot(d, al.mul(al.inv(v.C), d))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("the difference's squared length under the inverse covariance", ZR(o[1]) == self.value(v))]


class Gate(Distance):
    name, rx = "MahalanobisGate", r"^irvc_gate$"

    def setup(self, v):
        v.limit = v.real("limit")
        return [v.ref("limit", "f64", v.limit)] + Distance.setup(self, v)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("lets pass exactly the distances up to the limit", as_bool(o[1]) == (self.value(v) <= v.limit * v.limit))]


class Fits(Spec):
    name, rx = "CheckDelayStep", r"^irvc_fits$"
    intrinsics = HOOKS

    def setup(self, v):
        v.d, v.w = v.int("step", -(1 << 31), (1 << 31) - 1), v.int("window", -(1 << 31), (1 << 31) - 1)
        return [v.blob("warning", 8, lazy=False), v.d, v.w]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("exactly the steps below the window fit", as_bool(o[1]) == (v.d < v.w))]


class Valid(Matrices):
    name, rx = "CheckMeasurementMatrixNanInf", r"^irvc_valid$"
    intrinsics = algebra.MATS + HOOKS

    def setup(self, v):
        v.n = v.int("n", 1, 1 << 20)
        v.y = self.mat(v, "y", v.n, 1)
        return [v.blob("warning", 8, lazy=False), self.ref(v, v.y)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("exactly the measurements without a value that is no number or infinite", as_bool(o[1]) == z3.Not(self.al(v).invalid(v.y)))]


def as_bool(x):
    return x if isinstance(x, bool) or z3.is_expr(x) and z3.is_bool(x) else (Z(x) != 0)


# ------------------------------------------------------------------------------------------------ contracts of what the loop calls

class CPop(Spec):
    """C21: a round pops each of the messages the queue held once, oldest first (later pops would give re-queued ones)"""
    name, rx, trusted = "AgedMessageQueue::pop", r"^AgedMessageQueue<.*>::pop\(\)", True

    def apply(self, ex, st, a, I):
        i = Z(ex.read_k(st, ex.popped, "i64"))
        ex.oblige(st, "no message is taken twice in a round", i < ex.queued, I.loc, "pre")
        ex.write_k(st, ex.popped, i + 1, "i64")
        ex.write_k(st, a[0], Ptr(ex.messages, imul(i, ex.message_size)), "ptr")
        ex.write_k(st, Ptr(a[0].obj, iadd(a[0].off, 8)), Ptr(None, 0), "ptr")
        return [(st, ("ret", None))]


class CSize(Spec):
    name, rx, trusted = "AgedMessageQueue::size", r"^AgedMessageQueue<.*>::size\(\)", True

    def apply(self, ex, st, a, I):
        n = ex.fint("size", st=st)
        st.assume(n >= 0, n <= 1 << 30, z3.Implies(Z(ex.read_k(st, ex.popped, "i64")) == 0, n == ex.queued))
        ex.rng.set(n, 0, 1 << 30)
        return [(st, ("ret", n))]


def state(ex, st, p):
    return Z(ex.read_k(st, p, "i64"))


class CGetX(Spec):
    name, rx, trusted = "TimeDelayKalmanFilter::getX", r"^TimeDelayKalmanFilter::getX\(", True

    def apply(self, ex, st, a, I):
        s, d = state(ex, st, a[1]), Z(a[2])
        ex.oblige(st, "the delayed state asked for is inside the window", z3.And(d >= 0, d < ex.window), I.loc, "pre")
        al = algebra.A(ex, st)
        t = al.mat(ex.fresh("delayed"), 6, 1)
        st.assume(*[EL(t, i, 0) == X(s, d, i) for i in range(6)])
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class CLatestX(Spec):
    name, rx, trusted = "TimeDelayKalmanFilter::getLatestX", r"^TimeDelayKalmanFilter::getLatestX\(", True

    def apply(self, ex, st, a, I):
        s = state(ex, st, a[1])
        t = algebra.A(ex, st).mat(ex.fresh("latest"), 6, 1)
        st.assume(*[EL(t, i, 0) == X(s, 0, i) for i in range(6)])
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


class CLatestP(Spec):
    name, rx, trusted = "TimeDelayKalmanFilter::getLatestP", r"^TimeDelayKalmanFilter::getLatestP\(", True

    def apply(self, ex, st, a, I):
        s = state(ex, st, a[1])
        t = algebra.A(ex, st).mat(ex.fresh("covariance"), 6, 6)
        st.assume(*[EL(t, i, j) == P(s, i, j) for i in range(6) for j in range(6)])
        ex.write_k(st, a[0], t, "i64")
        return [(st, ("ret", None))]


def update(m, s, y, C, V, d):
    n = len(y) + len(C) + len(V)
    return [z3.Function(f, IntS, *[RealS] * n, IntS, o)(s, *y, *C, *V, d) for f, o in (("updated%d" % m, IntS), ("refused%d" % m, BoolS))]


class CUpdate(Spec):
    """C18: the filter either takes the measurement, its model and its noise into account, or refuses and stays as it is"""
    name, rx, trusted = "TimeDelayKalmanFilter::update", r"^TimeDelayKalmanFilter::update\(", True

    def apply(self, ex, st, a, I):
        m, s = ex.m, state(ex, st, a[0])
        y, C, V = (Z(ex.read_k(st, p, "i64")) for p in a[1:4])
        d = Z(a[4])
        ex.oblige(st, "the delay given to the filter is inside the window", z3.And(d >= 0, d < ex.window), I.loc, "pre")
        ex.oblige(st, "sizes of measurement, model and noise", z3.And(ROWS(y) == m, COLS(y) == 1, ROWS(C) == m, COLS(C) == 6, ROWS(V) == m, COLS(V) == m), I.loc, "pre")
        new, no = update(m, s, els(y, m, 1), els(C, m, 6), els(V, m, m), d)
        out = []
        for t in (False, True):
            q = st.fork()
            q.assume(no if t else z3.Not(no))
            if not t:
                ex.write_k(q, a[0], new, "i64")
            out.append((q, ("throw", "std::invalid_argument", Ptr(Obj("exception", "opaque"), 0)) if t else ("ret", None)))
        return out


class CDistance(Matrices):
    """proved below; matrices with the same elements have the same distance"""
    name, rx = "SquaredMahalanobis", r"^SquaredMahalanobis\("

    def apply(self, ex, st, a, I):
        m = ex.m
        x, y, C = (Z(ex.read_k(st, p, "i64")) for p in a)
        ex.oblige(st, "sizes of the compared vectors and the covariance", z3.And(ROWS(x) == m, COLS(x) == 1, ROWS(y) == m, COLS(y) == 1, ROWS(C) == m, COLS(C) == m), I.loc, "pre")
        d = [EL(x, i, 0) - EL(y, i, 0) for i in range(m)]
        M = R("distance%d" % m, m + m * m)
        c = els(C, m, m)
        st.assume(M(*d, *c) == M(*[-e for e in d], *c))
        return [(st, ("ret", M(*d, *c)))]


class CValid(Matrices):
    """proved below; matrices with the same elements are valid together"""
    name, rx = "CheckMeasurementMatrixNanInf", r"^CheckMeasurementMatrixNanInf\("

    def apply(self, ex, st, a, I):
        y = Z(ex.read_k(st, a[1], "i64"))
        ex.oblige(st, "size of the tested measurement", z3.And(ROWS(y) == ex.m, COLS(y) == 1), I.loc, "pre")
        return [(st, ("ret", z3.Not(R("invalid%d" % ex.m, ex.m, BoolS)(*els(y, ex.m, 1)))))]


class CFrame(Spec):
    """a warning only"""
    name, rx, trusted = "CheckFrameId", r"^CheckFrameId\(", True

    def apply(self, ex, st, a, I):
        return [(st, ("ret", z3.FreshConst(BoolS, "frame")))]


class CDelayTime(Spec):
    """a warning only"""
    name, rx, trusted = "CheckDelayTime", r"^CheckDelayTime\(", True

    def apply(self, ex, st, a, I):
        return [(st, ("ret", ZR(a[1]) >= 0))]


class CNormal(Spec):
    """C29: the angle in half a turn either way with the same sine and cosine"""
    name, rx, trusted = "normalizeYaw", r"^normalizeYaw\(", True

    def apply(self, ex, st, a, I):
        x = a[0]
        return [(st, ("ret", NY(ZR(ex.read_k(st, x, "f64") if isinstance(x, Ptr) else x))))]


class CDelayStep(Spec):
    """proved below"""
    name, rx = "ComputeDelayStep", r"^ComputeDelayStep\("

    def apply(self, ex, st, a, I):
        delay, dt = ZR(a[0]), ZR(a[1])
        ex.oblige(st, "the step is not negative", dt >= 0, I.loc, "pre")
        r = z3.Function("steps", RealS, RealS, IntS)(z3.If(delay < 0, z3.RealVal(0), delay), dt)
        st.assume(r >= 0, r < 1 << 31)
        return [(st, ("ret", r))]


class Round(Matrices):
    intrinsics = algebra.MATS + HOOKS
    contracts = (CPop(), CSize(), CGetX(), CLatestX(), CLatestP(), CUpdate(), CDistance(), CValid(), CDelayStep(), CFrame(), CDelayTime(), CNormal())
    max_unroll = 2

    def call(self, v, fn, *args):
        outs = [o for o in v.ex.run_fn(v.ex.mod.fn(fn), list(args), v.st) if o[1][0] == "ret"]
        assert len(outs) == 1
        v.st = outs[0][0]
        return outs[0][1][1]

    def setup(self, v):
        ex, k = v.ex, self.kind
        size = self.call(v, "irvc_%s_size" % k)
        probe = v.blob("probe", size, lazy=False)
        n = len(self.fields)
        offs = [self.call(v, "irvc_%s_field" % k, probe, i).off for i in range(n + 36)]
        kinds = ["i32", "u32" if False else "i32"] + ["f64"] * (n - 2) + ["f64"] * 36
        v.n = v.int("queued", 0, 1 << 30)
        msgs = v.seqobj("message", size, dict(zip(offs, kinds)), v.n)
        A = [ex.arr(v.st, msgs, o) for o in offs]
        v.f = dict(zip(self.fields, A))
        v.cov = A[n:]
        i = z3.Int("i!s")
        v.assume(z3.ForAll([i], z3.And(v.f["sec"][i] >= 0, v.f["sec"][i] < 1 << 31), patterns=[v.f["sec"][i]]),
                 z3.ForAll([i], z3.And(v.f["nano"][i] >= 0, v.f["nano"][i] < 10**9), patterns=[v.f["nano"][i]]))
        ex.m, ex.messages, ex.message_size, ex.queued = self.m, msgs, size, v.n
        ex.popped = v.blob("messages taken", 8)
        v.cell(ex.popped, 0, "i64", 0)
        ex.window = v.w = v.int("window", 1, 1 << 20)
        v.gate, v.smooth = v.real("gate"), v.int("smoothing", 1, 1 << 20)
        v.now, v.dt = v.int("now", 0, 1 << 62), v.real("dt")
        v.assume(v.dt >= 0)
        v.filter = v.blob("filter", 64, lazy=False)
        v.s0 = v.int("state before", 0, (1 << 31) - 1)
        v.cell(v.filter, 0, "i64", v.s0)
        h = v.blob("filter handle", 16, lazy=False)
        v.cell(h, 0, "ptr", v.filter)
        v.cell(h, 8, "ptr", Ptr(None, 0))
        q = self.call(v, "irvc_%s_new" % k, v.w, v.gate, v.smooth)
        return [q, h, v.ref("now", "i64", v.now), v.dt]

    def step(self, v, i):
        """state after measurement i, by the statement"""
        s = AFTER(i)
        stamp = v.f["sec"][i] * 10**9 + v.f["nano"][i]
        delay = z3.ToReal(v.now - stamp) * z3.RealVal(str(Fraction(1e-9)))
        d = z3.Function("steps", RealS, RealS, IntS)(z3.If(delay < 0, z3.RealVal(0), delay), v.dt)
        raw = self.measured(v, i)
        pred = [X(s, d, j) for j in self.axes]
        y = self.near(raw, pred)
        m, ax = self.m, self.axes
        inv = R("invalid%d" % m, m, BoolS)
        M = R("distance%d" % m, m + m * m)
        cov = [P(s, a, b) for a in ax for b in ax]
        dist = M(*[p - q for p, q in zip(pred, y)], *cov)
        C = [z3.RealVal(1 if j == a else 0) for a in ax for j in range(6)]
        V = [v.cov[6 * a + b][i] * z3.ToReal(v.smooth) for a in self.msg for b in self.msg]
        new, no = update(m, s, y, C, V, d)
        ok = z3.And(d < v.w, z3.Not(inv(*raw)), dist <= v.gate * v.gate)
        facts = [AFTER(i + 1) == z3.If(z3.And(ok, z3.Not(no)), new, s), d >= 0, AFTER(i) >= 0]
        facts += [M(*[p - q for p, q in zip(pred, y)], *cov) == M(*[q - p for p, q in zip(pred, y)], *cov)]
        facts += [inv(*y) == inv(*raw)]          # the predicted heading is finite
        return facts + self.more(raw, pred)

    def more(self, raw, pred):
        return []

    def near(self, raw, pred):
        return raw

    def templates(self, v, lc):
        c = lc.T
        yield ("fact", AFTER(0) == v.s0)
        yield ("fact", z3.Implies(z3.And(c >= 0, c < v.n), z3.And(self.step(v, c))))
        for it in lc.items:
            if it.kind == "int":
                yield ("filter after the measurements so far", it.sym == AFTER(c))
                yield ("measurements taken so far", it.sym == c)

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return [("the filter has seen exactly the valid and plausible measurements, in order, each once and with its delay", state(v.ex, v.st, v.filter) == AFTER(v.n)),
                ("every queued measurement is considered", Z(v.ex.read_k(v.st, v.ex.popped, "i64")) == v.n)]


class Pose(Round):
    name, rx, kind, m, axes, msg = "PoseMeasurement::Update", r"^irvc_pose_round$", "pose", 3, (0, 1, 2), (0, 1, 5)
    fields = ["sec", "nano", "x", "y", "qx", "qy", "qz", "qw"]

    def measured(self, v, i):
        f = v.f
        return [f["x"][i], f["y"][i], NY(YAW(f["qx"][i], f["qy"][i], f["qz"][i], f["qw"][i]))]

    def near(self, raw, pred):
        """the measured heading as the angle nearest to the predicted one"""
        return raw[:2] + [pred[2] + NY(raw[2] - pred[2])]

    def more(self, raw, pred):
        return [NY(NY(y) - pred[2]) == NY(y - pred[2]) for y in (raw[2].arg(0),)]      # both differ from the angle by full turns


class TwistRound(Round):
    name, rx, kind, m, axes, msg = "TwistMeasurement::Update", r"^irvc_twist_round$", "twist", 2, (4, 5), (0, 5)
    fields = ["sec", "nano", "vx", "wz"]

    def measured(self, v, i):
        return [v.f["vx"][i], v.f["wz"][i]]


UNITS = [Unit("u_gate.cpp", [DelayStep(), DelayTime(), Distance(), Gate(), Fits(), Valid(), Pose(), TwistRound()], incs=ALG)]
REPLAY = ["c23.cpp"]
ASSUME = ["matrix algebra of units/stubs/algebra; matrices with the same elements have the same Mahalanobis distance and the same validity", "the heading of a quaternion is tf2::getYaw of it, uninterpreted; normalizeYaw is proved in C29 and used as the representative of an angle within half a turn", "AgedMessageQueue::pop and size as proved in C21; TimeDelayKalmanFilter::getX, getLatestP, update as proved in C17/C18 (update may refuse with invalid_argument and then changes nothing)", "CheckFrameId and CheckDelayTime only warn", "time stamps are not negative, the time step is not negative, the filter has the window the gate is given", "the predicted state is finite; real arithmetic in place of double"]
