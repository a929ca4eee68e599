"""C30 the initial pose of the localizer node."""
from common import *
import algebra, containers, strings
from algebra import EL, ROWS, COLS
from c17 import Matrices, ALG

YAW = algebra.F("tf2.yaw", *[z3.RealSort()] * 5)


def h_real(ex, st, I, a):
    return ex.freal("parameter")


def h_int(ex, st, I, a):
    x = ex.fint("parameter", st=st)
    st.assume(x >= 1, x <= 1 << 20)
    ex.rng.set(x, 1, 1 << 20)
    return x


def h_bool(ex, st, I, a):
    return ex.enabled


def h_yaw(ex, st, I, a):
    q = [ZR(ex.read_k(st, Ptr(a[0].obj, iadd(a[0].off, 8 * i)), "f64")) for i in range(4)]
    return YAW(*q)


def h_rpy(ex, st, I, a):
    for p in a[1:4]:
        ex.write_k(st, p, ex.freal("angle"), "f64")
    return None


def h_available(ex, st, I, a):
    return z3.FreshConst(z3.BoolSort(), "available")


def h_asked(ex, st, I, a):
    def reads(p, t):
        s, n = strings.sget(ex, st, p)
        A = ex.arr(st, s, 0)
        return [Z(n) == len(t)] + [A[i] == ord(c) for i, c in enumerate(t)]
    ex.oblige(st, "the transform into the filter's frame from the pose's frame is asked for", z3.And(*reads(a[0], "map"), *reads(a[1], "given")), I.loc, "post")
    return None


def h_answered(ex, st, I, a):
    ex.write_k(st, ex.answered, 1, "i64")
    return ex.the_transform


HOOKS = [(re.compile("^irvc_param_real$"), h_real), (re.compile("^irvc_param_int$"), h_int), (re.compile("^irvc_param_bool$"), h_bool),
         (re.compile(r"^tf2::getYaw\("), h_yaw), (re.compile(r"^tf2::Matrix3x3::getRPY\("), h_rpy), (re.compile("^irvc_available$"), h_available),
         (re.compile("^irvc_asked$"), h_asked), (re.compile("^irvc_transform$"), h_answered), (re.compile("^irvc_log$"), lambda ex, st, I, a: None)]


class Built(Spec):
    """what C18 proves of the constructor: the filter is built from this mean, this covariance and this window"""
    name, rx, trusted = "TimeDelayKalmanFilter()", r"^TimeDelayKalmanFilter::TimeDelayKalmanFilter\(", True

    def apply(self, ex, st, a, I):
        for i, k in ((1, 0), (2, 8)):
            ex.write_k(st, Ptr(a[0].obj, iadd(a[0].off, k)), ex.read_k(st, a[i], "i64"), "i64")
        ex.write_k(st, Ptr(a[0].obj, iadd(a[0].off, 16)), a[3], "i32")
        return [(st, ("ret", None))]


class Initial(Matrices):
    max_unroll = 40
    intrinsics = algebra.MATS + strings.TABLE + HOOKS
    contracts = (Built(),)
    rx = r"^irvc_initial$"

    def call(self, v, fn, *args):
        outs = [o for o in v.ex.run_fn(v.ex.mod.fn(fn), list(args), v.st) if o[1][0] == "ret"]
        assert len(outs) == 1, [[str(f)[:90] for f in s.pc if not any(f.eq(g) for g in outs[0][0].pc)] for s, _ in outs]
        v.st = outs[0][0]
        return outs[0][1][1]

    def numbers(self, v, name, n):
        p = v.blob(name, 8 * n)
        xs = [v.real("%s[%d]" % (name, i)) for i in range(n)]
        for i, x in enumerate(xs):
            v.cell(p, 8 * i, "f64", x)
        return p, xs

    def setup(self, v):
        v.ex.enabled = self.started
        v.x, v.P = self.mat(v, "x before", 6, 1), self.mat(v, "P before", 6, 6)
        v.w0 = v.int("window before", 1, 1 << 20)
        s, v.s = self.numbers(v, "scalar filters before", 6)
        v.node = self.call(v, "irvc_node", self.started, self.ref(v, v.x), self.ref(v, v.P), v.w0, s)
        v.q = []
        for i in range(4):
            q = self.call(v, "irvc_queue", v.node, i)
            b, _ = containers.dget(v.ex, v.st, q)
            n = v.int("queued %d" % i, 0, 1 << 30)
            containers.dset(v.ex, v.st, q, b, n)
            v.q.append(q)
        m, v.m = self.numbers(v, "pose", 7)
        c, v.c = self.numbers(v, "covariance", 36)
        t, v.t = self.numbers(v, "transform", 7)
        v.ex.answered = v.blob("a lookup was answered", 8)
        v.cell(v.ex.answered, 0, "i64", 0)
        v.moved = v.blob("moved", 8, lazy=False)
        self.call(v, "irvc_moved", m, t, v.moved)
        v.ex.the_transform = self.call(v, "irvc_tf", t)
        msg = self.call(v, "irvc_message", m, c)
        v.before = self.look(v)
        return [v.node, msg]

    def look(self, v):
        """(filter, mean, covariance, window), queue lengths, scalar filters"""
        f = self.call(v, "irvc_filter", v.node)
        parts = [v.ex.read_k(v.st, Ptr(f.obj, iadd(f.off, o)), k) for o, k in ((0, "i64"), (8, "i64"), (16, "i32"))] if isinstance(f, Ptr) and f.obj is not None else None
        s = v.blob("scalars %d" % len(v.st.mem), 48, lazy=False)
        self.call(v, "irvc_scalars", v.node, s)
        return f, parts, [containers.dget(v.ex, v.st, q) for q in v.q], [ZR(v.ex.read_k(v.st, Ptr(s.obj, 8 * i), "f64")) for i in range(6)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        f, parts, queued, scalars = self.look(v)
        f0, parts0, queued0, scalars0 = v.before
        if v.ex.read_k(v.st, v.ex.answered, "i64") == 0:
            same = f.obj is f0.obj and (f.obj is None or f.off == f0.off)
            return [("without a transform the filter stays the same object", same)] + \
                   ([("without a transform the filter's content is unchanged", z3.And(*[Z(a) == Z(b) for a, b in zip(parts, parts0)]))] if same and parts else []) + \
                   [("without a transform the queues are unchanged", all(a[0] is b[0] for a, b in zip(queued, queued0)) and z3.And(*[Z(a[1]) == Z(b[1]) for a, b in zip(queued, queued0)])),
                    ("without a transform the scalar filters are unchanged", z3.And(*[a == b for a, b in zip(scalars, scalars0)]))]
        if parts is None:
            return [("a filter is started", False)]
        x, P, w = Z(parts[0]), Z(parts[1]), Z(parts[2])
        moved = Z(v.ex.read_k(v.st, v.moved, "i64"))
        al = self.al(v)
        mean = [EL(moved, 0, 0), EL(moved, 1, 0), YAW(*v.m[3:7]) + YAW(*v.t[3:7]), 0, 0, 0]
        diag = [v.c[0], v.c[7], v.c[35], z3.RealVal("0.0001"), z3.RealVal("0.01"), z3.RealVal("0.01")]
        out = [("the mean has six elements", z3.And(ROWS(x) == 6, COLS(x) == 1)), ("the covariance is 6x6", z3.And(ROWS(P) == 6, COLS(P) == 6))]
        names = ["x", "y", "heading", "heading bias", "speed", "yaw rate"]
        out += [("initial %s" % names[i], EL(x, i, 0) == mean[i]) for i in range(6)]
        close = lambda a, b: a == b if not z3.is_rational_value(b) else z3.And(a - b <= b / 10**9, b - a <= b / 10**9)
        out += [("initial variance of %s" % names[i], close(EL(P, i, i), diag[i])) for i in range(6)]
        out += [("no initial covariance", z3.And(*[EL(P, i, j) == 0 for i in range(6) for j in range(6) if i != j]))]
        out += [("the window is the node's", w == Z(self.call(v, "irvc_window", v.node)))]
        out += [("queue %d is emptied" % i, Z(q[1]) == 0) for i, q in enumerate(queued)]
        return out


class Fresh(Initial):
    name, started = "callbackInitialPose (no filter yet)", False


class Again(Initial):
    name, started = "callbackInitialPose (filter running)", True


UNITS = [Unit("u_initpose.cpp", [Fresh(), Again()], incs=ALG)]
REPLAY = ["c30.cpp"]
ASSUME = ["matrix algebra of units/stubs/algebra (rotation by a quaternion is an uninterpreted matrix)", "the heading of a quaternion is tf2::getYaw of it, uninterpreted", "the transform tree is external: each lookup throws TransformException or answers", "the roll, pitch and yaw of a quaternion are any numbers (scalar filters are C28)", "the constructor of the delayed filter is the one proved in C18", "real arithmetic in place of double", "the message's frame is a name, the parameters have any value (strings at their default)"]
