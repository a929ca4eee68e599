"""C31 the localisation node's callbacks."""
from common import *
import algebra, clouds, maps
from algebra import EL, ROWS, COLS, F
from c17 import ALG
from c24 import offsets, MAXN
from c25 import h_match, MATCH
from c26 import Maps


def h_out(ex, st, I, a):
    p = Ptr(ex.sent.obj, 8 * a[0])
    x = ZR(ex.read_k(st, p, "f64")) + 1 if a[0] in (0, 50) else a[1]
    ex.write_k(st, p, x, "f64")


def h_success(ex, st, I, a):
    return z3.Bool(ex.fresh("optimiser reports success"))


HOOKS = [(re.compile("^irvc_match_rotation$"), h_match(0, 3, 3)), (re.compile("^irvc_match_translation$"), h_match(1, 3, 1)),
         (re.compile("^irvc_match_success$"), h_success), (re.compile("^irvc_out$"), h_out)]


class Sub(Maps):
    intrinsics = Maps.intrinsics + HOOKS
    max_unroll = 40
    layouts = {"Eigen::Transform<double, 3, 1, 0>": (16, {0: "i64", 8: "i64"})}

    def base(self, v):
        ex = v.ex
        self.store(v)
        ex.sent = v.blob("sent", 8 * 140)
        for i in range(140):
            v.cell(ex.sent, 8 * i, "f64", z3.RealVal(0))
        ex.message_cloud = lambda ex, st, p: clouds.READ(Z(self.which(ex, st, p)))
        v.s = self.call(v, "irvc_sub")
        v.p = self.call(v, "irvc_priors", v.s)
        mu, off = offsets(v)
        v.map, v.mu = Ptr(v.p.obj, iadd(v.p.off, off)), Ptr(v.p.obj, iadd(v.p.off, mu))
        n = v.int("priors", 0, MAXN)
        S = v.seqobj("prior poses", 24, {0: "f64", 8: "i64", 16: "i64"}, n)
        S.rb = True
        ex.write_k(v.st, v.map, Ptr(S, 0), "ptr")
        ex.write_k(v.st, v.mu, 0, "i32")
        v.K, v.L, v.T, v.n = ex.arr(v.st, S, 0), ex.arr(v.st, S, 8), ex.arr(v.st, S, 16), n
        v.assume(maps.sorted_fact(v.K, n))
        i = z3.Int("i!pp")
        for a, r, c in ((v.L, 3, 3), (v.T, 3, 1)):
            v.assume(z3.ForAll([i], z3.And(ROWS(a[i]) == r, COLS(a[i]) == c), patterns=[a[i]]))
        return v.s

    def which(self, ex, st, p):
        (s, r), = [o for o in ex.run_fn(ex.mod.fn("irvc_which"), [p], st) if o[1][0] == "ret"]
        return r[1]

    def now(self, v):
        S = maps.mget(v.ex, v.st, v.map)
        return [v.ex.arr(v.st, S, k) for k in (0, 8, 16)] + [Z(v.st.os(S).n)]

    def message(self, v):
        m = v.blob("given", 56)
        for i in range(7):
            v.cell(m, 8 * i, "f64", v.real("given[%d]" % i))
        return m

    def stamp(self, v):
        v.sec, v.nano = v.int("seconds", 0, (1 << 31) - 1), v.int("nanoseconds", 0, 999999999)
        v.t = z3.ToReal(v.sec * 1000000000 + v.nano)
        return [v.sec, v.nano]

    def two(self, v, fn, *args):
        l, t = v.blob("l", 8, lazy=False), v.blob("t", 8, lazy=False)
        self.call(v, fn, *args, l, t)
        return [Z(v.ex.read_k(v.st, p, "i64")) for p in (l, t)]

    def out(self, v, i):
        return ZR(v.ex.read_k(v.st, Ptr(v.ex.sent.obj, 8 * i), "f64"))

    def pose_of(self, v, l, t):
        m = v.blob("pose", 56, lazy=False)
        self.call(v, "irvc_sent", self.ref(v, l), self.ref(v, t), m)
        return [ZR(v.ex.read_k(v.st, Ptr(m.obj, 8 * i), "f64")) for i in range(7)]


class Start(Sub):
    def setup(self, v):
        s = self.base(v)
        v.given = self.message(v)
        return [s, self.call(v, self.maker, v.given, *self.stamp(v))]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        l, t = self.two(v, "irvc_given", v.given)
        K, L, T, n = self.now(v)
        k, j = z3.Ints("k!p j!p")
        same = lambda a, b, r, c: z3.And(*[EL(a, i, j) == EL(b, i, j) for i in range(r) for j in range(c)])
        r = v.ex.fint("place", st=v.st, lo=0, hi=MAXN)
        v.st.assume(r <= v.n, FA(k, z3.Implies(rng(0, k, r), v.K[k] < v.t), [v.K[k]]), FA(k, z3.Implies(z3.And(k >= r, k < v.n), v.K[k] >= v.t), [v.K[k]]))
        hit = z3.And(r < v.n, v.K[r] == v.t)
        return [("the pose is stored at its time stamp", z3.And(r < n, K[r] == v.t)),
                ("the stored rotation is the message's", same(L[r], l, 3, 3)),
                ("the stored translation is the message's", same(T[r], t, 3, 1)),
                ("one entry for a new time stamp", n == z3.If(hit, v.n, v.n + 1)),
                ("earlier entries stay", FA(k, z3.Implies(rng(0, k, r), z3.And(K[k] == v.K[k], L[k] == v.L[k], T[k] == v.T[k])))),
                ("later entries stay", FA(k, z3.Implies(z3.And(k > r, k < n), z3.And(*[a[k] == b[z3.If(hit, k, k - 1)] for a, b in ((K, v.K), (L, v.L), (T, v.T))])))),
                ("nothing is sent", z3.And(self.out(v, 0) == 0, self.out(v, 50) == 0))]


class StartPose(Start):
    name, rx, maker = "OptimizationStartPoseCallback", r"^irvc_start_pose$", "irvc_pose"


class StartOdom(Start):
    name, rx, maker = "OptimizationStartOdomCallback", r"^irvc_start_odom$", "irvc_odom"


DIAG = [1, 1, 1, Fraction(0.1), Fraction(0.1), Fraction(0.1)]


class Update(Sub):
    name, rx = "PoseUpdateCallback", r"^irvc_update$"

    def setup(self, v):
        s = self.base(v)
        e = self.call(v, "irvc_cloud", 1, *self.stamp(v))
        v.sec2, v.nano2 = v.int("surface seconds", 0, (1 << 31) - 1), v.int("surface nanoseconds", 0, 999999999)
        return [s, e, self.call(v, "irvc_cloud", 2, v.sec2, v.nano2)]

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        K, L, T, n = self.now(v)
        k = z3.Int("k!p")
        none = v.n == 0
        r = v.ex.fint("place", st=v.st, lo=0, hi=MAXN)
        v.st.assume(r <= v.n, FA(k, z3.Implies(rng(0, k, r), v.K[k] < v.t), [v.K[k]]), FA(k, z3.Implies(z3.And(k >= r, k < v.n), v.K[k] >= v.t), [v.K[k]]),
                    z3.Implies(r > 0, v.K[r - 1] < v.t), z3.Implies(r < v.n, v.K[r] >= v.t))
        before, after = v.t - v.K[r - 1], v.K[r] - v.t
        first = z3.And(r > 0, z3.Or(r == v.n, before <= after))
        second = z3.And(r < v.n, z3.Or(r == 0, after <= before))
        def sent(i):
            c = [clouds.READ(z3.IntVal(w)) for w in (1, 2)]
            al = self.al(v)
            m = [al.dim(MATCH[q](*c, v.L[i], v.T[i]), 3, d) for q, d in ((0, 3), (1, 1))]
            return self.pose_of(v, *m)
        a, b = sent(r - 1), sent(r)
        G = [("nothing is sent without a prior pose", z3.Implies(none, z3.And(self.out(v, 0) == 0, self.out(v, 50) == 0))),
             ("otherwise one pose and one transform are sent", z3.Implies(z3.Not(none), z3.And(self.out(v, 0) == 1, self.out(v, 50) == 1)))]
        for off, w in ((1, "pose"), (51, "transform")):
            x = [self.out(v, off + i) for i in range(7)]
            G.append(("the %s is the one matched from the prior closest in time" % w, z3.Implies(z3.Not(none), z3.Or(z3.And(first, *[p == q for p, q in zip(x, a)]), z3.And(second, *[p == q for p, q in zip(x, b)])))))
            G.append(("the %s carries the edge message's time" % w, z3.Implies(z3.Not(none), z3.And(self.out(v, off + 7) == z3.ToReal(v.sec), self.out(v, off + 8) == z3.ToReal(v.nano)))))
            G.append(("the %s is in the map frame" % w, z3.Implies(z3.Not(none), z3.And(self.out(v, off + 9) == 1, *([self.out(v, off + 10) == 1] if off == 51 else [])))))
        G.append(("the covariance is the fixed diagonal one", z3.Implies(z3.Not(none), z3.And(*[self.out(v, 100 + 6 * i + j) == (RV(DIAG[i]) if i == j else 0) for i in range(6) for j in range(6)]))))
        lim = v.t + 1000000000
        G += [("no prior beyond one second after the scan remains", z3.Implies(z3.Not(none), FA(k, z3.Implies(rng(0, k, n), K[k] <= lim)))),
              ("the other priors remain", z3.And(n <= v.n, FA(k, z3.Implies(z3.And(rng(0, k, v.n), v.K[k] <= lim), z3.And(k < n, K[k] == v.K[k], L[k] == v.L[k], T[k] == v.T[k]))),
                                                 FA(k, z3.Implies(rng(0, k, n), z3.And(K[k] == v.K[k], L[k] == v.L[k], T[k] == v.T[k])))))]
        return G


def RV(x):
    return z3.RealVal(str(x))


UNITS = [Unit("u_sub.cpp", [StartPose(), StartOdom(), Update()], incs=ALG)]
REPLAY = ["c31.cpp"]
ASSUME = ["matrix algebra of units/stubs/algebra (the quaternion of a rotation matrix and the matrix of a quaternion are uninterpreted)",
          "the optimiser gives some pose for every pair of clouds and start (its own properties: C14, C15)", "a message is decoded by PCL to one cloud (any cloud)",
          "std::map: entries in key order; allocation never fails", "which callbacks run, and when, is the ROS executor's and the synchroniser's; what is sent is what publish and sendTransform are given",
          "time stamps from 0 to 2^31 seconds, with less than 10^9 nanoseconds", "real arithmetic in place of double (a time in nanoseconds is exact)"]
