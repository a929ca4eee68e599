"""C21 queue of aged messages."""
from common import *
import containers
import loops

MSGS, AGES = 8, 88      # members of AgedMessageQueue<long>: max_age, messages, ages


class _Q(Spec):
    nonempty = False

    def setup(self, v):
        q = v.q = v.blob("queue", 168)
        v.maxage = v.int("max_age")
        v.cell(q, 0, "i32", v.maxage)
        v.n = v.int("count", 1 if self.nonempty else 0, 1 << 40, 64)
        v.h = []
        for nm, off, st, k in (("messages", MSGS, 8, "i64"), ("ages", AGES, 4, "i32")):
            h = v.int("head_" + nm, 0, 1 << 40, 64)
            o = v.seqobj(nm, st, {0: k}, 0)
            containers.dset(v.ex, v.st, Ptr(q.obj, off), Ptr(o, imul(h, st)), v.n)
            v.h.append((o, h))
        v.M, v.A = v.ex.arr(v.st, v.h[0][0], 0), v.ex.arr(v.st, v.h[1][0], 0)
        k = z3.Int("k!q")
        v.top = z3.If(v.maxage > 1, v.maxage, 1)
        h = v.h[1][1]
        v.assume(FA(k, z3.Implies(rng(h, k, h + v.n), z3.And(v.A[k] >= 0, v.A[k] < v.top)), [v.A[k]]))
        return self.more(v)

    def more(self, v):
        return [v.q]

    def now(self, v):
        """(message k of the queue, its age, length) after the call"""
        r = []
        for off in (MSGS, AGES):
            b, n = containers.dget(v.ex, v.st, Ptr(v.q.obj, off))
            a, i0 = v.ex.arr(v.st, b.obj, 0), v.ex.split(b.obj, b.off)[0]
            r.append(((lambda a, i0: lambda k: a[Z(i0) + k])(a, i0), n))
        return r

    def was(self, v, k):
        return v.M[v.h[0][1] + k], v.A[v.h[1][1] + k]

    def inv(self, v):
        (m, n), (a, n2) = self.now(v)
        k = z3.Int("k!i")
        return [("as many ages as messages", Z(n) == Z(n2)), ("ages stay below the limit", FA(k, z3.Implies(rng(0, k, n2), z3.And(a(k) >= 0, a(k) < v.top))))]

    def same(self, v, lo, hi, sh):
        (m, n), (a, _) = self.now(v)
        k = z3.Int("k!s")
        return FA(k, z3.Implies(rng(lo, k, hi), z3.And(m(k) == self.was(v, k + sh)[0], a(k) == self.was(v, k + sh)[1])))

    def post(self, v, o):
        if o[0] == "throw":
            return [("never throws", False)]
        return self.inv(v) + self.goals(v, o)


class Push(_Q):
    name, rx = "push", r"^irvc_push$"

    def more(self, v):
        v.m = v.int("message", w=64)
        return [v.q, v.ref("m", "i64", v.m)]

    def goals(self, v, o):
        (m, n), (a, _) = self.now(v)
        return [("one message more", Z(n) == v.n + 1), ("the new message is last, not handed out yet", z3.And(m(v.n) == v.m, a(v.n) == 0)), ("the others stay", self.same(v, 0, v.n, 0))]


class Pop(_Q):
    name, rx, nonempty = "pop", r"^irvc_pop$", True

    def goals(self, v, o):
        (m, n), (a, _) = self.now(v)
        m0, a0 = self.was(v, 0)
        again = a0 + 1 < v.maxage
        return [("the first message is handed out", Z(o[1]) == m0),
                ("it leaves when it was handed out often enough, and queues up again otherwise", Z(n) == z3.If(again, v.n, v.n - 1)),
                ("it queues up behind all others, handed out once more", z3.Implies(again, z3.And(m(v.n - 1) == m0, a(v.n - 1) == a0 + 1))),
                ("the others stay in order", self.same(v, 0, v.n - 1, 1))]


class Size(_Q):
    name, rx = "size", r"^irvc_size$"

    def goals(self, v, o):
        return [("number of queued messages", Z(o[1]) == v.n), ("unchanged", self.same(v, 0, v.n, 0))]


class Clear(_Q):
    name, rx = "clear", r"^irvc_clear$"

    def goals(self, v, o):
        return [("empty", Z(self.now(v)[0][1]) == 0)]


class New(_Q):
    name, rx = "constructor", r"^irvc_new$"

    def setup(self, v):
        v.maxage = v.int("max_age")
        v.q = v.blob("queue", 168, lazy=False)
        v.top = z3.If(v.maxage > 1, v.maxage, 1)
        return [v.maxage, v.q]

    def goals(self, v, o):
        return [("empty", z3.And(Z(o[1]) == 0, Z(self.now(v)[0][1]) == 0)), ("limit", Z(v.ex.read_k(v.st, v.q, "i32")) == v.maxage)]


class Round(_Q):
    name, rx = "a round of pops", r"^irvc_round$"

    def more(self, v):
        o = v.seqobj("out", 8, {0: "i64"}, v.n)
        v.outo = o
        return [v.q, Ptr(o, 0)]

    def templates(self, v, lc):
        k = z3.Int("k!t")
        ints = [Z(i.logical()) for i in lc.ints()]
        for c in ints:
            for it in lc.items:
                if it.kind == "arr":
                    for (o, h), X in zip(v.h, (v.M, v.A)):
                        yield ("elements not reached yet", FA(k, z3.Implies(z3.And(k < h + v.n), it.sym[k] == X[k])))
                        for d in ints:
                            yield ("ages stay below the limit", FA(k, z3.Implies(z3.And(k >= h, k < h + c + d), z3.And(it.sym[k] >= 0, it.sym[k] < v.top))))
                    yield ("handed out in order", FA(k, z3.Implies(z3.And(k >= 0, k < c), it.sym[k] == v.M[v.h[0][1] + k])))
            for d in ints:
                yield ("queue does not run dry", d >= v.n - c)
                yield ("queue does not grow", d <= v.n)
                yield ("front moves on", d == c * 8 + v.h[0][1] * 8)
                for e in ints:
                    yield ("as many ages as messages", d == e)

    def goals(self, v, o):
        out = v.ex.arr(v.st, v.outo, 0)
        k = z3.Int("k!r")
        return [("one pop per message", Z(o[1]) == v.n), ("every message is handed out once, in order", FA(k, z3.Implies(rng(0, k, v.n), out[k] == self.was(v, k)[0])))]


class Order(Lemma):
    """over any history of push and pop (as specified above): messages identified by their arrival number"""
    name = "messages leave in order of arrival, after exactly the permitted number of uses"

    def goals(self, v):
        M, A = z3.Array("M", IntS, IntS), z3.Array("A", IntS, IntS)
        h, n, nxt, mx = z3.Ints("h n next max")
        top = z3.If(mx > 1, mx, 1)
        i, j = z3.Ints("i j")

        def inv(M, A, h, n, nxt):
            return z3.And(n >= 0,
                          FA(i, z3.Implies(rng(h, i, h + n), z3.And(M[i] < nxt, A[i] >= 0, A[i] < top))),
                          FA([i, j], z3.Implies(z3.And(rng(h, i, h + n), rng(h, j, h + n), i != j),
                                                z3.And(M[i] != M[j], z3.Implies(M[i] < M[j], z3.Or(A[i] > A[j], z3.And(A[i] == A[j], i < j)))))))
        I = inv(M, A, h, n, nxt)
        g = [("the empty queue is in order", [n == 0], I)]
        g.append(("push keeps the order", [I], inv(z3.Store(M, h + n, nxt), z3.Store(A, h + n, 0), h, n + 1, nxt + 1)))
        again = A[h] + 1 < mx
        g.append(("a pop that queues up again keeps the order", [I, n > 0, again], inv(z3.Store(M, h + n, M[h]), z3.Store(A, h + n, A[h] + 1), h + 1, n, nxt)))
        g.append(("a pop that discards keeps the order", [I, n > 0, z3.Not(again)], inv(M, A, h + 1, n - 1, nxt)))
        g.append(("a discarded message arrived before all that stay", [I, n > 0, z3.Not(again)], FA(j, z3.Implies(rng(h + 1, j, h + n), M[h] < M[j]))))
        g.append(("a discarded message was handed out the permitted number of times", [I, n > 0, z3.Not(again)], A[h] + 1 == top))
        return g


UNITS = [Unit("u_queue.cpp", [New(), Push(), Pop(), Size(), Clear(), Round(), Order()])]
REPLAY = ["c21.cpp"]
ASSUME = ["std::queue / std::deque behave as modelled (front position, length, element map)", "at most 2^40 messages in a queue", "the template is verified for messages of type long; the localizer instantiates it with shared pointers"]
