"""Contract of the sparse exchange (kvtree_mpi.c): what one rank does, relying on what the others send (exch.py)."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import PROC_NULL
from . import exch as X
from .specs import spec, CONTRACTS, SUCCESS, FAILURE, q_, same_paths
from .specs_mpi import Comm, MPI, kk_, qq_


def right(e):
    for u in e.units:
        if 'KVTREE_EXCHANGE_RIGHT' in u.enumnames:
            return u.enumnames['KVTREE_EXCHANGE_RIGHT']
    return 0


# ---- the sparse exchange: what one rank does, relying on what the others send (exch.py)
def mpi_res(s):
    for ch in s.heap:
        if isinstance(ch, Res) and ch.kind == 'mpi':
            return ch
    return None


class Exchange:
    """invariants of the loops of an exchange; a candidate that does not hold is dropped"""
    def __init__(self, sp, g, c, Tout):
        self.g, self.c, self.Tout, self.step = g, c, Tout, None

    def cands(self, e, s, slots, V0, Q):
        g, C = self.g, []
        add = lambda nm, f: C.append((nm, f))
        r, n = X.grank(g), X.gn(g)
        dk, sk, kk, qq = X.dk, X.sk, X.kk, X.qq
        inq = [k_ for k_, v_ in V0.items() if k_.endswith('.inq')]
        out = [k_ for k_, v_ in V0.items() if k_.endswith('.out')]
        res = mpi_res(s)
        if res is None:
            return []
        now = (lambda W: X.bof(g, W[inq[0]])) if inq else (lambda W: X.bof(g, res.data['inq']))
        ints = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == I]
        if inq:
            add('the queue holds what the other ranks send', lambda W: X.stm(g, W[inq[0]]))
            if out:
                add('the messages sent so far obey the protocol', lambda W: X.snt(g, self.c.out, W[out[0]], now(W)))
            add('steps are powers of two', lambda W: X.pow2(now(W)))
            for k_ in ints:
                add('%s is the distance of the step' % k_, lambda W, k_=k_: W[k_] == now(W))
                add('%s counts the steps' % k_, lambda W, k_=k_: And(W[k_] >= 0, X.p2(W[k_]) == now(W)))
                add('%s stays within the number of steps' % k_, lambda W, k_=k_: Or(X.ghops(g) < 0, W[k_] <= X.ghops(g)))
        trees = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == Tree]
        moved = [a_.name for a_ in slots if a_.mode == 'moved']
        empty = lambda t: V0[t].eq(Node(Nil))
        started = not res.data['inq'].eq(self.c.inq)      # the first step has been taken, or this is the loop over the steps
        dones = [k_ for k_ in V0 if k_.endswith('.done')]
        for d in dones:
            rest = d[:-4] + 'rest'
            add('%s: the keys are ranks' % d, lambda W, d=d, rest=rest: ForAll([dk], Implies(Or(has(W[d], dk), has(W[rest], dk)), X.isr(dk, n)), patterns=[has(W[d], dk), has(W[rest], dk)]))
        for t in trees:
            D_ = lambda W, d, q, t=t: PL(lst(W[t]), X.gD(g), PCons(d, q))
            PDt = lambda W, t=t: X.PD(g, W[t], dk, sk, qq)
            T0 = V0[t]
            add('%s: destinations are ranks' % t, lambda W, D_=D_: ForAll([dk, qq], Implies(D_(W, dk, qq), X.isr(dk, n)), patterns=[D_(W, dk, qq)]))
            add('%s: unique keys' % t, lambda W, t=t: wfT(W[t]))
            if inq:
                add('%s: the messages at this rank' % t, lambda W, PDt=PDt: ForAll([dk, sk, qq], PDt(W) == And(
                    X.isr(dk, n), X.isr(sk, n), X.gmsg(g, atoi(sk), atoi(dk), qq), X.At(g, now(W), r, atoi(sk), atoi(dk))), patterns=[PDt(W)]))
                if t not in moved:
                    add('%s: the messages handed over' % t, lambda W, t=t, T0=T0: ForAll([kk, qq], PL(lst(W[t]), kk, qq) == Or(PL(lst(T0), kk, qq), And(
                    X.isr(kk, n), X.gmsg(g, atoi(kk), r, qq), Not(X.und(now(W), X.dist(g, atoi(kk), r))))), patterns=[PL(lst(W[t]), kk, qq)]))
            for d in dones:
                if not started:
                    add('%s: own messages of %s' % (t, d), lambda W, PDt=PDt, d=d: ForAll([dk, sk, qq], PDt(W) == And(PL(W[d], dk, qq), sk == itos(r)), patterns=[PDt(W)]))
                if empty(t):
                    add('%s: destinations of %s' % (t, d), lambda W, D_=D_, d=d: ForAll([dk, qq], Implies(D_(W, dk, qq), has(W[d], dk)), patterns=[D_(W, dk, qq)]))
                for nm, sel in () if not started or not empty(t) else (('that leave', lambda W, x_: And(x_ != r, X.bs(now(W), X.dist(g, r, x_)))), ('that stay', lambda W, x_: And(x_ != r, Not(X.bs(now(W), X.dist(g, r, x_)))))):
                    add('%s: the elements of %s %s' % (t, d, nm), lambda W, D_=D_, d=d, sel=sel: ForAll([dk, qq], D_(W, dk, qq) == And(PL(W[d], dk, qq), sel(W, atoi(dk))), patterns=[D_(W, dk, qq)]))
                if started and not empty(t):
                    add('%s: messages of %s for this rank' % (t, d), lambda W, t=t, T0=T0, d=d: ForAll([kk, qq], PL(lst(W[t]), kk, qq) == Or(
                    PL(lst(T0), kk, qq), PL(W[d], itos(r), PCons(X.gS(g), PCons(kk, qq)))), patterns=[PL(lst(W[t]), kk, qq)]))
        return C

    def next_step(self, e, s, vs, n):
        """ghost code before a transfer: open the definition of the queue for one step"""
        res = mpi_res(s)
        if res is None:
            return
        q = res.data['inq']
        self.step = X.bof(self.g, q)
        e.oblige(s, And(X.stm(self.g, q), X.more(self.g, X.bof(self.g, q))), 'message', n, 'transfers in a step in which the other ranks do not')
        s.pc.extend(X.unfold(self.g, q))

    def sent(self, e, s, vs, n):
        """ghost code after a transfer: what was sent is what the receiver relies on"""
        res = mpi_res(s)
        ts, b, r, g = [], None, X.grank(self.g), self.g
        def scan(t):
            if z3.is_app(t):
                if t.decl().name() == 'enc' and not any(t.arg(0).eq(x_) for x_ in ts):
                    ts.append(t.arg(0))
                for c_ in t.children():
                    scan(c_)
        if res is None:
            return
        scan(res.data['out'])
        b = self.step
        if not ts or b is None:
            return
        T = ts[-1]
        dk, sk, qq = X.dk, X.sk, X.qq
        pd = X.PD(g, T, dk, sk, qq)
        D_ = PL(lst(T), X.gD(g), PCons(dk, qq))
        e.oblige(s, ForAll([dk, qq], Implies(D_, X.isr(dk, X.gn(g))), patterns=[D_]), 'message', n, 'sends something for a rank that does not exist')
        e.oblige(s, ForAll([dk, sk, qq], X.ssdef(g, b, r, T, dk, sk, qq), patterns=[pd]), 'message', n, 'sends something else than the receiver relies on')
        e.assume(s, X.SS(g, b, r, T))

    def paths(self, k_, q_):
        g, r = self.g, itos(X.grank(self.g))
        if q_ is None:
            return [(X.gD(g), PCons(k_, PNil))]
        own = PCons(X.gS(g), PCons(k_, q_))
        return [(r, own), (X.gD(g), PCons(r, own))]


@spec('kvtree_exchange_direction_hops', file=MPI, props=('C18',), parts=10)
def _(e, a, ret):
    sp = Spec()
    hin, hout, comm, dr, hops = a
    Tin, Tout, W = sp.u('Tin', Tree), sp.u('Tout', Tree), sp.x('W', Tree)
    o2, i2 = sp.x('o2', B), sp.x('i2', B)
    c = Comm(sp, comm)
    g = c.ex
    x = Exchange(sp, g, c, Tout)
    n, r = c.size, c.rank
    d_, s_ = X.d_, X.s_
    sp.abort = z3.BoolVal(True)      # trees of 2 GiB and more
    sp.req(ATree(hin, Tin), ATree(hout, Tout), c.res(), c.ok(), Pure(And(wfT(Tin), wfT(Tout))),
           Pure(And(X.gn(g) == n, X.grank(g) == r, X.gR(g) == (dr == right(e)), X.ghops(g) == hops, X.gD(g) == e.lit('D')[0], X.gS(g) == e.lit('S')[0])),
           Pure(And(X.stm(g, c.inq), X.bof(g, c.inq) == 1), 'the other ranks take part in the exchange'),
           Pure(ForAll([kk_], Implies(has(lst(Tin), kk_), X.isr(kk_, n)), patterns=[has(lst(Tin), kk_)]), 'destinations are ranks'),
           Pure(ForAll([d_, qq_], Implies(And(d_ >= 0, d_ < n), X.gmsg(g, r, d_, qq_) == PL(lst(Tin), itos(d_), qq_)), patterns=[X.gmsg(g, r, d_, qq_)]), 'the messages of this rank'),
           Pure(Implies(hops >= 0, ForAll([s_, d_, qq_], Implies(And(X.gmsg(g, s_, d_, qq_), s_ >= 0, s_ < n, d_ >= 0, d_ < n), X.dist(g, s_, d_) < X.p2(hops)), patterns=[X.gmsg(g, s_, d_, qq_)])), 'enough steps for every message'))
    sp.loop_cands, sp.only_cands = x.cands, True
    sp.paths = x.paths
    rt, some, out, tin = dr == right(e), lst(Tin) != Nil, hout != 0, hin != 0
    sp.split = [And(rt, some, out), And(Not(rt), some, out), And(rt, tin, out), And(Not(rt), tin, out), And(rt, out), And(Not(rt), out),
                And(rt, some), And(Not(rt), some), rt]
    sp.hooks['kvtree_sendrecv'] = x.next_step
    sp.hooks['kvtree_sendrecv:after'] = x.sent
    done = [c.res(out=o2, inq=i2), Pure(And(X.stm(g, i2), Not(X.more(g, X.bof(g, i2)))), 'takes as many steps as the other ranks'),
            Pure(X.snt(g, c.out, o2, X.bof(g, i2)), 'sends what the other ranks rely on')]
    sp.case('discarded', And(ret == SUCCESS, hout == 0), ATree(hin, Tin), *done)
    sp.case('exchanged', And(ret == SUCCESS, hout != 0), ATree(hin, Tin), ATree(hout, W), *done, Pure(wfT(W)),
            Pure(ForAll([kk_, qq_], PL(lst(W), kk_, qq_) == Or(PL(lst(Tout), kk_, qq_), And(X.isr(kk_, n), X.gmsg(g, atoi(kk_), r, qq_))), patterns=[PL(lst(W), kk_, qq_)]),
                 'exactly the messages for this rank, under the rank that sent them'))
    return sp


@spec('kvtree_exchange_direction', file=MPI, props=('C18',))
def _(e, a, ret):
    return CONTRACTS['kvtree_exchange_direction_hops'].build(e, a + [IntVal(-1)], ret)


# ---- the exchange in both directions
class Both:
    """ghost code of kvtree_exchange: gL and gR are the exchanges to the left and to the right, out of which the messages that this
    rank sends in each are whatever it hands to the exchange in that direction"""
    def __init__(self, sp, gL, gR, c, Tin):
        self.g, self.c, self.Tin = (gL, gR), c, Tin
        self.own = [X.own(gL), X.own(gR)]

    def allreduce(self, e, s, op, own, new, n):
        g, res = self.g, mpi_res(s)
        e.oblige(s, And(len(own) == 2, op == 'MPI_MAX', res.data['ex'] == self.c.ex, res.data['out'] == self.c.out), 'message', n, 'agrees on something else than the other ranks')
        if len(own) != 2 or not res.data['ex'].eq(self.c.ex):
            return
        upd_(s, ex=X.agreed(g[0]))
        s_, d_, N = X.s_, X.d_, X.gn(g[0])
        for x, v, w in zip(g, own, new):
            e.assume(s, X.own(x) == v, X.ghops(x) == w, w >= v)
            # what the other ranks contribute covers their messages
            e.assume(s, ForAll([s_, d_, qq_], Implies(And(X.gmsg(x, s_, d_, qq_), s_ != X.grank(x), s_ >= 0, s_ < N, d_ >= 0, d_ < N), X.dist(x, s_, d_) < X.p2(w)), patterns=[X.gmsg(x, s_, d_, qq_)]))

    def start(self, e, s, vs, n):
        res, g, d_, r = mpi_res(s), self.g, X.d_, X.grank(self.g[0])
        i = 1 if e.prove(s, vs[3] == right(e)) else 0
        x = g[i]
        before = X.agreed(g[0]) if i == 0 else g[0]
        if not res.data['ex'].eq(before):
            e.fail(s, 'message', n, 'the exchanges in the two directions are not made in the order of the other ranks')
            return
        T = None
        for ch in s.heap:
            if isinstance(ch, Tr) and (diff(ch.h, vs[0]) == 0 or e.prove(s, ch.h == vs[0])):
                T = ch.T
        if T is None:
            e.fail(s, 'message', n, 'the messages in one direction are not a tree of this function')
            return
        if i == 1:      # the other ranks go on with the exchange to the right
            e.oblige(s, And(X.stm(g[0], res.data['inq']), Not(X.more(g[0], X.bof(g[0], res.data['inq'])))), 'message', n, 'the exchange to the left is not finished')
            e.assume(s, X.stm(x, res.data['inq']), X.bof(x, res.data['inq']) == 1)
        e.assume(s, X.out0(x) == res.data['out'], X.inq0(x) == res.data['inq'])
        e.assume(s, ForAll([d_, qq_], Implies(And(d_ >= 0, d_ < X.gn(x)), X.gmsg(x, r, d_, qq_) == PL(lst(T), itos(d_), qq_)), patterns=[X.gmsg(x, r, d_, qq_)]))
        e.oblige(s, ForAll([d_, qq_], Implies(And(X.gmsg(x, r, d_, qq_), d_ >= 0, d_ < X.gn(x)), X.dist(x, r, d_) < X.p2(X.own(x))), patterns=[X.gmsg(x, r, d_, qq_)]), 'message', n, 'contributes too few steps for its messages')
        upd_(s, ex=x)

    def cands(self, e, s, slots, V0, Q):
        C = []
        add = lambda nm, f: C.append((nm, f))
        g, kk, qq = self.g, X.kk, X.qq
        r, n = X.grank(g[0]), X.gn(g[0])
        ints = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == I]
        trees = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == Tree]
        dones = [k_ for k_ in V0 if k_.endswith('.done')]
        const = [(a_.name, a_.v0) for a_ in slots if a_.kind == 'var' and a_.mode == 'same' and z3.is_expr(a_.v0) and a_.v0.sort() == I]
        const = [x_ for x_ in const if e.prove(s, And(x_[1] >= 0, x_[1] < n), quant=True)] if not dones else []
        for d in dones:
            rest = d[:-4] + 'rest'
            add('%s: the keys are ranks' % d, lambda W, d=d, rest=rest: ForAll([kk], Implies(Or(has(W[d], kk), has(W[rest], kk)), X.isr(kk, n)), patterns=[has(W[d], kk), has(W[rest], kk)]))
            for w in ints:
                add('%s is an int that is not negative' % w, lambda W, w=w: And(W[w] >= 0, W[w] < 2 ** 31))
            for t in trees:
                add('%s: unique keys' % t, lambda W, t=t: wfT(W[t]))
                add('%s: the keys are ranks of %s' % (t, d), lambda W, t=t, d=d: ForAll([kk], Implies(has(lst(W[t]), kk), And(has(W[d], kk), X.isr(kk, n))), patterns=[has(lst(W[t]), kk)]))
                for t2 in trees:
                    if t < t2:
                        add('%s and %s: the messages of %s' % (t, t2, d), lambda W, t=t, t2=t2, d=d: ForAll([kk, qq], PL(W[d], kk, qq) == Or(PL(lst(W[t]), kk, qq), PL(lst(W[t2]), kk, qq)),
                            patterns=[PL(W[d], kk, qq), PL(lst(W[t]), kk, qq), PL(lst(W[t2]), kk, qq)]))
                for w in ints:
                    for x in g:
                        add('%s: %s steps of %s' % (t, w, x), lambda W, t=t, w=w, x=x: ForAll([kk], Implies(has(lst(W[t]), kk), X.dist(x, r, atoi(kk)) < X.p2(W[w])), patterns=[has(lst(W[t]), kk)]))
        if not dones:
            for b in [b for b in ints if e.prove(s, X.pow2(V0[b]))]:
                add('%s is a power of two' % b, lambda W, b=b: X.pow2(W[b]))
                for w in ints:
                    if w != b:
                        add('%s is the number of the step of %s' % (w, b), lambda W, b=b, w=w: And(W[w] >= 1, W[b] == X.p2(W[w] - 1)))
                        add('%s is not negative and less than %s' % (w, b), lambda W, b=b, w=w: And(W[w] >= 0, W[w] < W[b]))
                        for k_, v_ in const:
                            add('%s steps suffice for %s below %s' % (w, k_, b), lambda W, b=b, w=w, v_=v_: X.low(W[b], v_) < X.p2(W[w]))
        return C


def upd_(s, **kw):
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'mpi':
            s.heap[i] = ch._replace(data=dict(ch.data, **kw))


@spec('kvtree_exchange', file=MPI, props=('C18',))
def _(e, a, ret):
    sp = Spec()
    hin, hout, comm = a
    Tin, Tout, W = sp.u('Tin', Tree), sp.u('Tout', Tree), sp.x('W', Tree)
    gL, gR = sp.u('gL', X.G), sp.u('gR', X.G)
    o2, i2 = sp.x('o2', B), sp.x('i2', B)
    c = Comm(sp, comm)
    x = Both(sp, gL, gR, c, Tin)
    n, r, d_ = c.size, c.rank, X.d_
    sp.abort = z3.BoolVal(True)      # trees of 2 GiB and more
    sp.req(ATree(hin, Tin), ATree(hout, Tout), c.res(), c.ok(), Pure(And(wfT(Tin), wfT(Tout))))
    for g, rt in ((gL, False), (gR, True)):
        sp.req(Pure(And(X.gn(g) == n, X.grank(g) == r, X.gR(g) == z3.BoolVal(rt), X.gD(g) == e.lit('D')[0], X.gS(g) == e.lit('S')[0])))
    sp.req(Pure(And(X.stm(gL, c.inq), X.bof(gL, c.inq) == 1), 'the other ranks take part in the exchange'),
           Pure(ForAll([kk_], Implies(has(lst(Tin), kk_), X.isr(kk_, n)), patterns=[has(lst(Tin), kk_)]), 'destinations are ranks'))
    sp.loop_cands, sp.only_cands = x.cands, True
    sp.hooks['MPI_Allreduce'] = x.allreduce
    sp.hooks['kvtree_exchange_direction_hops'] = x.start
    enums = e.u.enumnames
    done = [c.res(out=o2, inq=i2, ex=gR), Pure(X.out0(gL) == cat(c.out, X.coll(enums['MPI_MAX'], 2)), 'agrees on the number of steps with the other ranks first'),
            Pure(And(X.stm(gL, X.inq0(gR)), Not(X.more(gL, X.bof(gL, X.inq0(gR)))), X.stm(gR, i2), Not(X.more(gR, X.bof(gR, i2)))), 'takes as many steps as the other ranks'),
            Pure(And(X.snt(gL, X.out0(gL), X.out0(gR), X.bof(gL, X.inq0(gR))), X.snt(gR, X.out0(gR), o2, X.bof(gR, i2))), 'sends what the other ranks rely on'),
            Pure(ForAll([d_, qq_], Implies(And(d_ >= 0, d_ < n), Or(X.gmsg(gL, r, d_, qq_), X.gmsg(gR, r, d_, qq_)) == PL(lst(Tin), itos(d_), qq_)), patterns=[PL(lst(Tin), itos(d_), qq_)]),
                 'the messages sent in the two directions are the messages given')]
    sp.case('discarded', And(ret == SUCCESS, hout == 0), ATree(hin, Tin), *done)
    sp.case('exchanged', And(ret == SUCCESS, hout != 0), ATree(hin, Tin), ATree(hout, W), *done, Pure(wfT(W)),
            Pure(ForAll([kk_, qq_], PL(lst(W), kk_, qq_) == Or(PL(lst(Tout), kk_, qq_), And(X.isr(kk_, n), Or(X.gmsg(gL, atoi(kk_), r, qq_), X.gmsg(gR, atoi(kk_), r, qq_)))), patterns=[PL(lst(W), kk_, qq_)]),
                 'exactly the messages for this rank, under the rank that sent them'))
    return sp
