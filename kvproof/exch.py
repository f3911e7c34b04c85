"""Logical theory of the sparse exchange (Bruck's index algorithm) as seen by one rank.

A ghost value g (sort Exch) stands for one exchange in one direction: the number of ranks, this rank,
the direction, the bound on the number of steps, and the matrix of messages gmsg(g,s,d,q) - the message
from s to d contains the path q.  A message at distance x travels, for every power of two b <= x whose bit
is set in x, b ranks at the step of b; before that step it has travelled low(b,x) = x mod b.  SS says what
a rank sends at the step of b, stm that the queue of incoming messages is what the other ranks send
according to SS (the rely), snt that the messages sent so far obey SS (the guarantee)."""
import z3
from .theory import *
from . import theory
from .builtins import msg
from .heap import fresh

G = z3.DeclareSort('Exch')
Bo = BoolSort()
gn, grank, ghops = [F(n_, G, I) for n_ in ('gn', 'grank', 'ghops')]
gR = F('gR', G, Bo)
gD, gS = F('gD', G, S), F('gS', G, S)
gmsg = F('gmsg', G, I, I, Path, Bo)
dist = F('dist', G, I, I, I)
low = F('low', I, I, I)
bs = F('bs', I, I, Bo)
pow2 = F('pow2', I, Bo)
p2 = F('p2', I, I)
pc = F('pcnt', I, I, I)
SS = F('SS', G, I, I, Tree, Bo)
ss_d, ss_s = F('ss_d', G, I, I, Tree, S), F('ss_s', G, I, I, Tree, S)
ss_q = F('ss_q', G, I, I, Tree, Path)
stm = F('stm', G, B, Bo)
snt = F('snt', G, B, B, I, Bo)
bof = F('bof', G, B, I)            # the step at which the queue of messages starts
out0, inq0 = F('gout0', G, B), F('ginq0', G, B)     # messages sent and to come when the exchange starts at this rank
own = F('gown', G, I)                  # the number of steps that this rank asks for
agreed = F('gagreed', G, G)            # ghost: the number of steps has been agreed on
hdT = F('hdT', B, Tree)
tlB = F('tlB', B, B)
more = F('more', G, I, Bo)
IMAX = 2 ** 31 - 1
NMAX = 2 ** 30

g, o0, o1 = z3.Const('g', G), z3.Const('o0', B), z3.Const('o1', B)
i, j, r, s_, d_, b_, b2, xx, yy = [Int(n_) for n_ in ('i', 'j', 'r', 's', 'd', 'b', 'b2', 'xx', 'yy')]
dk, sk, kk, qq = Const('dk', S), Const('sk', S), Const('k', S), Const('q', Path)
T_ = Const('T', Tree)


def isr(k_, n_):
    """the text k is the canonical name of a rank"""
    return And(k_ == itos(atoi(k_)), atoi(k_) >= 0, atoi(k_) < n_)


def und(b_, x_):
    """a message at distance x is not handed over before the step of b"""
    return Or(b_ == 1, 2 * x_ >= b_)


def At(g, b_, r_, s_, d_):
    """before the step of b the message s -> d is at rank r"""
    x_ = dist(g, s_, d_)
    return And(dist(g, s_, r_) == low(b_, x_), und(b_, x_))


def up(g, r_, b_):
    return If(r_ + b_ >= gn(g), r_ + b_ - gn(g), r_ + b_)


def down(g, r_, b_):
    return If(r_ - b_ < 0, r_ - b_ + gn(g), r_ - b_)


def to(g, r_, b_):
    return If(gR(g), up(g, r_, b_), down(g, r_, b_))


def frm(g, r_, b_):
    return If(gR(g), down(g, r_, b_), up(g, r_, b_))


def PD(g, T, d_, s_, q_):
    """tree T holds path q of the message from s under destination d"""
    return PL(lst(T), gD(g), PCons(d_, PCons(gS(g), PCons(s_, q_))))


def leaves(g, b_, r_, s_, d_):
    """the message s -> d leaves rank r at the step of b"""
    y_ = dist(g, r_, d_)
    return And(At(g, b_, r_, s_, d_), d_ != r_, bs(b_, y_))


def ssdef(g, b_, r_, T, d_, s_, q_):
    n_ = gn(g)
    return PD(g, T, d_, s_, q_) == And(isr(d_, n_), isr(s_, n_), gmsg(g, atoi(s_), atoi(d_), q_), leaves(g, b_, r_, atoi(s_), atoi(d_)))


def wire(kind, peer, T):
    """the messages that carry tree T: its packed size, then its packed form"""
    return cat(msg(kind, peer, le(4, psz(T))), msg(kind, peer, enc(T)))


def coll(op, n):
    """a collective call that this rank takes part in"""
    return msg(9, num_(op) * 1024 + num_(n), eps)


def num_(x_):
    return x_ if isinstance(x_, int) else z3.simplify(x_).as_long()


def unfold(g, q_):
    """definition of stm: what the queue q starts with when steps remain"""
    b0 = fresh('b')
    src = frm(g, grank(g), b0)
    T, x_ = fresh('U', Tree), fresh('q', B)
    return [b0 == bof(g, q_), T == hdT(q_), x_ == tlB(q_), q_ == cat(wire(0, src, T), x_), okT(T), T != Null, psz(T) <= IMAX, wfT(T), SS(g, b0, src, T), stm(g, x_), bof(g, x_) == 2 * b0]


D('more', FA([g, b_], more(g, b_) == And(b_ < gn(g), Or(ghops(g) < 0, b_ < p2(ghops(g)))), more(g, b_)))
D('dist', FA([g, s_, d_], dist(g, s_, d_) == If(gR(g), If(d_ >= s_, d_ - s_, d_ - s_ + gn(g)), If(s_ >= d_, s_ - d_, s_ - d_ + gn(g))), dist(g, s_, d_)))
pd_ = PD(g, T_, dk, sk, qq)
D('SS_1', FA([g, b_, r, T_, dk, sk, qq], Implies(SS(g, b_, r, T_), ssdef(g, b_, r, T_, dk, sk, qq)), MultiPattern(pd_, SS(g, b_, r, T_))))
D('SS_3', FA([g, b_, r, T_, dk, qq], Implies(And(SS(g, b_, r, T_), PL(lst(T_), gD(g), PCons(dk, qq))), isr(dk, gn(g))), MultiPattern(PL(lst(T_), gD(g), PCons(dk, qq)), SS(g, b_, r, T_))))
_w = (ss_d(g, b_, r, T_), ss_s(g, b_, r, T_), ss_q(g, b_, r, T_))
D('SS_2', FA([g, b_, r, T_], Or(SS(g, b_, r, T_), Not(ssdef(g, b_, r, T_, *_w)), And(PL(lst(T_), gD(g), PCons(_w[0], _w[2])), Not(isr(_w[0], gn(g))))), SS(g, b_, r, T_)))
D('snt', FA([g, o0, o1, b_, r, T_], Implies(And(snt(g, o0, o1, b_), r == to(g, grank(g), b_), SS(g, b_, grank(g), T_)), snt(g, o0, cat(o1, wire(0, r, T_)), 2 * b_)),
            MultiPattern(snt(g, o0, o1, b_), cat(o1, wire(0, r, T_)))))
D('snt0', FA([g, o0, o1], Implies(o0 == o1, snt(g, o0, o1, 1)), snt(g, o0, o1, 1)))

# facts about powers of two below 2^30; each is checked for every one of them (bit_checks)
BITS = []


def bit(name, vs, body, *pats):
    """body(b, low, bs, band, vs) for every power of two b, all vs >= 0"""
    fs = lambda b_: body(b_, low, bs, band, pc, *vs)
    f = FA([b_] + vs, Implies(And(pow2(b_), *[v_ >= 0 for v_ in vs]), fs(b_)), *[p_(b_, *vs) for p_ in pats])
    theory.ASSUMED.append((name, f))
    BITS.append((name, vs, body))


bit('low', [xx], lambda b_, lo, bt, bn, c_, x_: And(lo(b_, x_) >= 0, lo(b_, x_) <= x_, lo(b_, x_) < b_, (lo(b_, x_) == x_) == (x_ < b_), Implies(b_ == 1, lo(b_, x_) == 0)), lambda b_, x_: low(b_, x_))
bit('low2', [xx, b2], lambda b_, lo, bt, bn, c_, x_, c2: Implies(c2 == 2 * b_, lo(c2, x_) == lo(b_, x_) + If(bt(b_, x_), b_, 0)), lambda b_, x_, c2: MultiPattern(low(b_, x_), low(c2, x_)))
bit('bs', [xx, yy], lambda b_, lo, bt, bn, c_, x_, y_: Implies(y_ == x_ - lo(b_, x_), bt(b_, y_) == bt(b_, x_)), lambda b_, x_, y_: MultiPattern(low(b_, x_), bs(b_, y_)))
bit('band', [yy], lambda b_, lo, bt, bn, c_, y_: (bn(y_, b_) != 0) == bt(b_, y_), lambda b_, y_: band(y_, b_))
bit('band2', [yy], lambda b_, lo, bt, bn, c_, y_: (bn(b_, y_) != 0) == bt(b_, y_), lambda b_, y_: band(b_, y_))
bit('low_bs', [xx], lambda b_, lo, bt, bn, c_, x_: Implies(bt(b_, x_), lo(b_, x_) + b_ <= x_), lambda b_, x_: bs(b_, x_))
A('pow2_1', And(pow2(1), p2(0) == 1))
A('pow2_2', FA([b_, b2], Implies(And(pow2(b_), b2 == 2 * b_, b2 <= NMAX), pow2(b2)), MultiPattern(pow2(b_), pow2(b2))))
A('pow2_r', FA([b_], Implies(pow2(b_), And(b_ >= 1, Or(b_ == NMAX, 2 * b_ <= NMAX))), pow2(b_)))
A('p2_2', FA([i, j], Implies(And(i >= 0, j == i + 1), p2(j) == 2 * p2(i)), MultiPattern(p2(i), p2(j))))
A('p2_m', FA([i, j], And(Implies(And(i >= 0, i < j), p2(i) < p2(j)), Implies(i == j, p2(i) == p2(j))), MultiPattern(p2(i), p2(j))))
A('p2_g', FA([i], Implies(i >= 0, p2(i) >= i + 1), p2(i)))
# number of hops of a message at distance x before the step of b
D('pcnt1', FA([xx], pc(1, xx) == 0, pc(1, xx)))
D('pcnt2', FA([b_, b2, xx], Implies(And(pow2(b_), b2 == 2 * b_), pc(b2, xx) == pc(b_, xx) + If(bs(b_, xx), 1, 0)), MultiPattern(pc(b_, xx), pc(b2, xx))))


def bit_checks():
    """every fact of BITS for b = 2^0 .. 2^30, with low = mod, bs = bit of the quotient, band = the bit's value"""
    import time
    out = []
    for name, vs, body in BITS:
        t0, ok = time.time(), True
        for e_ in range(31):
            n_ = 2 ** e_
            bt = lambda p_, x_: (x_ / p_) % 2 == 1
            lo = lambda p_, x_: x_ % (p_ if z3.is_int_value(p_) or not vs[-1:] or p_.get_id() != vs[-1].get_id() or name != 'low2' else IntVal(2 * n_))
            bn = lambda y_, p_: ((y_ / p_) % 2) * p_ if z3.is_int_value(p_) else ((p_ / y_) % 2) * y_
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*[v_ >= 0 for v_ in vs])
            if name == 'low2':
                s.add(vs[1] == 2 * n_)
            s.add(Not(body(IntVal(n_), lo, bt, bn, None, *vs)))
            if s.check() != z3.unsat:
                ok = False
        out.append(('bits:' + name, ok, time.time() - t0))
    return out
