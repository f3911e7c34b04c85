"""Contracts of the MPI transfers (kvtree_mpi.c).

A communicator is a resource: rank, size, out (messages sent so far), inq (messages that will be
received, in the order in which they are asked for).  The same function wire() says what a sender
puts on the wire and what a receiver relies on."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import msg, PROC_NULL
from . import exch as X
from .exch import wire
from .specs import spec, SUCCESS, FAILURE, q_, same_paths

MPI = 'kvtree_mpi.c'
IMAX = 2 ** 31 - 1


Ex = z3.DeclareSort('Exch')


class Comm:
    def __init__(self, sp, comm):
        self.c = comm
        self.out, self.inq, self.rank, self.size = sp.u('out', B), sp.u('inq', B), sp.u('rank', I), sp.u('size', I)
        self.ex = sp.u('ex', Ex)        # the exchange in progress (ghost)

    def res(self, out=None, inq=None, ex=None):
        return ARes('mpi', self.c, dict(out=self.out if out is None else out, inq=self.inq if inq is None else inq, rank=self.rank, size=self.size,
                                       ex=self.ex if ex is None else ex))

    def ok(self):
        return Pure(And(self.rank >= 0, self.rank < self.size, self.size < 2 ** 30))

    def coming(self, kind, peer, U, when):
        """the queue before: the messages of U, if something comes at all"""
        return [AIf(when, [self.res(inq=cat(wire(kind, peer, U), self.inq)), Pure(And(okT(U), psz(U) <= IMAX))], [self.res()]), self.ok()]


def received(T, W, U):
    """W is what the receiver holds: exactly the paths of the sent tree"""
    return [Pure(W != Null), Pure(ForAll([q_], P(W, q_) == P(U, q_), patterns=[P(W, q_)]), 'same paths as sent'),
            Pure(same_paths(lst(W), lst(U)), 'same paths as sent'),
            Pure(Implies(wfT(U), wfT(W)), 'keys stay unique')]


@spec('kvtree_send', file=MPI, props=('C17', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, peer, comm = a
    T = sp.u('T', Tree)
    c = Comm(sp, comm)
    sp.req(ATree(h, T), c.res(), c.ok())
    sp.abort = psz(T) > IMAX
    sp.case('nobody', And(ret == SUCCESS, peer == PROC_NULL), ATree(h, T), c.res())
    sp.case('sent', And(ret == SUCCESS, peer != PROC_NULL, psz(T) <= IMAX), ATree(h, T), c.res(out=cat(c.out, wire(0, peer, T))))
    return sp


@spec('kvtree_recv', file=MPI, props=('C17', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, peer, comm = a
    T, U, W = sp.u('T', Tree), sp.u('U', Tree), sp.x('W', Tree)
    c = Comm(sp, comm)
    sp.req(ATree(h, T), *c.coming(0, peer, U, And(h != 0, peer != PROC_NULL)))
    sp.case('null', And(ret == FAILURE, h == 0), c.res())
    sp.case('nobody', And(ret == SUCCESS, h != 0, peer == PROC_NULL), ATree(h, Node(Nil)), c.res())
    sp.case('received', And(ret == SUCCESS, h != 0, peer != PROC_NULL), ATree(h, W), c.res(), *received(T, W, U))
    return sp


@spec('kvtree_sendrecv', file=MPI, props=('C17', 'C22'))
def _(e, a, ret):
    sp = Spec()
    hs, to, hr, frm, comm = a
    S_, T, U, W = sp.u('S', Tree), sp.u('T', Tree), sp.u('U', Tree), sp.x('W', Tree)
    c = Comm(sp, comm)
    sp.req(ATree(hs, S_), ATree(hr, T), *c.coming(0, frm, U, frm != PROC_NULL))
    sp.abort = And(to != PROC_NULL, psz(S_) > IMAX)
    out = z3.If(to == PROC_NULL, c.out, cat(c.out, wire(0, to, S_)))
    ok = Or(to == PROC_NULL, psz(S_) <= IMAX)
    sp.case('only sent', And(ret == SUCCESS, frm == PROC_NULL, ok), ATree(hs, S_), ATree(hr, T), c.res(out=out))
    sp.case('discarded', And(ret == SUCCESS, frm != PROC_NULL, hr == 0, ok), ATree(hs, S_), c.res(out=out))
    sp.case('received', And(ret == SUCCESS, frm != PROC_NULL, hr != 0, ok), ATree(hs, S_), ATree(hr, W), c.res(out=out), *received(T, W, U))
    return sp


@spec('kvtree_bcast', file=MPI, props=('C17', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, root, comm = a
    T, U, W = sp.u('T', Tree), sp.u('U', Tree), sp.x('W', Tree)
    c = Comm(sp, comm)
    sp.req(ATree(h, T), *c.coming(1, root, U, c.rank != root), Pure(And(root >= 0, root < c.size)))
    sp.abort = And(c.rank == root, psz(T) > IMAX)
    sp.case('root', And(ret == SUCCESS, c.rank == root, psz(T) <= IMAX), ATree(h, T), c.res(out=cat(c.out, wire(1, root, T))))
    sp.case('discarded', And(ret == SUCCESS, c.rank != root, h == 0), c.res())
    sp.case('received', And(ret == SUCCESS, c.rank != root, h != 0), ATree(h, W), c.res(), *received(T, W, U))
    return sp


kk_, qq_ = Const('k', S), Const('q', Path)


@spec('kvtree_exchange_sendq', file=MPI, props=('C18', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, rank, m = a
    T, M, W = sp.u('T', Tree), sp.u('M', Tree), sp.x('W', Tree)
    sp.req(ATree(h, T), ATree(m, M), Pure(wfT(T), 'unique keys'))
    sp.case('null', And(ret == FAILURE, h == 0), ATree(m, M))
    sp.case('queued', And(ret == SUCCESS, h != 0), ATree(h, W), ATree(m, M), Pure(And(W != Null, wfT(W))),
            Pure(ForAll([kk_, qq_], PL(lst(W), kk_, qq_) == Or(PL(lst(T), kk_, qq_), And(kk_ == itos(rank), P(M, qq_))), patterns=[PL(lst(W), kk_, qq_)]),
                 'the message is added to what is queued for its destination, nothing else changes'))
    return sp
