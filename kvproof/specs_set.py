"""Contracts of the single-process file sets (kvtree.c): memory safety, ownership, leaks, and that failures are reported."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import NEED, sprefix, sspn
from .specs import spec, SUCCESS, FAILURE, opt_str
from .specs_io import failed_call
from .specs_file import closed_file, after_error


@spec('kvtree_is_part_name', props=('C20',))
def _(e, a, ret):
    sp = Spec()
    name, pf = a
    k, p = sp.u('k', S), sp.u('p', S)
    sp.req(AStr(name, k), AStr(pf, p))
    dot, num_, n = e.lit('.0.')[0], e.lit('0123456789')[0], slen(p)
    yes = And(sprefix(n, k) == sprefix(n, p), sprefix(3, ssuf(n, k)) == sprefix(3, dot), slen(k) > n + 3, sspn(ssuf(n + 3, k), num_) == slen(k) - n - 3)
    sp.case('part file', And(ret == 1, yes), AStr(name, k), AStr(pf, p))
    sp.case('other file', And(ret == 0, Not(yes)), AStr(name, k), AStr(pf, p))
    return sp


def counts(e, s, slots, V0, Q):
    """integers that count the elements passed by a cursor"""
    C = []
    for d in V0:
        if d.endswith('.done'):
            for w in [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == I]:
                C.append(('%s counts %s' % (w, d), lambda W, w=w, d=d, c=V0[w]: And(W[w] >= c, W[w] <= c + len_(W[d]))))
    for t in [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == Tree]:
        C.append(('%s is a tree' % t, lambda W, t=t: W[t] != Null))
        C.append(('%s has unique keys' % t, lambda W, t=t: wfT(W[t])))
    for d in V0:
        if d.endswith('.rest'):
            C.append(('%s is not exhausted' % d, lambda W, d=d: isCons(W[d])))
    for w in [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == I]:
        C.append(('%s is 0 or 1' % w, lambda W, w=w: Or(W[w] == 0, W[w] == 1)))
    return C


@spec('kvtree_write_to_gather', props=('C20', 'C22'))
def _(e, a, ret):
    sp = Spec()
    prefix, h, ranks = a
    k, T, W, R = sp.u('k', S), sp.u('T', Tree), sp.x('W', Tree), sp.x('R', Tree)
    sp.req(AStr(prefix, k), ATree(h, T), Pure(NEED == 0))
    sp.loop_cands, sp.only_cands = counts, True
    sp.case('written', ret == SUCCESS, AStr(prefix, k), ATree(h, W), closed_file(sp, k, R))
    sp.case('failed', ret == FAILURE, AStr(prefix, k), ATree(h, W))
    return sp


@spec('kvtree_read_scatter_single', props=('C20', 'C22'))
def _(e, a, ret):
    sp = Spec()
    prefix, h = a
    k, T, W = sp.u('k', S), sp.u('T', Tree), sp.x('W', Tree)
    q, kk = z3.Const('q', Path), z3.Const('k', S)
    sp.req(AStr(prefix, k), ATree(h, T), Pure(T != Null), Pure(wfT(T)), Pure(NEED == 0))
    kept = Pure(ForAll([kk, q], Implies(PL(lst(T), kk, q), PL(lst(W), kk, q)), patterns=[PL(lst(T), kk, q)]), 'nothing the caller had is lost')
    sp.loop_cands, sp.only_cands = counts, True
    sp.case('gathered', ret == SUCCESS, AStr(prefix, k), ATree(h, W), kept)
    sp.case('failed', ret != SUCCESS, AStr(prefix, k), ATree(h, W), kept)
    return sp
