"""Contracts of the functions that print a tree.

Standard output is a resource: the text written so far.  prT (theory.py) says what a printed tree looks
like: one line per key in iteration order, two columns per level."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import STDOUT
from .specs import spec, SUCCESS

IMAX = 2 ** 31 - 1


def out(x):
    return ARes('stdout', STDOUT, dict(text=x))


def cands(ind0, mode, s, V0):
    """text printed so far = the lines of the elements passed"""
    C = []
    for k_, v_ in V0.items():
        if k_.endswith('.text'):
            for d in V0:
                if d.endswith('.done'):
                    for nm, ind in (('same', ind0), ('deeper', ind0 + 2)):
                        C.append(('%s: lines of %s (%s)' % (k_, d, nm), lambda W, k_=k_, d=d, v_=v_, ind=ind: W[k_] == cat(v_, prL(mode, W[d], ind))))
    return C


def printing(e, sp, h, ind, mode, T):
    x = sp.u('x', B)
    sp.req(ATree(h, T), out(x), Pure(ind + 2 * hgt(T) <= IMAX, 'the indentation stays in range'))
    sp.loop_cands = lambda e_, s, slots, V0, Q: cands(ind, mode, s, V0)
    return x


@spec('kvtree_print_mode', props=('C21', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, ind, mode = a
    T = sp.u('T', Tree)
    x = printing(e, sp, h, ind, mode, T)
    sp.req(Pure(Or(mode == 1, mode == 2), 'a known mode'))
    sp.case('printed', ret == SUCCESS, ATree(h, T), out(cat(x, prT(mode, T, ind))))
    return sp


@spec('kvtree_print', props=('C21', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, ind = a
    T = sp.u('T', Tree)
    x = printing(e, sp, h, ind, IntVal(1), T)
    sp.case('printed', ret == SUCCESS, ATree(h, T), out(cat(x, prT(1, T, ind))))
    return sp


@spec('kvtree_log', props=('C21', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, level, ind = a
    T = sp.u('T', Tree)
    sp.req(ATree(h, T), Pure(ind + 2 * hgt(T) <= IMAX, 'the indentation stays in range'))
    sp.case('logged', ret == SUCCESS, ATree(h, T))
    return sp
