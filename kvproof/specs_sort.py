"""Sorting: comparison functions, kvtree_sort, kvtree_sort_int, kvtree_list_int."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .specs import spec, CONTRACTS, SUCCESS


def cmp_text(name, order):
    @spec(name, props=('C07',))
    def _(e, a, ret):
        sp = Spec()
        pa, pb = sp.u('pa', I), sp.u('pb', I)
        ka, kb = sp.u('ka', S), sp.u('kb', S)
        own = [ACell(a[0], 8, pa), AStr(pa, ka), ACell(a[1], 8, pb), AStr(pb, kb)]
        sp.req(*own)
        x, y = (ka, kb) if order == 0 else (kb, ka)
        sp.case('order', And((ret < 0) == (scmp(x, y) < 0), (ret > 0) == (scmp(x, y) > 0)), *own)
        return sp
    CONTRACTS[name].order = order


def cmp_int(name, order):
    @spec(name, props=('C07',))
    def _(e, a, ret):
        sp = Spec()
        x, y = sp.u('x', I), sp.u('y', I)
        own = [ACell(a[0], 4, x), ACell(a[1], 4, y)]
        sp.req(*own, Pure(And(x >= -2 ** 31, x < 2 ** 31, y >= -2 ** 31, y < 2 ** 31)))
        u, v = (x, y) if order == 2 else (y, x)
        sp.case('order', And((ret < 0) == (u < v), (ret > 0) == (u > v)), *own)
        return sp
    CONTRACTS[name].order = order


cmp_text('kvtree_cmp_fn_str_asc', 0)
cmp_text('kvtree_cmp_fn_str_desc', 1)
cmp_int('kvtree_cmp_fn_int_asc', 2)
cmp_int('kvtree_cmp_fn_int_desc', 3)


def sorter(name, asc, desc):
    @spec(name, props=('C07', 'C22'))
    def _(e, a, ret):
        sp = Spec()
        h, d = a
        T, T2 = sp.u('T', Tree), sp.x('T2', Tree)
        sp.req(ATree(h, T))
        sp.case('null', And(ret == SUCCESS, h == 0), ATree(h, T))
        sp.case('sorted', And(ret == SUCCESS, h != 0), ATree(h, T2), Pure(T2 != Null),
                Pure(perm(lst(T2), lst(T)), 'the elements are the same, in another order'),
                Pure(Implies(d == 0, sortedL(asc, lst(T2))), 'ascending'),
                Pure(Implies(d == 1, sortedL(desc, lst(T2))), 'descending'))
        return sp


sorter('kvtree_sort', 0, 1)
sorter('kvtree_sort_int', 2, 3)


@spec('kvtree_list_int', props=('C07', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, pn, pv = a
    T, L_ = sp.u('T', Tree), sp.x('sorted', List)
    ar = sp.x('keys', AI)
    n0, v0 = sp.u('n0', B), sp.u('v0', B)
    v = sp.x('v', I)
    n = len_(lst(T))
    sp.req(ATree(h, T), AKeep(pn, IntVal(4), n0), AKeep(pv, IntVal(8), v0))
    sp.case('empty', And(ret == SUCCESS, n == 0), ATree(h, T), ACell(pn, 4, IntVal(0)), ACell(pv, 8, IntVal(0)))
    sp.case('keys', And(ret == SUCCESS, n != 0), ATree(h, T), ACell(pn, 4, n), ACell(pv, 8, v), ABlock(v, 4 * n),
            AArr(v, n, ((0, 4, True),), 4, (ar,)),
            ACall(lambda en, s, bind: None, lambda en, s, bind, un, node, what: bind_rep(en, s, bind, un, repI, ar, L_)),
            Pure(And(v != 0, repI(ar, L_, 0), perm(L_, lst(T)), len_(L_) == n, sortedL(2, L_))))
    return sp


def bind_rep(en, s, bind, un, rep, ar, L_):
    """the list whose elements the array holds"""
    A_ = en.inst(ar, bind)
    for r, arr, D, k in en.rep_facts(s):
        if r == rep.name() and en.same(s, arr, A_):
            b2 = dict(bind)
            b2[L_.get_id()] = (L_, D)
            yield s, b2
            return
    b2 = dict(bind)
    b2[L_.get_id()] = (L_, fresh('unknown', List))
    yield s, b2
