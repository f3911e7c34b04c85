"""Contracts of the library's functions.

Every contract is a python function (e, a, ret) -> Spec: a is the list of argument terms, ret the
result term.  sp.req(..) is the precondition, sp.case(name, guard, post..) the postcondition split
into cases (the guards must cover every outcome); sp.u/sp.x introduce universally/existentially
quantified logical variables.  Memory that is not mentioned in a postcondition must not be left
behind (leak check) and memory that is not mentioned in the precondition cannot be touched."""
import z3
from .engine import Contract, Spec, Unsupported
from .heap import *
from .theory import *

CONTRACTS = {}
SUCCESS, FAILURE = 0, 1


def spec(name, file='kvtree.c', props=(), inline=False, parts=1, **kw):
    def deco(f):
        c = Contract(name, f, file=file, **kw)
        c.props = props
        c.inline = inline
        CONTRACTS[name] = c
        if parts > 1:
            c.part = 0
            for i in range(1, parts):
                c2 = CONTRACTS['%s#%d' % (name, i)] = Contract(name, f, file=file, **kw)
                c2.props, c2.inline, c2.part = props, inline, i
        return f
    return deco


q_, k_ = Const('q', Path), Const('k', S)
B32, B8 = IntVal(32), IntVal(8)


def same_paths(T, A, Bt=None):
    """trees over lists: forall k,q. PL(T,k,q) == PL(A,k,q) or PL(B,k,q)"""
    return ForAll([k_, q_], PL(T, k_, q_) == (Or(PL(A, k_, q_), PL(Bt, k_, q_)) if Bt is not None else PL(A, k_, q_)),
                  patterns=[PL(T, k_, q_)])


def node_chunks(e, kp, k, hp, T):
    """a detached element: its struct, its key string and its tree"""
    return [ABlock(e, B32), ACell(e, 8, kp), ACell(e + 8, 8, hp), ABytes(e + 16, IntVal(16), None),
            AStr(kp, k), ABlock(kp, slen(k) + 1), ATree(hp, T), Pure(e > 0)]


def opt_str(p, k):
    return ANullOr(p, [AStr(p, k)])


class N:
    """logical variables of one element"""
    def __init__(self, sp, x, e=None, k=None):
        f = sp.x if x else sp.u
        self.e = f('e', I) if e is None else e
        self.kp = f('kp', I)
        self.k = f('key', S) if k is None else k
        self.hp = f('hp', I)
        self.T = f('sub', Tree)

    def cons(self, tl, T=None, hp=None):
        return Cons(self.e, self.kp, self.k, self.hp if hp is None else hp, self.T if T is None else T, tl)

    def chunks(self):
        return node_chunks(self.e, self.kp, self.k, self.hp, self.T)


# =============================================================== construction / destruction
@spec('kvtree_new', props=('C01', 'C02'))
def _(e, a, ret):
    sp = Spec()
    sp.case('new', ret != 0, ATree(ret, Node(Nil)))
    return sp


@spec('kvtree_elem_new', props=('C02',))
def _(e, a, ret):
    sp = Spec()
    sp.case('new', ret > 0, ABlock(ret, B32), ACell(ret, 8, IntVal(0)), ACell(ret + 8, 8, IntVal(0)), ABytes(ret + 16, IntVal(16), None))
    return sp


@spec('kvtree_elem_delete', props=('C02',))
def _(e, a, ret):
    sp = Spec()
    el = a[0]
    n = N(sp, False, e=el)
    sp.req(ANullOr(el, n.chunks()))
    sp.case('freed', ret == SUCCESS)
    return sp


@spec('kvtree_delete', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    pp = a[0]
    h, T = sp.u('h', I), sp.u('T', Tree)
    sp.req(ANullOr(pp, [ACell(pp, 8, h), ATree(h, T)]))
    sp.case('null', And(ret == SUCCESS, pp == 0))
    sp.case('freed', And(ret == SUCCESS, pp != 0), ACell(pp, 8, IntVal(0)))
    return sp


@spec('kvtree_elem_init', props=('C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    el, key, h = a
    k = sp.u('k', S)
    kp = sp.x('kp', I)
    sp.req(ANullOr(el, [ABlock(el, B32), ABytes(el, B8, None), ABytes(el + 8, B8, None)]), opt_str(key, k))
    sp.case('null', And(ret == 0, el == 0), opt_str(key, k))
    sp.case('nokey', And(ret == el, el != 0, key == 0), ABlock(el, B32), ACell(el, 8, IntVal(0)), ACell(el + 8, 8, h))
    sp.case('set', And(ret == el, el != 0, key != 0), ABlock(el, B32), ACell(el, 8, kp), AStr(kp, k), ABlock(kp, slen(k) + 1),
            ACell(el + 8, 8, h), AStr(key, k))
    return sp


# =============================================================== reading
@spec('kvtree_size', props=('C01', 'C07', 'C22'))
def _(e, a, ret):
    sp = Spec()
    T = sp.u('T', Tree)
    sp.req(ATree(a[0], T))
    sp.case('count', ret == len_(lst(T)), ATree(a[0], T))
    return sp


def lookup(sp, h, key, ret, found, miss):
    """common shape of every lookup: the element of the first matching key, or nothing"""
    T, k = sp.u('T', Tree), sp.u('k', S)
    pre, post, n = sp.x('pre', List), sp.x('post', List), N(sp, True, k=k)
    sp.req(ATree(h, T), opt_str(key, k))
    back = [ATree(h, T), opt_str(key, k)]
    return T, k, pre, post, n, back


@spec('kvtree_elem_get', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, key = a
    T, k, pre, post = sp.u('T', Tree), sp.u('k', S), sp.x('pre', List), sp.x('post', List)
    n = N(sp, True, e=ret, k=k)
    sp.req(ATree(h, T), opt_str(key, k))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
    sp.case('absent', And(ret == 0, h != 0, key != 0), ATree(h, T), AStr(key, k), Pure(Not(has(lst(T), k)), 'key reported absent'))
    W = Node(app(pre, n.cons(post)))
    sp.case('found', And(ret != 0, h != 0, key != 0), ATree(h, W), Pure(T == W, 'tree unchanged'), AStr(key, k),
            Pure(Not(has(pre, k)), 'first match'))
    return sp


@spec('kvtree_get', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, key = a
    T, k, pre, post = sp.u('T', Tree), sp.u('k', S), sp.x('pre', List), sp.x('post', List)
    n = N(sp, True, k=k)
    sp.req(ATree(h, T), opt_str(key, k))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
    sp.case('absent', And(ret == 0, h != 0, key != 0, Or(Not(has(lst(T), k)), lkh(lst(T), k) == 0)), ATree(h, T), AStr(key, k))
    W = Node(app(pre, Cons(n.e, n.kp, k, ret, n.T, post)))
    sp.case('found', And(ret != 0, h != 0, key != 0), ATree(h, W), Pure(T == W, 'tree unchanged'), AStr(key, k),
            Pure(Not(has(pre, k)), 'first match'), Pure(n.T != Null),
            Pure(And(lkh(lst(T), k) == ret, lkt(lst(T), k) == n.T), 'the tree stored under the key'))
    return sp


# accessors: used inlined by the other proofs, with contracts of their own
@spec('kvtree_elem_first', props=('C01', 'C22'), inline=True)
def _(e, a, ret):
    sp = Spec()
    h, T = a[0], sp.u('T', Tree)
    n, post = N(sp, True, e=ret), sp.x('post', List)
    sp.req(ATree(h, T))
    sp.case('empty', And(ret == 0, lst(T) == Nil), ATree(h, T))
    sp.case('first', ret != 0, ATree(h, Node(n.cons(post))), Pure(T == Node(n.cons(post))))
    return sp


@spec('kvtree_elem_next', props=('C01', 'C22'), inline=True)
def _(e, a, ret):
    sp = Spec()
    el = a[0]
    h, pre, post, n = sp.u('h', I), sp.u('pre', List), sp.u('post', List), N(sp, False, e=el)
    p2, m = sp.x('p2', List), N(sp, True, e=ret)
    W = Node(app(pre, n.cons(post)))
    sp.req(ANullOr(el, [ATree(h, W)]))
    sp.case('null', And(ret == 0, el == 0))
    sp.case('last', And(ret == 0, el != 0, post == Nil), ATree(h, W))
    W2 = Node(app(pre, n.cons(m.cons(p2))))
    sp.case('next', And(ret != 0, el != 0), AUnify(W2, W), ATree(h, W2))
    return sp


def elem_field(name, post):
    @spec(name, props=('C01', 'C22'), inline=True)
    def _(e, a, ret):
        sp = Spec()
        el = a[0]
        n = N(sp, False, e=el)
        sp.req(ANullOr(el, n.chunks()))
        sp.case('null', And(ret == 0, el == 0))
        sp.case('field', And(el != 0, ret == post(n)), *n.chunks())
        return sp


elem_field('kvtree_elem_key', lambda n: n.kp)
elem_field('kvtree_elem_hash', lambda n: n.hp)
elem_field('kvtree_elem_key_int', lambda n: atoi(n.k))


# =============================================================== modification
@spec('kvtree_elem_extract', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    return extract_spec(a[0], a[1], ret)


def extract_spec(h, key, ret):
    sp = Spec()
    T, k, pre, post = sp.u('T', Tree), sp.u('k', S), sp.x('pre', List), sp.x('post', List)
    n = N(sp, True, e=ret, k=k)
    sp.req(ATree(h, T), opt_str(key, k))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
    sp.case('absent', And(ret == 0, h != 0, key != 0), ATree(h, T), AStr(key, k), Pure(Not(has(lst(T), k)), 'key reported absent'))
    sp.case('found', And(ret != 0, h != 0, key != 0), *([AUnify(Node(app(pre, n.cons(post))), T)] + n.chunks() + [ATree(h, Node(app(pre, post))),
            AStr(key, k), Pure(Not(has(pre, k)), 'first match')]))
    return sp


@spec('kvtree_set', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, key, hv = a
    T, V, k = sp.u('T', Tree), sp.u('V', Tree), sp.u('k', S)
    pre, post, n = sp.x('pre', List), sp.x('post', List), N(sp, True, k=k)
    o = N(sp, True, k=k)
    sp.req(ATree(h, T), opt_str(key, k), ATree(hv, V))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k), ATree(hv, V))
    L2 = sp.x('L2', List)
    # new value under k, every other key keeps its position-independent value
    W = Node(Cons(n.e, n.kp, k, hv, V, L2))
    sp.case('set', And(ret == hv, h != 0, key != 0), ATree(h, W), AStr(key, k),
            Pure(removed(lst(T), L2, k, wfL(lst(T)))))
    return sp


def removed(L1, L2, k, wf):
    """L2 is L1 without its (first) element with key k"""
    return And(ForAll([k_, q_], Implies(k_ != k, PL(L2, k_, q_) == PL(L1, k_, q_)), patterns=[PL(L2, k_, q_)]),
               ForAll([k_], Implies(k_ != k, And(has(L2, k_) == has(L1, k_), lkh(L2, k_) == lkh(L1, k_), lkt(L2, k_) == lkt(L1, k_))), patterns=[has(L2, k_)]),
               Implies(wf, And(wfL(L2), Not(has(L2, k)))),
               Implies(Not(has(L1, k)), L2 == L1),
               Implies(has(L1, k), ForAll([q_], PL(L1, k, q_) == Or(P(lkt(L1, k), q_), PL(L2, k, q_)), patterns=[PL(L1, k, q_), PL(L2, k, q_)])),
               len_(L2) == len_(L1) - If(has(L1, k), 1, 0))


@spec('kvtree_extract', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, key = a
    T, k, pre, post = sp.u('T', Tree), sp.u('k', S), sp.x('pre', List), sp.x('post', List)
    n = N(sp, True, k=k)
    sp.req(ATree(h, T), opt_str(key, k))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
    sub, L2 = sp.x('sub', Tree), sp.x('L2', List)
    sp.case('ok', And(h != 0, key != 0), ATree(h, Node(L2)), AStr(key, k), ATree(ret, sub), Pure(ret == lkh(lst(T), k)), Pure(sub == lkt(lst(T), k)),
            Pure(removed(lst(T), L2, k, wfL(lst(T)))))
    return sp


@spec('kvtree_unset', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, key = a
    T, k, L2 = sp.u('T', Tree), sp.u('k', S), sp.x('L2', List)
    sp.req(ATree(h, T), opt_str(key, k))
    sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
    sp.case('ok', And(ret == SUCCESS, h != 0, key != 0), ATree(h, Node(L2)), AStr(key, k), Pure(removed(lst(T), L2, k, wfL(lst(T)))))
    return sp


@spec('kvtree_unset_all', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, T = a[0], sp.u('T', Tree)
    sp.req(ATree(h, T))
    sp.case('null', And(ret == SUCCESS, h == 0))
    sp.case('ok', And(ret == SUCCESS, h != 0), ATree(h, Node(Nil)))
    return sp


@spec('kvtree_merge', props=('C03', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h1, h2 = a
    T1, T2, W = sp.u('T1', Tree), sp.u('T2', Tree), sp.x('W', Tree)
    sp.req(ATree(h1, T1), ATree(h2, T2))
    sp.case('null', And(ret == FAILURE, h1 == 0), ATree(h2, T2))
    sp.case('ok', And(ret == SUCCESS, h1 != 0), ATree(h1, W), ATree(h2, T2), Pure(W != Null),
            Pure(ForAll([q_], P(W, q_) == Or(P(T1, q_), P(T2, q_)), patterns=[P(W, q_)]), 'union of the paths'),
            Pure(same_paths(lst(W), lst(T1), lst(T2)), 'union of the paths'),
            Pure(Implies(wfT(T1), wfT(W)), 'keys stay unique'))
    return sp


@spec('kvtree_elem_extract_by_addr', props=('C01', 'C02'))
def _(e, a, ret):
    sp = Spec()
    h, el = a
    pre, post, n = sp.u('pre', List), sp.u('post', List), N(sp, False, e=el)
    sp.req(Pure(el != 0), ATree(h, Node(app(pre, n.cons(post)))))
    sp.case('out', ret == el, *([ATree(h, Node(app(pre, post)))] + n.chunks()))
    return sp


@spec('kvtree_elem_extract_int', props=('C01', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, i = a
    T, pre, post = sp.u('T', Tree), sp.x('pre', List), sp.x('post', List)
    k = itos(i)
    n = N(sp, True, e=ret, k=k)
    sp.req(ATree(h, T))
    sp.case('null', And(ret == 0, h == 0), ATree(h, T))
    sp.case('absent', And(ret == 0, h != 0), ATree(h, T), Pure(Not(has(lst(T), k)), 'key reported absent'))
    sp.case('found', And(ret != 0, h != 0), *([AUnify(Node(app(pre, n.cons(post))), T)] + n.chunks() + [ATree(h, Node(app(pre, post))),
            Pure(Not(has(pre, k)), 'first match')]))
    return sp


def first_val(name, single):
    @spec(name, props=('C01', 'C05', 'C22'))
    def _(e, a, ret):
        sp = Spec()
        h, key = a
        T, k = sp.u('T', Tree), sp.u('k', S)
        p1, p2, p3 = sp.x('p1', List), sp.x('p2', List), sp.x('p3', List)
        n, m = N(sp, True, k=k), N(sp, True)
        sp.req(ATree(h, T), opt_str(key, k))
        sp.case('null', And(ret == 0, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k))
        sub = lst(lkt(lst(T), k))
        none = len_(sub) != 1 if single else sub == Nil
        sp.case('none', And(ret == 0, h != 0, key != 0, none), ATree(h, T), AStr(key, k))
        inner = Node(Cons(m.e, ret, m.k, m.hp, m.T, Nil if single else p3))
        W = Node(app(p1, Cons(n.e, n.kp, k, n.hp, inner, p2)))
        sp.case('first', And(ret != 0, h != 0, key != 0), ATree(h, W), Pure(T == W), AStr(key, k), Pure(Not(has(p1, k))))
        return sp


first_val('kvtree_elem_get_first_val', False)
first_val('kvtree_get_val', True)


# =============================================================== key/value pairs
def kv_args(sp, a, is_int):
    """(h, key term, k, val argument assertion, its string term)"""
    h, key, val = a
    k = sp.u('k', S)
    if is_int:
        return h, key, k, [], itos(val), z3.BoolVal(False)
    v = sp.u('v', S)
    return h, key, k, [opt_str(val, v)], v, val == 0


def kv(name, props=('C04', 'C02', 'C22')):
    def deco(f):
        spec(name, props=props)(lambda e, a, ret: f(a, ret, False))
        spec(name + '_int', props=props)(lambda e, a, ret: f(a, ret, True))
        return f
    return deco


@kv('kvtree_set_kv')
def _(a, ret, is_int):
    sp = Spec()
    T = sp.u('T', Tree)
    h, key, k, va, v, noval = kv_args(sp, a, is_int)
    sp.req(ATree(h, T), opt_str(key, k), *va)
    sp.case('null', And(ret == 0, Or(h == 0, key == 0, noval)), ATree(h, T), opt_str(key, k), *va)
    p1, p2, p3, p4 = [sp.x('p%d' % i, List) for i in range(4)]
    n, m = N(sp, True, k=k), N(sp, True, k=v)
    In = app(p3, Cons(m.e, m.kp, v, ret, m.T, p4))
    W = Node(app(p1, Cons(n.e, n.kp, k, n.hp, Node(In), p2)))
    V0 = lkt(lst(T), k)
    sp.case('ok', And(ret != 0, h != 0, key != 0, Not(noval)), ATree(h, W), AStr(key, k), *(va + [
        Pure(Not(has(p1, k)), 'first match'), Pure(Not(has(p3, v)), 'first match'), Pure(m.T != Null),
        Pure(ForAll([k_, q_], PL(lst(W), k_, q_) == Or(PL(lst(T), k_, q_), And(k_ == k, Or(q_ == PNil, q_ == PCons(v, PNil)))), patterns=[PL(lst(W), k_, q_)]),
             'exactly the pair is added'),
        Pure(ForAll([k_], Implies(k_ != k, And(lkh(lst(W), k_) == lkh(lst(T), k_), lkt(lst(W), k_) == lkt(lst(T), k_))), patterns=[lkh(lst(W), k_), lkt(lst(W), k_)]),
             'other keys untouched'),
        Pure(Implies(wfT(T), wfT(W)), 'keys stay unique'),
        Pure(Implies(lkh(lst(V0), v) != 0, And(W == T, ret == lkh(lst(V0), v))), 'an existing pair is returned as it is'),
        Pure(Implies(lkh(lst(V0), v) == 0, m.T == Node(Nil)), 'a new pair starts empty'),
        Pure(Implies(lst(V0) == Nil, And(p3 == Nil, p4 == Nil)), 'a new key holds only this value')]))
    return sp


@kv('kvtree_get_kv')
def _(a, ret, is_int):
    sp = Spec()
    T = sp.u('T', Tree)
    h, key, k, va, v, noval = kv_args(sp, a, is_int)
    sp.req(ATree(h, T), opt_str(key, k), *va)
    sp.case('null', And(ret == 0, Or(h == 0, key == 0, noval)), ATree(h, T), opt_str(key, k), *va)
    p1, p2, p3, p4 = [sp.x('p%d' % i, List) for i in range(4)]
    n, m = N(sp, True, k=k), N(sp, True, k=v)
    W = Node(app(p1, Cons(n.e, n.kp, k, n.hp, Node(app(p3, Cons(m.e, m.kp, v, ret, m.T, p4))), p2)))
    sp.case('absent', And(ret == 0, h != 0, key != 0, Not(noval), lkh(lst(lkt(lst(T), k)), v) == 0), ATree(h, T), AStr(key, k), *va)
    sp.case('found', And(ret != 0, h != 0, key != 0, Not(noval)), ATree(h, W), Pure(T == W, 'tree unchanged'), AStr(key, k), *(va + [
        Pure(Not(has(p1, k)), 'first match'), Pure(Not(has(p3, v)), 'first match'),
        Pure(lkh(lst(lkt(lst(T), k)), v) == ret, 'the tree stored under the pair')]))
    return sp


@kv('kvtree_unset_kv')
def _(a, ret, is_int):
    sp = Spec()
    T, L2 = sp.u('T', Tree), sp.x('L2', List)
    h, key, k, va, v, noval = kv_args(sp, a, is_int)
    sp.req(ATree(h, T), Pure(wfT(T)), opt_str(key, k), *va)
    sp.case('null', And(ret == SUCCESS, Or(h == 0, key == 0)), ATree(h, T), opt_str(key, k), *va)
    V = lst(lkt(lst(T), k))
    V2 = lst(lkt(L2, k))
    others = And(ForAll([k_, q_], Implies(k_ != k, PL(L2, k_, q_) == PL(lst(T), k_, q_)), patterns=[PL(L2, k_, q_)]),
                 ForAll([k_], Implies(k_ != k, And(has(L2, k_) == has(lst(T), k_), lkh(L2, k_) == lkh(lst(T), k_), lkt(L2, k_) == lkt(lst(T), k_))),
                        patterns=[has(L2, k_)]))
    if not is_int:
        sp.case('noval', And(ret == SUCCESS, h != 0, key != 0, noval), ATree(h, Node(L2)), AStr(key, k), *(va + [
            Pure(others, 'other keys untouched'), Pure(wfL(L2)), Pure(Implies(V != Nil, Node(L2) == T), 'nothing removed')]))
    sp.case('ok', And(ret == SUCCESS, h != 0, key != 0, Not(noval)), ATree(h, Node(L2)), AStr(key, k), *(va + [
        Pure(others, 'other keys untouched'), Pure(wfL(L2), 'keys stay unique'),
        Pure(ForAll([k_, q_], PL(V2, k_, q_) == And(k_ != v, PL(V, k_, q_)), patterns=[PL(V2, k_, q_)]), 'exactly the value is removed'),
        Pure(has(L2, k) == (V2 != Nil), 'the key is pruned when and only when no value is left')]))
    return sp


# =============================================================== packing
def elem_ro(el, n):
    return [ACell(el, 8, n.kp), AStr(n.kp, n.k), ACell(el + 8, 8, n.hp), ATree(n.hp, n.T)]


@spec('kvtree_elem_pack_size', props=('C08', 'C22'))
def _(e, a, ret):
    sp = Spec()
    el = a[0]
    n = N(sp, False, e=el)
    sp.req(ANullOr(el, elem_ro(el, n)))
    sp.case('null', And(el == 0, ret == 5))
    sp.case('size', And(el != 0, ret == slen(n.k) + 1 + psz(n.T)), *elem_ro(el, n))
    return sp


@spec('kvtree_pack_size', props=('C08', 'C22'))
def _(e, a, ret):
    sp = Spec()
    h, T = a[0], sp.u('T', Tree)
    sp.req(ATree(h, T))
    sp.case('size', ret == psz(T), ATree(h, T))
    return sp


@spec('kvtree_elem_pack', props=('C08', 'C22'))
def _(e, a, ret):
    sp = Spec()
    buf, el = a
    n = N(sp, False, e=el)
    x = sp.x('x', B)
    sp.req(AIf(el == 0, [ABytes(buf, IntVal(5), None)], elem_ro(el, n) + [ABytes(buf, slen(n.k) + 1 + psz(n.T), None)]))
    sp.case('null', And(el == 0, ret == 5), ABytes(buf, IntVal(5), x))
    sp.case('packed', And(el != 0, ret == slen(n.k) + 1 + psz(n.T)), ABytes(buf, slen(n.k) + 1 + psz(n.T), cat(str0(n.k), enc(n.T))), *elem_ro(el, n))
    return sp


@spec('kvtree_pack', props=('C08', 'C22'))
def _(e, a, ret):
    sp = Spec()
    buf, h = a
    T = sp.u('T', Tree)
    sp.req(ATree(h, T), ABytes(buf, psz(T), None))
    sp.case('packed', ret == psz(T), ABytes(buf, psz(T), enc(T)), ATree(h, T))
    return sp


@spec('kvtree_elem_unpack', props=('C09', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    buf, el = a
    k, U = sp.u('k', S), sp.u('U', Tree)
    kp, hp, W = sp.x('kp', I), sp.x('hp', I), sp.x('W', Tree)
    raw = [ABlock(el, B32), ABytes(el, B8, None), ABytes(el + 8, B8, None)]
    src = [AStr(buf, k), AEnc(buf + slen(k) + 1, U)]
    sp.req(ANullOr(el, raw + src))
    sp.case('null', And(ret == 0, el == 0))
    sp.case('unpacked', And(el != 0, ret == slen(k) + 1 + psz(U)), *(src + [ABlock(el, B32), ACell(el, 8, kp), AStr(kp, k), ABlock(kp, slen(k) + 1),
            ACell(el + 8, 8, hp), ATree(hp, W), Pure(W != Null),
            Pure(ForAll([q_], P(W, q_) == P(U, q_), patterns=[P(W, q_)]), 'same paths'), Pure(Implies(wfT(U), wfT(W)), 'keys stay unique')]))
    return sp


@spec('kvtree_unpack', props=('C09', 'C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    buf, h = a
    U, T, W = sp.u('U', Tree), sp.u('T', Tree), sp.x('W', Tree)
    sp.req(ATree(h, T), ANullOr(h, [AEnc(buf, U)]))
    sp.case('null', And(ret == 0, h == 0))
    sp.case('unpacked', And(h != 0, ret == psz(U)), AEnc(buf, U), ATree(h, W), Pure(W != Null),
            Pure(ForAll([q_], P(W, q_) == Or(P(T, q_), P(U, q_)), patterns=[P(W, q_)]), 'same paths'),
            Pure(Implies(And(wfT(T), wfT(U), disj(lst(T), lst(U))), wfT(W)), 'keys stay unique'))
    return sp
