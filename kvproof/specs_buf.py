"""Contracts: fixed-width integers in buffers, allocation helpers, persisted form, typed access."""
import z3
from .engine import Contract, Spec, Unsupported, Dbl
from .heap import *
from .theory import *
from .specs import spec, SUCCESS, FAILURE, opt_str, N, removed, CONTRACTS

SZ = 2 ** 64
MAGIC, TYPE, VERSION, FLAG_CRC, HEADER = 0x951fc3f5, 1, 1, 1, 20


# =============================================================== allocation helpers
@spec('kvtree_malloc', props=('C02',))
def _(e, a, ret):
    sp = Spec()
    sp.case('zero', And(a[0] == 0, ret == 0))
    sp.case('block', And(a[0] > 0, ret > 0), ABytes(ret, a[0], None), ABlock(ret, a[0]))
    return sp


@spec('kvtree_free', props=('C02', 'C22'))
def _(e, a, ret):
    sp = Spec()
    pp = a[0]
    p, n = sp.u('p', I), sp.u('n', I)
    sp.req(ANullOr(pp, [ACell(pp, 8, p), ANullOr(p, [ABlock(p, n), ABytes(p, n, None)])]))
    sp.case('null', pp == 0)
    sp.case('freed', pp != 0, ACell(pp, 8, IntVal(0)))
    return sp


# =============================================================== fixed-width integers
def fits(p, w, n):
    return p + w <= n


def pack_int(w):
    @spec('kvtree_pack_uint%d_t' % (8 * w), file='kvtree_helpers.c', props=('C10', 'C22'))
    def _(e, a, ret):
        sp = Spec()
        buf, n, bp, v = a
        p = sp.u('pos', I)
        room = And(buf != 0, bp != 0, fits(p, w, n))
        sp.req(ANullOr(bp, [ACell(bp, 8, p), Pure(And(p >= 0, p < SZ))]), AIf(room, [ABytes(buf + p, IntVal(w), None)], []))
        # memory not owned here cannot have been touched: on refusal neither buffer nor position changes
        sp.case('missing', And(ret == FAILURE, Or(buf == 0, bp == 0)), ANullOr(bp, [ACell(bp, 8, p)]))
        sp.case('refused', And(ret == FAILURE, buf != 0, bp != 0, Not(fits(p, w, n))), ACell(bp, 8, p))
        sp.case('stored', And(ret == SUCCESS, room), ABytes(buf + p, IntVal(w), be(w, v)), ACell(bp, 8, p + w))
        return sp


def unpack_int(w):
    @spec('kvtree_unpack_uint%d_t' % (8 * w), file='kvtree_helpers.c', props=('C10', 'C22'))
    def _(e, a, ret):
        sp = Spec()
        buf, n, bp, out = a
        p, x_ = sp.u('pos', I), sp.u('bytes', B)
        v = sp.x('v', I)
        room = And(buf != 0, bp != 0, out != 0, fits(p, w, n))
        sp.req(ANullOr(bp, [ACell(bp, 8, p), Pure(And(p >= 0, p < SZ))]),
               AIf(room, [ABytes(buf + p, IntVal(w), x_), ABytes(out, IntVal(w), None)], []))
        sp.case('missing', And(ret == FAILURE, Or(buf == 0, bp == 0, out == 0)), ANullOr(bp, [ACell(bp, 8, p)]))
        sp.case('refused', And(ret == FAILURE, buf != 0, bp != 0, out != 0, Not(fits(p, w, n))), ACell(bp, 8, p))
        sp.case('read', And(ret == SUCCESS, room), ACell(out, w, v), Pure(And(v >= 0, v < 2 ** (8 * w))), ABytes(buf + p, IntVal(w), x_),
                Pure(x_ == be(w, v), 'big-endian'), ACell(bp, 8, p + w))
        return sp


for _w in (2, 4, 8):
    pack_int(_w)
    unpack_int(_w)


# =============================================================== persisted form
def header(size, flags=None):
    flags = IntVal(FLAG_CRC) if flags is None else flags
    return cat(be(4, IntVal(MAGIC)), cat(be(2, IntVal(TYPE)), cat(be(2, IntVal(VERSION)), cat(be(8, size), be(4, flags)))))


def persisted(T):
    """the persisted form of tree T"""
    size = HEADER + psz(T) + 4
    h = header(size)
    body = cat(h, enc(T))
    return cat(body, be(4, crcf(body)))


@spec('kvtree_persist_size', props=('C11',))
def _(e, a, ret):
    sp = Spec()
    h, T = a[0], sp.u('T', Tree)
    sp.req(ATree(h, T))
    sp.case('size', ret == HEADER + psz(T) + 4, ATree(h, T))
    return sp


@spec('kvtree_write_persist', props=('C11', 'C22'))
def _(e, a, ret):
    sp = Spec()
    pb, ps, h = a
    T = sp.u('T', Tree)
    buf, size = sp.x('buf', I), sp.x('size', I)
    ok = And(pb != 0, ps != 0, h != 0)
    sp.req(ATree(h, T), AIf(ok, [ABytes(pb, IntVal(8), None), ABytes(ps, IntVal(8), None)], []))
    sp.case('missing', And(ret == FAILURE, Not(ok)), ATree(h, T))
    sp.case('persisted', And(ret == SUCCESS, ok), ACell(pb, 8, buf), ACell(ps, 8, size), Pure(size == HEADER + psz(T) + 4),
            ABlock(buf, size), ABytes(buf, size, persisted(T)), ATree(h, T))
    return sp


# =============================================================== format-string access
k0_, q0_ = Const('k', S), Const('q', Path)
MAXKEY = 1024
from .builtins import ftoa      # noqa


def level(L1, L2, k):
    """every key other than k is the same in both lists"""
    return And(ForAll([k0_, q0_], Implies(k0_ != k, PL(L2, k0_, q0_) == PL(L1, k0_, q0_)), patterns=[PL(L2, k0_, q0_)]),
               ForAll([k0_], Implies(k0_ != k, And(has(L2, k0_) == has(L1, k0_), lkh(L2, k0_) == lkh(L1, k0_), lkt(L2, k0_) == lkt(L1, k0_))),
                      patterns=[has(L2, k0_)]))


CTYPE = {'%s': 'char *', '%d': 'int', '%lld': 'long long', '%lu': 'unsigned long', '%#x': 'unsigned int', '%#lx': 'unsigned long',
         '%llu': 'unsigned long long', '%f': 'double', '%p': 'void *'}
TEXT = {'%d': itos, '%lld': itos, '%lu': utos, '%llu': utos, '%#x': xtos, '%#lx': xtos, '%p': ptos}


def keys_of(sp, toks, vals):
    """(assertions about the arguments, key terms, 'argument i is NULL' conditions, abort condition)"""
    A_, K, N_, AB = [], [], [], []
    for tk, v in zip(toks, vals):
        if tk == '%s':
            k = sp.u('k', S)
            A_.append(opt_str(v, k))
            K.append(k)
            N_.append(v == 0)
            AB.append(And(v != 0, slen(k) >= MAXKEY))
        elif tk == '%f':
            K.append(ftoa(v.t) if isinstance(v, Dbl) else ftoa(z3.Real('dbl_arg')))
            N_.append(z3.BoolVal(False))
        else:
            K.append(TEXT[tk](v))
            N_.append(z3.BoolVal(False))
    return A_, K, N_, Or(*AB) if AB else z3.BoolVal(False)


def nest(sp, K, inner):
    """pattern of a list along the path K[0..n-2]; inner(k) gives the innermost list; also returns the pieces of each level"""
    parts = []
    cur = inner
    nodes = []
    for k in reversed(K):
        p1, p2, n = sp.x('p', List), sp.x('q', List), N(sp, True, k=k)
        nodes.append((p1, n, p2))
        cur = app(p1, Cons(n.e, n.kp, k, n.hp, Node(cur), p2))
        parts.append(cur)
    return cur, list(reversed(nodes))


def path_sub(T, K):
    """the tree under the path K of T (Null when a key is missing)"""
    for k in K:
        T = lkt(lst(T), k)
    return T


def variant(base, toks, fmtarg, props, file='kvtree.c'):
    fmt = ' '.join(toks)

    def deco(f):
        c = Contract('%s@%s' % (base, fmt), lambda e, a, ret: f(e, a, ret, toks), file=file)
        c.props, c.inline = props, False
        c.fmt, c.fmtarg, c.extra = fmt, fmtarg, [CTYPE.get(t_, 'int') for t_ in toks]
        CONTRACTS[c.name] = c
        return f
    return deco


def fmt_args(e, toks, fmt_ptr, sp):
    c, addr, facts = e.lit(' '.join(toks))
    return [AStr(fmt_ptr, c), Pure(And(*facts))], [AStr(fmt_ptr, c)]


def setf_spec(e, a, ret, toks):
    sp = Spec()
    sp.unroll = 2 * len(toks) + 4
    h, hv, fp = a[:3]
    vals = a[3:]
    T, V = sp.u('T', Tree), sp.u('V', Tree)
    pre, post = fmt_args(e, toks, fp, sp)
    from .builtins import ArgModel
    sp.va = ArgModel(vals)
    A_, K, N_, AB = keys_of(sp, toks, vals)
    sp.abort = And(h != 0, AB)
    sp.req(ATree(h, T), ATree(hv, V), *(pre + A_))
    back = post + A_
    sp.case('null', And(ret == 0, h == 0), ATree(hv, V), *back)
    nn = Not(Or(*N_))
    fit = Not(AB)
    n = len(K)
    k = K[-1]
    L2, m = sp.x('L2', List), N(sp, True, k=k)
    inner = Cons(m.e, m.kp, k, hv, V, L2)
    whole, nodes = nest(sp, K[:-1], inner)
    facts = [Pure(removed(lst(path_sub(T, K[:-1])), L2, k, wfL(lst(path_sub(T, K[:-1])))), 'the last key maps to the given tree and only to it')]
    cur = T
    for i in range(n - 1):
        p1, nd, p2 = nodes[i]
        sub = inner if i == n - 2 else app(nodes[i + 1][0], Cons(nodes[i + 1][1].e, nodes[i + 1][1].kp, K[i + 1], nodes[i + 1][1].hp, Node(nest_list(nodes, K, inner, i + 2)), nodes[i + 1][2]))
        here = app(p1, Cons(nd.e, nd.kp, K[i], nd.hp, Node(sub), p2))
        facts += [Pure(Not(has(p1, K[i])), 'first match'), Pure(level(lst(path_sub(T, K[:i])), here, K[i]), 'other keys of level %d unchanged' % i),
                  Pure(Implies(lkh(lst(path_sub(T, K[:i])), K[i]) != 0, nd.hp == lkh(lst(path_sub(T, K[:i])), K[i])), 'an existing tree is kept')]
    facts += [Pure(Implies(And(wfT(T), wfT(V)), wfL(whole)), 'keys stay unique')]
    sp.case('set', And(ret == hv, h != 0, nn, fit), ATree(h, Node(whole)), *(back + facts))
    # a missing key argument: nothing is set, the keys before it may have been created
    if any(not z3.is_false(x_) for x_ in N_):
        for j, nj in enumerate(N_):
            if z3.is_false(nj):
                continue
            # argument j is the first missing one
            g = And(ret == 0, h != 0, nj, *([Not(x_) for x_ in N_[:j]]))
            if j == 0:
                sp.case('missing', g, ATree(h, T), ATree(hv, V), *back)
            else:
                W = sp.x('W', Tree)
                sp.case('missing', g, ATree(h, W), ATree(hv, V), *(back + [
                    Pure(level(lst(T), lst(W), K[0]), 'other keys unchanged')]))
    return sp


def nest_list(nodes, K, inner, i):
    """the list at depth i of the nested pattern"""
    if i >= len(nodes):
        return inner
    p1, nd, p2 = nodes[i]
    return app(p1, Cons(nd.e, nd.kp, K[i], nd.hp, Node(nest_list(nodes, K, inner, i + 1)), p2))


def getf_spec(e, a, ret, toks):
    sp = Spec()
    sp.unroll = 2 * len(toks) + 4
    h, fp = a[:2]
    vals = a[2:]
    T = sp.u('T', Tree)
    pre, post = fmt_args(e, toks, fp, sp)
    from .builtins import ArgModel
    sp.va = ArgModel(vals)
    A_, K, N_, AB = keys_of(sp, toks, vals)
    sp.abort = And(h != 0, AB)
    sp.req(ATree(h, T), *(pre + A_))
    back = post + A_
    sp.case('null', And(ret == 0, h == 0), *back)
    nn = Not(Or(*N_))
    up = lst(path_sub(T, K[:-1]))
    sp.case('missing', And(ret == 0, h != 0, Or(*N_)), ATree(h, T), *back, opt=all(z3.is_false(x_) for x_ in N_))
    sp.case('absent', And(ret == 0, h != 0, nn, lkh(up, K[-1]) == 0), ATree(h, T), *back)
    m, p1, p2 = N(sp, True, k=K[-1]), sp.x('p', List), sp.x('q', List)
    inner = app(p1, Cons(m.e, m.kp, K[-1], ret, m.T, p2))
    whole, nodes = nest(sp, K[:-1], inner)
    sp.case('found', And(ret != 0, h != 0, nn), ATree(h, Node(whole)), Pure(T == Node(whole), 'tree unchanged'), *(back + [
        Pure(Not(has(p1, K[-1])), 'first match')] + [Pure(Not(has(nd[0], kk)), 'first match') for nd, kk in zip(nodes, K)]
        + [Pure(lkh(up, K[-1]) == ret, 'the tree stored at the path')]))
    return sp


SETF = [['%s'], ['%d'], ['%s', '%lu'], ['%s', '%#x'], ['%s', '%lld'], ['%s', '%f'], ['%s', '%p'], ['%s', '%d'], ['%s', '%s'], ['%d', '%s'],
        ['%s', '%d', '%s'], ['%s', '%s', '%s'], ['%lu', '%#lx'], ['%llu', '%lld']]
for _f in SETF:
    variant('kvtree_setf', _f, 2, ('C06', 'C05') if _f[0] == '%s' and len(_f) == 2 else ('C06',))(setf_spec)
    variant('kvtree_getf', _f, 1, ('C06',))(getf_spec)


# =============================================================== typed access
from .builtins import strtodf, strtod_ok      # noqa
from .engine import dblb      # noqa


def one_value(sp, T, k, text, h):
    """(pattern of the list, facts): key k of the tree holds exactly one value, text; all other keys as in T"""
    p1, p2 = sp.x('p', List), sp.x('q', List)
    n, m = N(sp, True, k=k), N(sp, True, k=text)
    W = app(p1, Cons(n.e, n.kp, k, n.hp, Node(Cons(m.e, m.kp, text, m.hp, m.T, Nil)), p2))
    return W, [Pure(And(Not(has(p1, k)), Not(has(p2, k))), 'the key occurs once'),
               Pure(level(lst(T), W, k), 'all other keys unchanged'), Pure(wfL(W), 'keys stay unique'),
               Pure(lst(m.T) == Nil, 'the value has no children')]


def setter(name, text, limit, props=('C05', 'C22')):
    @spec('kvtree_util_set_' + name, file='kvtree_util.c', props=props)
    def _(e, a, ret):
        sp = Spec()
        h, key, val = a
        T, k = sp.u('T', Tree), sp.u('k', S)
        va, tx, noval = [], text and text(val), z3.BoolVal(False)
        if text is None:
            tx = sp.u('v', S)
            va, noval = [opt_str(val, tx)], val == 0
        sp.req(ATree(h, T), opt_str(key, k), Pure(wfT(T), 'keys are unique'), *va)
        if limit:
            sp.abort = And(h != 0, key != 0, slen(k) >= MAXKEY)
        sp.case('null', Or(h == 0, key == 0), ATree(h, T), opt_str(key, k), *va)
        if text is None:
            L2 = sp.x('L2', List)
            sp.case('noval', And(h != 0, key != 0, noval), ATree(h, Node(L2)), AStr(key, k),
                    Pure(removed(lst(T), L2, k, wfL(lst(T))), 'only the key is removed'))
        W, facts = one_value(sp, T, k, tx, h)
        sp.case('set', And(ret == SUCCESS, h != 0, key != 0, Not(noval)), ATree(h, Node(W)), AStr(key, k), *(va + facts))
        return sp


setter('int', lambda v: itos(v), False)
setter('str', None, False)
setter('bytecount', lambda v: utos(v), True)
setter('unsigned_long', lambda v: utos(v), True)
setter('crc32', lambda v: xtos(v % 2 ** 32), True)
setter('int64', lambda v: itos(v), True)
setter('ptr', lambda v: ptos(v), True)
setter('double', lambda v: ftoa(v.t if isinstance(v, Dbl) else z3.Real('dbl_arg')), True)


def getter(name, conv, width, single=True, okf=None, props=('C05', 'C22')):
    @spec('kvtree_util_get_' + name, file='kvtree_util.c', props=props)
    def _(e, a, ret):
        sp = Spec()
        h, key, out = a
        T, k = sp.u('T', Tree), sp.u('k', S)
        sub = lst(lkt(lst(T), k))
        text = ck(sub)
        there = And(h != 0, key != 0, len_(sub) == 1 if single else sub != Nil)
        ok = And(there, okf(text)) if okf is not None else there
        # without ownership of the output nothing can be stored there
        sp.req(ATree(h, T), opt_str(key, k), AIf(ok, [ABytes(out, IntVal(width), None), Pure(out > 0)], []))
        sp.case('nothing', And(ret == FAILURE, Not(ok)), ATree(h, T), opt_str(key, k))
        W = sp.x('W', Tree)
        sp.case('value', And(ret == SUCCESS, ok), ATree(h, W), Pure(W == T, 'tree unchanged'), AStr(key, k), conv(out, text, sub))
        return sp


cell = lambda w, f: (lambda out, text, sub: ACell(out, w, f(text)))
getter('int', cell(4, atoi), 4, single=False)
getter('str', lambda out, text, sub: ACell(out, 8, ckp(sub)), 8)
getter('bytecount', cell(8, strtoul0), 8)
getter('unsigned_long', cell(8, strtoul0), 8)
getter('crc32', cell(8, strtoul0), 8)
getter('int64', cell(8, strtoll0), 8)
getter('ptr', cell(8, sscanp), 8, okf=sscanp_ok)
getter('double', lambda out, text, sub: ABytes(out, IntVal(8), dblb(strtodf(text))), 8, okf=strtod_ok)


@spec('kvtree_atod', file='kvtree_helpers.c', props=('C05', 'C22'))
def _(e, a, ret):
    sp = Spec()
    s_, out = a
    k = sp.u('k', S)
    ok = And(s_ != 0, out != 0, strtod_ok(k))
    sp.req(opt_str(s_, k), AIf(ok, [ABytes(out, IntVal(8), None)], []))
    sp.case('refused', And(ret == FAILURE, Not(ok)), opt_str(s_, k))
    sp.case('value', And(ret == SUCCESS, ok), AStr(s_, k), ABytes(out, IntVal(8), dblb(strtodf(k))))
    return sp
# =============================================================== foreign bytes
V_, y_ = Const('V', Tree), Const('y', B)


def not_a_tree(C):
    """no bytes that start with the packed form of a tree"""
    return Pure(ForAll([V_, y_], Not(And(okT(V_), C == cat(enc(V_), y_))), patterns=[cat(enc(V_), y_)]), 'every packed tree is accepted',
                goal=ForAll([V_, y_], Not(And(tried(V_, y_), okT(V_), C == cat(enc(V_), y_)))))


@spec('kvtree_unpack_check', props=('C13', 'C12', 'C02'))
def _(e, a, ret):
    sp = Spec()
    buf, n = a
    C = sp.u('C', B)
    U, Y = sp.x('U', Tree), sp.x('Y', B)
    sp.req(ABytes(buf, n, C), Pure(buf > 0))
    sp.case('none', ret == 0, ABytes(buf, n, C), not_a_tree(C))
    sp.case('tree', And(ret > 0, ret <= n), AEnc(buf, U), ABytes(buf + ret, n - ret, Y), Pure(C == cat(enc(U), Y)), Pure(And(ret == psz(U), U != Null)))
    return sp
