"""Contracts of the client programs (clients.c): lemmas over the library's contracts."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .specs import spec, opt_str, same_paths, k_, q_
from .specs_buf import MAXKEY


def client(name, prop, strs, wf=False, short=False, trees=(0,), extra=None):
    """int client_<name>(tree, ...): returns 1, and the trees given are still well formed and owned by the caller;
    strs: positions of string arguments; trees in trees[1:] are given away"""
    @spec('client_' + name, file='clients.c', props=(prop, ))
    def _(e, a, ret):
        sp = Spec()
        pre, post, K = [], [], {}
        for n, i in enumerate(trees):
            T = sp.u('T%d' % n, Tree)
            pre += [ATree(a[i], T)] + ([Pure(a[i] != 0)] if n == 0 else []) + ([Pure(wfT(T), 'unique keys')] if wf else [])
        W = sp.x('W', Tree)
        post.append(ATree(a[trees[0]], W))
        for i in strs:
            k = K[i] = sp.u('k%d' % i, S)
            pre += [AStr(a[i], k)] + ([Pure(slen(k) < MAXKEY)] if short else [])
            post.append(AStr(a[i], k))
            if extra == 'differ':
                for j in strs:
                    if j < i:
                        pre.append(Pure(K[j] != k))
        sp.req(*pre)
        sp.case('holds', ret == 1, *post)
        return sp


client('set_get', 'C01', (1,), trees=(0, 2), wf=False)
client('unset_get', 'C01', (1,), wf=True)
client('extract_other', 'C01', (1, 2), wf=True, extra='differ')
client('set_other', 'C01', (1, 2), wf=True, trees=(0, 3), extra='differ')
client('kv', 'C04', (1, 2))
client('kv_int', 'C04', (1,))
client('kv_unset', 'C04', (1, 2), wf=True)
for _n in ('int', 'str', 'bytecount', 'unsigned_long', 'int64', 'ptr', 'crc32'):
    client(_n, 'C05', (1, 2) if _n == 'str' else (1,), wf=True, short=True)
client('two', 'C05', (1, 2), wf=True, short=True, extra='differ')
client('overwrite', 'C05', (1,), wf=True, short=True)
client('format', 'C06', (2,), trees=(0, 1), short=True)
client('format3', 'C06', (2, 3, 4), trees=(0, 1), short=True)


@spec('client_life', file='clients.c', props=('C01', 'C02'))
def _(e, a, ret):
    sp = Spec()
    k, k2 = sp.u('ka', S), sp.u('kb', S)
    sp.req(AStr(a[0], k), AStr(a[1], k2), Pure(k != k2))
    sp.case('holds', ret == 1, AStr(a[0], k), AStr(a[1], k2))
    return sp


@spec('client_pack_unpack', file='clients.c', props=('C08', 'C09'))
def _(e, a, ret):
    sp = Spec()
    src, out = a
    T, W, d = sp.u('T', Tree), sp.x('W', Tree), sp.x('d', I)
    sp.req(ATree(src, T), ABytes(out, IntVal(8), None), Pure(okT(T)))
    sp.case('holds', ret == 1, ATree(src, T), ACell(out, 8, d), ATree(d, W), Pure(ForAll([q_], P(W, q_) == P(T, q_), patterns=[P(W, q_)]), 'same paths'),
            Pure(Implies(wfT(T), wfT(W)), 'keys stay unique'))
    return sp


def ints(w):
    @spec('client_ints%d' % w, file='clients.c', props=('C10',))
    def _(e, a, ret):
        sp = Spec()
        buf, size, bp, v = a
        p, q = sp.u('pos', I), sp.x('pos2', I)
        room = p + w <= size
        sp.req(ACell(bp, 8, p), Pure(And(p >= 0, p < 2 ** 64, buf > 0)), AIf(room, [ABytes(buf + p, IntVal(w), None)], []))
        sp.case('holds', ret == 1, ACell(bp, 8, q), AIf(room, [ABytes(buf + p, IntVal(w), be(w, v))], []))
        return sp


for _w in (2, 4, 8):
    ints(_w)
