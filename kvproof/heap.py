"""Symbolic states, heap chunks and the assertion language of the contracts."""
from collections import namedtuple
import z3
from .theory import *

Cell = namedtuple('Cell', 'addr size val')              # [addr,addr+size) holds the integer/pointer val
Bytes = namedtuple('Bytes', 'addr n val')               # [addr,addr+n) holds byte sequence val (None: unknown/uninitialised)
Block = namedtuple('Block', 'addr n')                   # malloc'ed block of n bytes starting at addr (right to free it)
Seg = namedtuple('Seg', 'a b L')                        # pointer cells a (incl.) .. b (excl.) with the elements L between them
Lst = namedtuple('Lst', 'a L')                          # pointer cell a and all elements L behind it, NULL-terminated
Tr = namedtuple('Tr', 'h T')                            # tree of value T at h (h==0 iff T==Null)
Arr = namedtuple('Arr', 'addr stride n fields arrs')    # n records of stride bytes; fields ((off,size,signed),..), arrs z3 arrays
Res = namedtuple('Res', 'kind key data')                # ghost resource (open descriptor, MPI request, ...): data is a dict


class St:
    __slots__ = ('pc', 'env', 'heap', 'defs', 'ghost', 'trace')

    def __init__(self):
        self.pc, self.env, self.heap, self.defs, self.ghost, self.trace = [], {}, [], {}, {}, []

    def copy(self):
        s = St()
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.heap = list(self.heap)
        s.defs = dict(self.defs)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s

    def hnf(self, t):
        d = self.defs.get(t.get_id())
        n = 0
        while d is not None and n < 100:
            t = d[1]
            d = self.defs.get(t.get_id())
            n += 1
        return t

    def define(self, t, val):
        self.defs[t.get_id()] = (t, val)

    # --- lists as flat item sequences: ('n', (e,kp,k,hp,T)) | ('s', L)
    def flat(self, L):
        L = self.hnf(L)
        d = L.decl().name()
        if d == 'Nil':
            return []
        if d == 'Cons':
            ch = L.children()
            return [('n', tuple(ch[:5]))] + self.flat(ch[5])
        if d == 'app':
            return self.flat(L.arg(0)) + self.flat(L.arg(1))
        return [('s', L)]


def build(items):
    r = None
    for kd, x in reversed(items):
        if kd == 'n':
            r = Cons(*x, r if r is not None else Nil)
        else:
            r = x if r is None else app(x, r)
    return r if r is not None else Nil


_simp = {}


def simp(t):
    k = t.get_id()
    r = _simp.get(k)
    if r is None:
        if len(_simp) > 200000:
            _simp.clear()
        r = (t, z3.simplify(t))
        _simp[k] = r
    return r[1]


def num(t):
    """python int or None"""
    if isinstance(t, int):
        return t
    t = simp(t)
    return t.as_long() if z3.is_int_value(t) else None


_diff = {}


def diff(a, b):
    k = (a.get_id(), b.get_id())
    r = _diff.get(k)
    if r is None:
        if len(_diff) > 400000:
            _diff.clear()
        if k[0] == k[1]:
            d = 0
        else:
            d = num(a - b)
        r = (d, a, b)
        _diff[k] = r
    return r[0]


def base_off(t):
    """split an address into (symbolic base, constant offset)"""
    t = simp(t)
    if z3.is_int_value(t):
        return t, 0
    if z3.is_add(t):
        off = 0
        rest = []
        for c in t.children():
            if z3.is_int_value(c):
                off += c.as_long()
            else:
                rest.append(c)
        b = rest[0] if len(rest) == 1 else z3.Sum(rest)
        return b, off
    return t, 0


# ---------------------------------------------------------------- assertions
class Pure:
    def __init__(self, f, why=None, goal=None):
        self.f, self.why, self.goal = f, why, goal      # goal: an equivalent formula used where f has to be proved


class ATree(namedtuple('ATree', 'h T')):
    pass


class AList(namedtuple('AList', 'a L')):
    pass


class ACell(namedtuple('ACell', 'p size v')):
    pass


class ABytes(namedtuple('ABytes', 'p n val')):   # val None: any content
    pass


class AStr(namedtuple('AStr', 'p k')):
    pass


class AKeep(namedtuple('AKeep', 'p n val')):     # whatever [p,p+n) holds (initialised or not), named val
    pass


class ABlock(namedtuple('ABlock', 'p n')):
    pass


class AArr(namedtuple('AArr', 'p n fields stride arrs')):
    pass


class ARes(namedtuple('ARes', 'kind key data')):
    pass


class ANullOr(namedtuple('ANullOr', 'p body')):
    pass


class AIf(namedtuple('AIf', 'c yes no')):
    pass


class AOr(namedtuple('AOr', 'alts')):    # one of several lists of assertions
    pass


class AEnc(namedtuple('AEnc', 'p U')):    # the packed form of tree U starts at p
    pass


class AUnify(namedtuple('AUnify', 'pat val')):    # pat == val, binding the free variables of pat
    pass


class ACall(namedtuple('ACall', 'prod cons')):   # python callbacks (engine, state, binding)
    pass


_gid = [0]


def ghost(name, sort):
    _gid[0] += 1
    return z3.Const('%s!%d' % (name, _gid[0]), sort)


def fresh(name, sort=I):
    return ghost(name, sort)


_uv = {}


def subterms_consts(t):
    """set of ids of constants inside term t (cached)"""
    k = t.get_id()
    r = _uv.get(k)
    if r is None:
        if len(_uv) > 200000:
            _uv.clear()
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.get_id())
                st.extend(x.children())
        r = (t, out)
        _uv[k] = r
    return r[1]
