"""Contracts of the C library, zlib and system calls (trusted), as symbolic transitions."""
import re
import z3
from .heap import *
from .theory import *
from .cast import T as CT, INT, BASE, VOIDP
from . import engine as _e

TABLE = {}
FORCE = set()
GLOBALS = {}
USED = set()

NEED = z3.Int('NEEDLOCK')      # 1: this descriptor's content may only be touched under the lock
EINTR, EAGAIN = 4, 11
MAXRW = 0x7ffff000             # Linux: most bytes one read/write transfers


def B_(*names, force=False, lazy=False):
    def deco(f):
        def wrapped(e, s, node, argnodes):
            for nm in names:
                pass
            if lazy:
                yield from f(e, s, node, argnodes)
                return
            for s1, vs in e.ev_list(s, argnodes):
                yield from f(e, s1, node, vs)
        for nm in names:
            TABLE[nm] = wrapped
            if force:
                FORCE.add(nm)
        return f
    return deco


def put(s, p, n, val):
    s.heap.append(Bytes(simp(p), simp(n), val))


def peek(e, s, p, n, node, need_init=True):
    """content of [p,p+n) without consuming it; (ok, content)"""
    c = e.take_bytes(s, p, n, node)
    if c is False:
        return False, None
    if num(n) != 0:
        put(s, p, n, c)
    if c is None and need_init:
        e.fail(s, 'uninitialised', node, 'reading uninitialised bytes at %s' % p)
        return False, None
    return True, c


def the_str(e, s, p, node):
    if num(p) == 0 or e.prove(s, p == 0):
        e.fail(s, 'null-dereference', node, 'string argument is NULL')
        return None
    return e.take_str(s, p, node, keep=True)


# ------------------------------------------------------------------ allocation
def new_block(e, s, n, content=None, name='m'):
    p = fresh(name)
    e.assume(s, p > 0, p + n < 2 ** 62, n >= 0)
    for ch in s.heap:
        if isinstance(ch, Block):
            s.pc.append(p != ch.addr)
        elif isinstance(ch, Tr):
            s.pc.append(p != ch.h)
    put(s, p, n, content)
    s.heap.append(Block(p, simp(n)))
    return p


@B_('malloc')
def _(e, s, node, vs):
    yield s, new_block(e, s, vs[0])


@B_('calloc')
def _(e, s, node, vs):
    n = simp(vs[0] * vs[1])
    yield s, new_block(e, s, n, fresh('zeros', B))


@B_('free')
def _(e, s, node, vs):
    p = vs[0]
    for s1, isn in e.branch(s, p == 0):
        if isn:
            yield s1, None
            continue
        for s2, n in free_block(e, s1, p, node):
            yield s2, None


def free_block(e, s, p, node):
    """yields states; the block must be owned together with all its bytes"""
    work = [(s, 0)]
    while work:
        st, d = work.pop()
        hit = None
        for rnd in (0, 1):
            for i, ch in enumerate(st.heap):
                if isinstance(ch, Block):
                    q = diff(p, ch.addr)
                    if q == 0 or (rnd and q is None and e.prove(st, p == ch.addr)):
                        hit = i
                        break
            if hit is not None:
                break
        if hit is None:
            r = e.find_owner(st, p, 1, False) or e.find_owner(st, p, 1, True)
            if r and d < 10:
                work.extend((x, d + 1) for x in r)
                continue
            e.fail(st, 'free', node, 'free of %s: not an owned heap block (double free, or not from malloc)' % p)
            continue
        n = st.heap[hit].n
        del st.heap[hit]
        if num(n) == 8:
            # a tree head: opening it may need its first cell
            if not any(isinstance(ch, (Lst, Seg)) and diff(ch.a, p) == 0 for ch in st.heap):
                pass
            else:
                for i, ch in enumerate(st.heap):
                    if isinstance(ch, (Lst, Seg)) and diff(ch.a, p) == 0:
                        for s2 in list(e.open_list(st, i)):
                            c = e.take_bytes(s2, p, n, node)
                            if c is not False:
                                yield s2, n
                        break
                continue
        c = e.take_bytes(st, p, n, node)
        if c is not False:
            e.ok('free', node)
            yield st, n


# ------------------------------------------------------------------ strings
@B_('strdup')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    p = new_block(e, s, simp(slen(k) + 1), str0(k), 'sd')
    yield s, p


@B_('strlen')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is not None:
        e.assume(s, slen(k) >= 0, slen(k) < 2 ** 48)
        yield s, slen(k)


@B_('strcmp')
def _(e, s, node, vs):
    a = the_str(e, s, vs[0], node)
    if a is None:
        return
    b = the_str(e, s, vs[1], node)
    if b is None:
        return
    r = fresh('cmp')
    e.assume(s, (r == 0) == (a == b), (r < 0) == (scmp(a, b) < 0), (r > 0) == (scmp(a, b) > 0), r >= -2 ** 31, r < 2 ** 31)
    yield s, r


@B_('qsort')
def _(e, s, node, vs):
    """the array is rearranged: its entries describe the same elements in the order of the comparison function, which
    must be one whose contract says that it is a total order (contracts with an `order`)"""
    p, n, size, fn = vs
    for s1, empty in e.branch(s, n == 0):
        if empty:
            yield s1, IntVal(0)
            continue
        c_ = e.contracts.get(fn.name) if isinstance(fn, _e.FnRef) else None
        order = getattr(c_, 'order', None)
        if order is None:
            e.fail(s1, 'callback', node, 'qsort with a comparison function that is not known to be a total order')
            continue
        at = [i for i, ch in enumerate(s1.heap) if isinstance(ch, Arr) and (diff(p, ch.addr) == 0 or (diff(p, ch.addr) is None and e.prove(s1, p == ch.addr)))]
        if not at:
            e.fail(s1, 'memory', node, 'qsort on memory that is not an array of records')
            continue
        ch = s1.heap[at[0]]
        e.oblige(s1, n == ch.n, 'qsort', node, 'number of entries')
        e.oblige(s1, size == ch.stride, 'qsort', node, 'size of an entry')
        key = repK if order < 2 else repI
        kf = [q for q, (o_, w_, _) in enumerate(ch.fields) if o_ == 0 and w_ == (8 if order < 2 else 4)]
        facts = e.rep_facts(s1)
        D = None
        for r, arr, d_, k_ in facts:
            if kf and r == key.name() and e.same(s1, arr, ch.arrs[kf[0]]) and e.prove(s1, len_(d_) == n):
                D = d_
                break
        if D is None:
            e.fail(s1, 'qsort', node, 'the entries are not known to start with the keys of a list of elements')
            continue
        owner = None
        for i, c1 in enumerate(s1.heap):
            if isinstance(c1, Tr) and s1.hnf(c1.T).decl().name() == 'Node' and e.prove(s1, lst(c1.T) == D):
                owner = i
                break
        if owner is None and order < 2:
            e.fail(s1, 'memory', node, 'the keys that are compared are not owned')
            continue
        if owner is not None:
            s1.heap[owner] = Tr(s1.heap[owner].h, Node(D))
        L2 = fresh('ordered', List)
        e.assume(s1, len_(L2) == len_(D), perm(L2, D), sortedL(order, L2), taken(L2, n) == L2, dropn(L2, n) == Nil)
        arrs = []
        for q, a_ in enumerate(ch.arrs):
            x_ = fresh('arr', AI)
            arrs.append(x_)
            for r, arr, d_, k_ in facts:
                if d_.get_id() == D.get_id() and e.same(s1, arr, a_):
                    e.assume(s1, {'repE': repE, 'repK': repK, 'repI': repI}[r](x_, L2, IntVal(0)))
        s1.heap[at[0]] = ch._replace(arrs=tuple(arrs))
        yield s1, IntVal(0)


sprefix = z3.Function('sprefix', I, S, S)      # the first n bytes of a string


@B_('strncmp')
def _(e, s, node, vs):
    a = the_str(e, s, vs[0], node)
    if a is None:
        return
    b = the_str(e, s, vs[1], node)
    if b is None:
        return
    n = vs[2]
    pa, pb = sprefix(n, a), sprefix(n, b)
    for k_, p_ in ((a, pa), (b, pb)):
        e.assume(s, Implies(slen(k_) <= n, p_ == k_), slen(p_) == z3.If(slen(k_) <= n, slen(k_), n))
    r = fresh('cmp')
    e.assume(s, (r == 0) == (pa == pb), (r < 0) == (scmp(pa, pb) < 0), (r > 0) == (scmp(pa, pb) > 0), r >= -2 ** 31, r < 2 ** 31)
    yield s, r


sspn = z3.Function('sspn', S, S, I)      # how many of the first characters of a string occur in another


@B_('strspn')
def _(e, s, node, vs):
    a = the_str(e, s, vs[0], node)
    if a is None:
        return
    b = the_str(e, s, vs[1], node)
    if b is None:
        return
    e.assume(s, sspn(a, b) >= 0, sspn(a, b) <= slen(a))
    yield s, sspn(a, b)


# ------------------------------------------------------------------ directories
dirpart = z3.Function('dirpart', S, S)
basepart = z3.Function('basepart', S, S)


def _pathpart(name, f):
    def go(e, s, node, vs):
        p = vs[0]
        k = the_str(e, s, p, node)
        if k is None:
            return
        c, n = f(k), simp(slen(k) + 1)
        e.assume(s, slen(c) >= 0, slen(c) < 2 ** 48)
        # in memory of the library, or in the argument, whose other bytes are lost
        s2 = s.copy()
        q = fresh('static_' + name)
        e.assume(s, q > 0, q + slen(c) + 1 < 2 ** 62)
        put(s, q, simp(slen(c) + 1), str0(c))
        if e.take_bytes(s, p, n, node) is False:
            return
        put(s, p, n, None)
        yield s, q
        o = fresh('at_' + name)
        e.assume(s2, o >= 0, o + slen(c) <= slen(k))
        if name == 'dirname':
            e.assume(s2, o == 0)
            o = IntVal(0)
        if e.take_bytes(s2, p, n, node) is False:
            return
        if num(o) is None:
            put(s2, p, o, None)
        put(s2, simp(p + o), simp(slen(c) + 1), str0(c))
        put(s2, simp(p + o + slen(c) + 1), simp(slen(k) - o - slen(c)), None)
        yield s2, simp(p + o)
    return go


B_('dirname')(_pathpart('dirname', dirpart))
B_('basename', '__xpg_basename')(_pathpart('basename', basepart))


def dir_get(e, s, d, node, what):
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'dir' and e.prove(s, ch.key == d):
            return i
    e.fail(s, 'resource', node, '%s of a directory that is not open' % what)
    return None


@B_('opendir')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    s2 = s.copy()
    d = fresh('dirp')
    e.assume(s, d > 0, d < 2 ** 62)
    n = fresh('entries')          # a directory holds finitely many entries
    e.assume(s, n >= 0)
    s.heap.append(Res('dir', d, dict(path=k, left=n)))
    yield s, d
    errno_set(e, s2)
    yield s2, IntVal(0)


def drop_entries(s):
    s.heap[:] = [ch for ch in s.heap if not (isinstance(ch, Bytes) and str(ch.addr).startswith('static_dirent'))]


@B_('readdir', 'readdir64')
def _(e, s, node, vs):
    i = dir_get(e, s, vs[0], node, 'readdir')
    if i is None:
        return
    n = s.heap[i].data['left']
    s2 = s.copy()
    drop_entries(s2)
    e.assume(s, n >= 1)
    s.heap[i] = upd_res(s.heap[i], left=simp(n - 1))
    drop_entries(s)
    p, c = fresh('static_dirent'), fresh('fname', S)
    off = 19          # offset of d_name (checked against the declaration)
    e.assume(s, p > 0, p + off + 256 < 2 ** 62, slen(c) >= 1, slen(c) < 256)
    put(s, simp(p + off), simp(slen(c) + 1), str0(c))
    yield s, p
    yield s2, IntVal(0)


@B_('closedir')
def _(e, s, node, vs):
    i = dir_get(e, s, vs[0], node, 'closedir')
    if i is None:
        return
    del s.heap[i]
    drop_entries(s)
    s2 = s.copy()
    yield s, IntVal(0)
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('strtok_r', '__strtok_r')
def _(e, s, node, vs):
    # on text known to the verifier only (copies of literals)
    p, dl, sv = vs
    if num(p) == 0:
        sts = list(e.read(s, sv, VOIDP, node))
    else:
        sts = [(s, p)]
    for s1, q in sts:
        kd = the_str(e, s1, dl, node)
        delim = lit_text(e, s1, kd) if kd is not None else None
        if delim is None:
            raise _e.Unsupported('strtok_r with unknown delimiters')
        at_end = any(isinstance(ch, Bytes) and ch.val is not None and ch.val.decl().name() == 'str0' and diff(q, simp(ch.addr + ch.n)) == -1 for ch in s1.heap)
        if at_end:
            yield s1, IntVal(0)
            continue
        k = e.take_str(s1, q, node)
        if k is None:
            continue
        text = lit_text(e, s1, k)
        if text is None:
            raise _e.Unsupported('strtok_r on unknown text')
        b = 0
        while b < len(text) and text[b] in delim:
            b += 1
        x = b
        while x < len(text) and text[x] not in delim:
            x += 1
        if b:
            if b == len(text):
                put(s1, q, IntVal(b), fresh('skipped', B))
                put(s1, simp(q + b), IntVal(1), str0(e.lit_const(s1, '')))
                for s2 in e.write(s1, sv, VOIDP, simp(q + b), node):
                    yield s2, IntVal(0)
                continue
            put(s1, q, IntVal(b), fresh('skipped', B))
        if not text:
            put(s1, q, IntVal(1), str0(e.lit_const(s1, '')))
            for s2 in e.write(s1, sv, VOIDP, q, node):
                yield s2, IntVal(0)
            continue
        put(s1, simp(q + b), IntVal(x - b + 1), str0(e.lit_const(s1, text[b:x])))
        if x < len(text):
            put(s1, simp(q + x + 1), IntVal(len(text) - x), str0(e.lit_const(s1, text[x + 1:])))
            nx = simp(q + x + 1)
        else:
            nx = simp(q + x)
        for s2 in e.write(s1, sv, VOIDP, nx, node):
            yield s2, simp(q + b)


def write_str(e, s, p, k, node):
    n = simp(slen(k) + 1)
    e.assume(s, slen(k) >= 0, slen(k) < 2 ** 48)
    c = e.take_bytes(s, p, n, node)
    if c is False:
        return False
    put(s, p, n, str0(k))
    return True


@B_('strcpy', '__builtin_strcpy')
def _(e, s, node, vs):
    k = the_str(e, s, vs[1], node)
    if k is None:
        return
    if write_str(e, s, vs[0], k, node):
        yield s, vs[0]


@B_('memcpy', '__builtin_memcpy', 'memmove')
def _(e, s, node, vs):
    d, p, n = vs
    for s1, z in e.branch(s, n == 0):
        if z:
            yield s1, d
            continue
        ok, c = peek(e, s1, p, n, node)
        if not ok:
            continue
        r = e.take_bytes(s1, d, n, node)
        if r is False:
            continue
        put(s1, d, n, c)
        yield s1, d


@B_('memset', '__builtin_memset')
def _(e, s, node, vs):
    d, v, n = vs
    for s1, z in e.branch(s, n == 0):
        if z:
            yield s1, d
            continue
        r = e.take_bytes(s1, d, n, node)
        if r is False:
            continue
        f = fresh('fill', B)
        e.assume(s1, blen(f) == n)
        put(s1, d, n, f)
        yield s1, d


def memchr0(e, s, p, n, node):
    """memchr(p, 0, n)"""
    ok, c = peek(e, s, p, n, node)
    if not ok:
        return
    if num(n) == 0:
        yield s, IntVal(0)
        return
    s2 = s.copy()
    # found: content = str0(k) . rest
    k, x_ = fresh('k', S), fresh('x', B)
    e.assume(s, c == cat(str0(k), x_), slen(k) >= 0, slen(k) < n, blen(x_) == n - slen(k) - 1)
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Bytes) and diff(ch.addr, simp(p)) == 0:
            s.heap[i:i + 1] = [Bytes(ch.addr, simp(slen(k) + 1), str0(k)), Bytes(simp(ch.addr + slen(k) + 1), simp(ch.n - slen(k) - 1), x_)]
            s.define(c, cat(str0(k), x_)) if c.decl().name() != 'cat' else None
            break
    yield s, simp(p + slen(k))
    # not found
    d0 = e.pieces(s2, c)
    e.assume(s2, nonul(c))
    if d0 and d0[0].decl().name() in ('str0',):
        return
    yield s2, IntVal(0)




@B_('memchr')
def _(e, s, node, vs):
    if num(vs[1]) != 0:
        raise _e.Unsupported('memchr of a non-NUL byte')
    yield from memchr0(e, s, vs[0], vs[2], node)


@B_('strnlen')
def _(e, s, node, vs):
    for s1, p in memchr0(e, s, vs[0], vs[1], node):
        yield s1, (vs[1] if num(p) == 0 else simp(p - vs[0]))


# ------------------------------------------------------------------ numbers <-> text
@B_('atoi')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is not None:
        e.assume(s, atoi(k) >= -2 ** 31, atoi(k) < 2 ** 31)
        yield s, atoi(k)


def _strto(f):
    def g(e, s, node, vs):
        k = the_str(e, s, vs[0], node)
        if k is None:
            return
        if num(vs[1]) != 0:
            raise _e.Unsupported('strtoul with an end pointer')
        b = num(vs[2])
        if b == 0:
            yield s, f(k)
        elif b is not None:
            yield s, z3.Function('%s_base%d' % (f.name(), b), S, I)(k)
        else:
            raise _e.Unsupported('strtoul with symbolic base')
    return g


B_('strtoul')(_strto(strtoul0))
B_('strtoll', 'strtol')(_strto(strtoll0))
B_('strtoull')(_strto(strtoul0))


@B_('atol')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is not None:
        r = fresh('atol')
        e.rng(s, r, BASE['long'])
        yield s, r


strtodf = z3.Function('strtodf', S, z3.RealSort())
strtod_ok = z3.Function('strtod_ok', S, z3.BoolSort())


@B_('strtod')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    if num(vs[1]) != 0:
        raise _e.Unsupported('strtod with an end pointer')
    s2 = s.copy()
    e.assume(s, strtod_ok(k))
    if e.feasible(s):
        yield s, _e.Dbl(strtodf(k))
    e.assume(s2, Not(strtod_ok(k)))
    if e.feasible(s2):
        v = errno_set(e, s2, io=False)
        e.assume(s2, v > 0)
        yield s2, _e.Dbl(strtodf(k))


@B_('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    f = the_str(e, s, vs[1], node)
    if k is None or f is None:
        return
    if str(f) != str(e.lit('%p')[0]) or len(vs) != 3:
        raise _e.Unsupported('sscanf format')
    s2 = s.copy()
    e.assume(s, sscanp_ok(k))
    if e.feasible(s):
        for s1 in e.write(s, vs[2], VOIDP, sscanp(k), node):
            yield s1, IntVal(1)
    e.assume(s2, Not(sscanp_ok(k)))
    r = fresh('rc')
    e.assume(s2, r >= -1, r <= 0)
    if e.feasible(s2):
        yield s2, r


# ------------------------------------------------------------------ formatted output
ftoa = z3.Function('ftoa', z3.RealSort(), S)
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')


def format_text(e, s, text, args, node, nullok=False):
    """list of S pieces for a literal format, or None; args are values"""
    out = []
    pos = 0
    args = list(args)
    for m in CONV.finditer(text):
        if m.start() > pos:
            out.append(('lit', text[pos:m.start()]))
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == '%':
            out.append(('lit', '%'))
            continue
        width = None
        if w == '*':
            width = args.pop(0)
        elif w is not None:
            width = IntVal(int(w))
        if pr is not None:
            raise _e.Unsupported('precision in format')
        if not args:
            e.fail(s, 'format', node, 'too few arguments for format %r' % text)
            return None
        a = args.pop(0)
        if cv == 's' and nullok and not e.prove(s, a != 0):     # glibc prints (null)
            s2 = s.copy()
            e.assume(s2, a != 0)
            if e.feasible(s2) and the_str(e, s2, a, node) is None:
                return None
            k = fresh('null_or_text', S)
        elif cv == 's':
            k = the_str(e, s, a, node)
            if k is None:
                return None
        elif isinstance(a, _e.Dbl):
            k = ftoa(a.t)
            e.assume(s, slen(k) >= 1, slen(k) < 512)
        elif cv in 'di':
            k = itos(a)
        elif cv == 'u':
            k = utos(a)
        elif cv == 'x' and fl == '#':
            k = xtos(a)
        elif cv == 'p':
            k = ptos(a)
        else:
            k = z3.Function('fmt_' + re.sub(r'\W', '_', fl + (ln or '') + cv), I, S)(a)
            e.assume(s, slen(k) >= 0, slen(k) <= 80)
        if width is not None:
            k = ('pad', width, k)
        elif fl and fl != '#' and cv != 's':
            k2 = z3.Function('fl_' + fl, S, S)(k)
            k = k2
        out.append(('s', k))
    if pos < len(text):
        out.append(('lit', text[pos:]))
    return out


scat = z3.Function('scat', S, S, S)
spad = z3.Function('spad', I, S, S)


def to_S(e, s, pieces):
    r = None
    for kd, v in reversed(pieces):
        k = e.lit_const(s, v) if kd == 'lit' else v
        if isinstance(k, tuple):
            w, k0 = k[1], k[2]
            k = spad(w, k0)
            e.assume(s, slen(k) >= slen(k0))
        if r is None:
            r = k
        else:
            r2 = scat(k, r)
            e.assume(s, slen(r2) == slen(k) + slen(r), slen(k) >= 0, slen(r) >= 0)
            r = r2
    return r if r is not None else e.lit_const(s, '')


def fmt_value(e, s, fp, args, node):
    """formatted text as S"""
    f = the_str(e, s, fp, node)
    if f is None:
        return None
    text = lit_text(e, s, f)
    if text is None:
        raise _e.Unsupported('format string is not a literal')
    ps = format_text(e, s, text, args, node)
    if ps is None:
        return None
    return to_S(e, s, ps)


def lit_text(e, s, f):
    for t_, (c, a, fs) in e.lits.items():
        if f.get_id() == c.get_id():
            return t_
    for t_, (c, a, fs) in list(e.lits.items()):
        if ('lit', t_) in s.ghost or ('litc', t_) in s.ghost:
            if e.prove(s, f == c):
                return t_
    return None


@B_('sprintf')
def _(e, s, node, vs):
    k = fmt_value(e, s, vs[1], vs[2:], node)
    if k is not None and write_str(e, s, vs[0], k, node):
        yield s, slen(k)


@B_('snprintf')
def _(e, s, node, vs):
    k = fmt_value(e, s, vs[2], vs[3:], node)
    if k is None:
        return
    e.assume(s, slen(k) >= 0, slen(k) < 2 ** 31)
    p, n = vs[0], vs[1]
    for s1, fits in e.branch(s, slen(k) < n):
        if fits:
            if write_str(e, s1, p, k, node):
                yield s1, slen(k)
        else:
            for s2, z in e.branch(s1, n == 0):
                if z:
                    yield s2, slen(k)
                    continue
                tr = fresh('trunc', S)
                e.assume(s2, slen(tr) == n - 1)
                if write_str(e, s2, p, tr, node):
                    yield s2, slen(k)


# ------------------------------------------------------------------ standard output
STDOUT = z3.Int('standard_output')


def emit(e, s, pieces):
    """append text to standard output; a function whose contract says nothing about it may print"""
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'stdout':
            out = []
            for kd, v in pieces:
                w = None
                if isinstance(v, tuple):
                    w, v = v[1], v[2]
                t_ = v if kd == 'lit' else lit_text(e, s, v)
                bt = chars(t_, eps) if t_ is not None else txt(v)
                if w is not None:
                    n_ = len(t_) if t_ is not None else slen(v)
                    left, right = z3.If(w > n_, w - n_, 0), z3.If(-w > n_, -w - n_, 0)
                    for c_ in (left, right):
                        e.assume(s, z3.Implies(c_ <= 0, blanks(c_) == eps))
                    bt = cat(blanks(left), cat(bt, blanks(right)))
                out.append(bt)
            r = ch.data['text']
            for bt in out:
                r = cat(r, bt)
            s.heap[i] = upd_res(ch, text=r)
            return
    return


def upd_res(ch, **kw):
    d = dict(ch.data)
    d.update(kw)
    return Res(ch.kind, ch.key, d)


def print_fmt(e, s, fp, args, node):
    f = the_str(e, s, fp, node)
    if f is None:
        return
    text = lit_text(e, s, f)
    if text is None:
        raise _e.Unsupported('format string is not a literal')
    ps = format_text(e, s, text, args, node)
    if ps is None:
        return
    emit(e, s, ps)
    r = fresh('printed')
    e.assume(s, r >= 0, r < 2 ** 31)
    yield s, r


@B_('printf')
def _(e, s, node, vs):
    yield from print_fmt(e, s, vs[0], vs[1:], node)


@B_('fprintf')
def _(e, s, node, vs):
    if not is_stdout(e, s, vs[0]):
        raise _e.Unsupported('fprintf to another stream')
    yield from print_fmt(e, s, vs[1], vs[2:], node)


def is_stdout(e, s, v):
    return str(v) == 'stdout_fp'


@B_('puts')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    emit(e, s, [('s', k), ('lit', '\n')])
    yield s, fresh('printed')


@B_('fputs')
def _(e, s, node, vs):
    if not is_stdout(e, s, vs[1]):
        raise _e.Unsupported('fputs to another stream')
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    emit(e, s, [('s', k)])
    yield s, fresh('printed')


@B_('putchar')
def _(e, s, node, vs):
    c_ = num(vs[0])
    if c_ is None:
        raise _e.Unsupported('putchar of a variable')
    emit(e, s, [('lit', chr(c_ % 256))])
    yield s, vs[0]


# ------------------------------------------------------------------ logging / termination
def _mklog(name, nfixed):
    @B_(name, force=True)
    def _(e, s, node, vs):
        # message printers have no effect on library state; the arguments must fit the format
        f = the_str(e, s, vs[nfixed], node)
        if f is None:
            return
        text = lit_text(e, s, f)
        if text is not None and format_text(e, s, text, vs[nfixed + 1:], node, nullok=True) is None:
            return
        if any(isinstance(ch, Res) and ch.kind == 'stdout' for ch in s.heap):
            emit(e, s, [('s', fresh('message', S))])
        s.heap = [ch for ch in s.heap if not (isinstance(ch, Cell) and str(ch.addr) == 'errno_addr')]
        yield s, IntVal(0)


for _n, _k in (('kvtree_err', 0), ('kvtree_warn', 0), ('kvtree_dbg', 1)):
    _mklog(_n, _k)


@B_('kvtree_abort', force=True)
def _(e, s, node, vs):
    do_abort(e, s, node, 'kvtree_abort')
    return
    yield


def do_abort(e, s, node, what):
    ab = e.spec_abort()
    if not e.feasible(s):
        return
    e.oblige(s, ab, 'abort', node, '%s is reachable where the contract does not allow the process to end' % what)


for _n in ('exit', '_exit', 'abort'):
    @B_(_n)
    def _(e, s, node, vs):
        do_abort(e, s, node, 'exit')
        return
        yield


@B_('strerror')
def _(e, s, node, vs):
    yield s, e.use_lit(s, 'error text')[1]


@B_('__builtin_expect')
def _(e, s, node, vs):
    yield s, vs[0]


for _w in (2, 4, 8):
    def _mk(w):
        @B_('__builtin_bswap%d' % (8 * w))
        def _(e, s, node, vs):
            v = vs[0]
            n = num(v)
            if n is not None:
                yield s, IntVal(int.from_bytes((n % 2 ** (8 * w)).to_bytes(w, 'little'), 'big'))
            else:
                e.assume(s, bswap[w](v) >= 0, bswap[w](v) < 2 ** (8 * w))
                yield s, bswap[w](v)
    _mk(_w)


# ------------------------------------------------------------------ errno
def errno_set(e, s, v=None, io=True):
    """every failing call may change errno; a failed system call leaves a record"""
    if io:
        s.heap.append(Res('ioerr', fresh('ioerr'), {}))
    a = z3.Int('errno_addr')
    if v is None:
        v = fresh('errno')
        e.assume(s, v >= 0, v < 200)
    s.heap = [ch for ch in s.heap if not (isinstance(ch, Cell) and ch.addr.get_id() == a.get_id())]
    s.heap.append(Cell(a, 4, v))
    return v


@B_('__errno_location')
def _(e, s, node, vs):
    a = z3.Int('errno_addr')
    if not any(isinstance(ch, Cell) and ch.addr.get_id() == a.get_id() for ch in s.heap):
        e.assume(s, a > 0, a < 2 ** 62)
        errno_set(e, s, io=False)
    yield s, a


# ------------------------------------------------------------------ files
def fd_index(e, s, fd):
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'fd' and diff(fd, ch.key) == 0:
            return i
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'fd' and e.prove(s, fd == ch.key):
            return i
    return None


def fd_get(e, s, fd, node, what):
    i = fd_index(e, s, fd)
    if i is None:
        e.fail(s, 'descriptor', node, '%s on a descriptor that is not open here (closed, or never opened)' % what)
    return i


def upd(s, i, **kw):
    d = dict(s.heap[i].data)
    d.update(kw)
    s.heap[i] = Res(s.heap[i].kind, s.heap[i].key, d)


@B_('open', 'open64')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    fl = vs[1]
    e.oblige(s, Implies(NEED == 1, (fl / 512) % 2 == 0), 'lock', node, 'the file is truncated on opening, before any lock is held')
    e.oblige(s, (fl / 1024) % 2 == 0, 'descriptor', node, 'O_APPEND: writes would not go where the contract says')
    s2 = s.copy()
    fd = fresh('fd')
    e.assume(s, fd >= 0, fd < 2 ** 31)
    for ch in s.heap:
        if isinstance(ch, Res) and ch.kind == 'fd':
            e.assume(s, ch.key != fd)
    x_ = fresh('content', B)
    tr = e.bitop(s, '&', fl, IntVal(512), INT)
    s.heap.append(Res('fd', fd, {'path': k, 'lock': IntVal(0), 'rd': x_, 'all': x_, 'wr': eps, 'off': IntVal(0),
                                 'tr': simp(z3.If(tr != 0, IntVal(1), IntVal(0))), 'dirty': IntVal(0), 'err': IntVal(0),
                                 'acc': simp(fl % 4)}))
    yield s, fd
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('read')
def _(e, s, node, vs):
    fd, p, n = vs
    i = fd_get(e, s, fd, node, 'read')
    if i is None:
        return
    d = s.heap[i].data
    e.oblige(s, Implies(NEED == 1, d['lock'] >= 1), 'lock', node, 'read while not holding the lock')
    # the whole target must be writable memory
    # error
    s1 = s.copy()
    en = errno_set(e, s1)
    upd(s1, fd_index(e, s1, fd), err=simp(z3.If(Or(en == EINTR, en == EAGAIN), d['err'], d['err'] + 1)))
    yield s1, IntVal(-1)
    e.assume(s, d['acc'] != 1)          # a descriptor opened for writing only: read fails (EBADF)
    if not e.feasible(s):
        return
    # end of file
    s1 = s.copy()
    e.assume(s1, Or(n == 0, d['rd'] == eps))
    if e.feasible(s1):
        yield s1, IntVal(0)
    # data
    s1 = s
    rc = fresh('rc')
    x_, y_ = fresh('got', B), fresh('left', B)
    e.assume(s1, rc > 0, rc <= n, rc <= MAXRW, d['rd'] == cat(x_, y_), blen(x_) == rc, blen(y_) >= 0,
             blen(d['rd']) == blen(x_) + blen(y_))
    if not e.feasible(s1):
        return
    # ownership of all n bytes (content beyond rc is kept)
    c = e.take_bytes(s1, p, rc, node)
    if c is False:
        return
    own(e, s1, simp(p + rc), simp(n - rc), node)
    put(s1, p, rc, x_)
    upd(s1, fd_index(e, s1, fd), rd=y_, off=simp(d['off'] + rc))
    yield s1, rc


def own(e, s, p, n, node):
    """obligation: [p,p+n) is owned memory (content untouched)"""
    for st, z in e.branch(s.copy(), n == 0):
        if not z:
            e.take_bytes(st, p, n, node)


@B_('write')
def _(e, s, node, vs):
    fd, p, n = vs
    i = fd_get(e, s, fd, node, 'write')
    if i is None:
        return
    d = s.heap[i].data
    e.oblige(s, Implies(NEED == 1, d['lock'] == 2), 'lock', node, 'write while not holding the exclusive lock')
    ok, c = peek(e, s.copy(), p, n, node)
    if not ok:
        return
    s1 = s.copy()
    en = errno_set(e, s1)
    upd(s1, fd_index(e, s1, fd), err=simp(z3.If(Or(en == EINTR, en == EAGAIN), d['err'], d['err'] + 1)))
    yield s1, IntVal(-1)
    e.assume(s, d['acc'] != 0)          # opened for reading only: write fails (EBADF)
    if not e.feasible(s):
        return
    s1 = s.copy()
    upd(s1, fd_index(e, s1, fd), err=simp(d['err'] + z3.If(n == 0, IntVal(0), IntVal(1))))
    yield s1, IntVal(0)
    rc = fresh('rc')
    e.assume(s, rc > 0, rc <= n, rc <= MAXRW)
    if not e.feasible(s):
        return
    ok, c = peek(e, s, p, rc, node)
    if not ok:
        return
    upd(s, fd_index(e, s, fd), wr=catsimp(cat(d['wr'], c)), dirty=IntVal(1))
    yield s, rc


def catsimp(t_):
    if t_.decl().name() == 'cat' and t_.arg(0).decl().name() == 'eps':
        return t_.arg(1)
    return t_


@B_('fsync', 'fdatasync')
def _(e, s, node, vs):
    i = fd_get(e, s, vs[0], node, 'fsync')
    if i is None:
        return
    upd(s, i, dirty=IntVal(0))
    s2 = s.copy()
    yield s, IntVal(0)
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('close')
def _(e, s, node, vs):
    i = fd_get(e, s, vs[0], node, 'close')
    if i is None:
        return
    ch = s.heap[i]
    e.oblige(s, ch.data['dirty'] == 0, 'flush', node, 'file closed without being flushed (fsync) after the last write')
    del s.heap[i]
    s2 = s.copy()
    d = dict(ch.data)
    s.heap.append(Res('closed', ch.key, dict(d, ok=IntVal(1))))
    yield s, IntVal(0)
    errno_set(e, s2)
    s2.heap.append(Res('closed', ch.key, dict(d, ok=IntVal(0))))
    yield s2, IntVal(-1)


@B_('flock')
def _(e, s, node, vs):
    fd, op = vs
    i = fd_get(e, s, fd, node, 'flock')
    if i is None:
        return
    for s1, un in e.branch(s, op == 8):
        if un:
            s2 = s1.copy()
            upd(s1, fd_index(e, s1, fd), lock=IntVal(0))
            yield s1, IntVal(0)
            errno_set(e, s2)
            yield s2, IntVal(-1)
            continue
        e.oblige(s1, Or(op == 1, op == 2), 'lock', node, 'flock operation must be LOCK_SH, LOCK_EX or LOCK_UN (blocking)')
        s2 = s1.copy()
        upd(s1, fd_index(e, s1, fd), lock=simp(op))
        yield s1, IntVal(0)
        errno_set(e, s2)
        yield s2, IntVal(-1)


@B_('fcntl', 'fcntl64')
def _(e, s, node, vs):
    fd, cmd = vs[0], num(vs[1])
    if cmd not in (6, 7) or len(vs) < 3:
        raise _e.Unsupported('fcntl command')
    i = fd_get(e, s, fd, node, 'fcntl')
    if i is None:
        return
    p = vs[2]
    vals = []
    sts = [(s, [])]
    for off, ty in ((0, BASE['short']), (2, BASE['short']), (8, BASE['long']), (16, BASE['long'])):
        nx = []
        for st, acc in sts:
            for s1, v in e.read(st, simp(p + off), ty, node):
                nx.append((s1, acc + [v]))
        sts = nx
    for st, (lt, wh, start, ln) in sts:
        for s1, un in e.branch(st, lt == 2):     # F_UNLCK
            e.oblige(s1, And(start == 0, ln == 0, wh == 0), 'lock', node, 'the lock must cover the whole file')
            if un:
                s2 = s1.copy()
                upd(s1, fd_index(e, s1, fd), lock=IntVal(0))
                yield s1, IntVal(0)
                errno_set(e, s2)
                yield s2, IntVal(-1)
                continue
            e.oblige(s1, Or(lt == 0, lt == 1), 'lock', node, 'lock type must be F_RDLCK, F_WRLCK or F_UNLCK')
            s2 = s1.copy()
            upd(s1, fd_index(e, s1, fd), lock=simp(z3.If(lt == 1, IntVal(2), IntVal(1))))
            yield s1, IntVal(0)
            errno_set(e, s2)
            yield s2, IntVal(-1)


@B_('lseek', 'lseek64')
def _(e, s, node, vs):
    fd, off, wh = vs
    i = fd_get(e, s, fd, node, 'lseek')
    if i is None:
        return
    s2 = s.copy()
    if num(wh) == 0 or e.prove(s, wh == 0):
        x_ = fresh('content', B)
        e.assume(s, off >= 0)
        upd(s, i, off=simp(off), wr=eps, tr=IntVal(0), rd=x_, all=fresh('content', B))
        yield s, off
    else:
        v = fresh('pos')
        e.assume(s, v >= 0)
        upd(s, i, off=v, wr=eps, tr=IntVal(0), rd=fresh('content', B), all=fresh('content', B))
        yield s, v
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('ftruncate', 'ftruncate64')
def _(e, s, node, vs):
    fd, n = vs
    i = fd_get(e, s, fd, node, 'ftruncate')
    if i is None:
        return
    d = s.heap[i].data
    e.oblige(s, Implies(NEED == 1, d['lock'] == 2), 'lock', node, 'ftruncate while not holding the exclusive lock')
    s2 = s.copy()
    upd(s, i, tr=simp(z3.If(n == d['off'] + blen(d['wr']), IntVal(1), IntVal(2))), dirty=IntVal(1))
    yield s, IntVal(0)
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('fstat', 'fstat64')
def _(e, s, node, vs):
    fd, p = vs
    i = fd_get(e, s, fd, node, 'fstat')
    if i is None:
        return
    d = s.heap[i].data
    if e.take_bytes(s, p, IntVal(144), node) is False:
        return
    s2 = s.copy()
    mode, size = fresh('st_mode'), fresh('st_size')
    e.assume(s, mode >= 0, mode < 2 ** 32, size >= 0, size < 2 ** 63)
    # a regular file holds at least what is left to be read through the descriptor
    e.assume(s, size >= blen(d['rd']), Implies(And(d['off'] >= 0, d['wr'] == eps), size >= d['off'] + blen(d['rd'])))
    b1, b2, b3 = fresh('st', B), fresh('st', B), fresh('st', B)
    e.assume(s, blen(b1) == 24, blen(b2) == 20, blen(b3) == 88)
    s.heap += [Bytes(simp(p), IntVal(24), b1), Cell(simp(p + 24), 4, mode), Bytes(simp(p + 28), IntVal(20), b2),
               Cell(simp(p + 48), 8, size), Bytes(simp(p + 56), IntVal(88), b3)]
    yield s, IntVal(0)
    put(s2, p, IntVal(144), None)
    errno_set(e, s2)
    upd(s2, fd_index(e, s2, fd), err=simp(d['err'] + 1))
    yield s2, IntVal(-1)


@B_('access')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    s2 = s.copy()
    yield s, IntVal(0)
    errno_set(e, s2)
    yield s2, IntVal(-1)


@B_('umask')
def _(e, s, node, vs):
    r = fresh('umask')
    e.assume(s, r >= 0, r < 512)
    yield s, r


@B_('usleep', 'sleep')
def _(e, s, node, vs):
    yield s, IntVal(0)


@B_('getenv')
def _(e, s, node, vs):
    k = the_str(e, s, vs[0], node)
    if k is None:
        return
    p, c = z3.Int('static_env_%s' % k), Const('envtext_%s' % k, S)
    for s1, none in e.branch(s, p == 0):
        if not none and not any(isinstance(ch, Bytes) and diff(ch.addr, p) == 0 for ch in s1.heap):
            e.assume(s1, p > 0, p < 2 ** 62, slen(c) >= 0)
            put(s1, p, simp(slen(c) + 1), str0(c))
            s1.ghost['static'] = s1.ghost.get('static', ()) + (p,)
        yield s1, (IntVal(0) if none else p)


# ------------------------------------------------------------------ zlib
@B_('crc32', 'crc32_z')
def _(e, s, node, vs):
    crc, p, n = vs
    for s1, z in e.branch(s, p == 0):
        if z:
            yield s1, IntVal(0)
            continue
        if num(crc) != 0 and not e.prove(s1, crc == 0):
            raise _e.Unsupported('incremental crc32')
        ok, c = peek(e, s1, p, n, node)
        if ok:
            e.assume(s1, crcf(c) >= 0, crcf(c) < 2 ** 32)
            yield s1, crcf(c)


# ------------------------------------------------------------------ varargs
@B_('__builtin_va_start', 'va_start', lazy=True)
def _(e, s, node, argnodes):
    from .execu import strip
    m = strip(argnodes[0])
    vid = m['referencedDecl']['id']
    va = s.ghost.get('va_extra')
    if va is None:
        raise _e.Unsupported('va_start without a model')
    if isinstance(va, tuple) and va[0] == 'args':
        s.env[vid] = _e.VaList(ArgModel(va[1]), 0)
    else:
        s.env[vid] = _e.VaList(va, 0)
    yield s, None


@B_('__builtin_va_end', 'va_end', lazy=True)
def _(e, s, node, argnodes):
    yield s, None


class ArgModel:
    """the actual variadic arguments of an inlined call"""
    def __init__(self, args):
        self.args = args

    def next(self, e, s, vid, va, ty, node):
        if va.pos >= len(self.args):
            e.fail(s, 'varargs', node, 'va_arg beyond the arguments passed')
            return
        v = self.args[va.pos]
        s.env[vid] = _e.VaList(va.model, va.pos + 1)
        if ty.k == 'int' and z3.is_expr(v):
            v = e.conv(s, v, BASE['long'], ty)
        yield s, v


def bit_facts(e, s, op, a, b, r, t):
    if op == '&':
        e.assume(s, Implies(And(a >= 0, b >= 0), And(r >= 0, r <= a, r <= b)))
    elif op == '|':
        e.assume(s, Implies(And(a >= 0, b >= 0), And(r >= a, r >= b, r <= a + b)))
    lo, hi = _e.int_range(t)
    e.assume(s, r >= lo, r <= hi)


GLOBALS['stdout'] = lambda e, s: z3.Int('stdout_fp')
GLOBALS['stderr'] = lambda e, s: z3.Int('stderr_fp')


# ------------------------------------------------------------------ MPI
# One communicator resource 'mpi' per communicator: rank, size, out = the messages sent so far, inq = the messages that
# will be received, in the order in which the receives are posted.  A message is msg(kind, peer, content): kind 0
# point-to-point, 1 broadcast.  A failed MPI call ends the job (the default error handler); MPI_PROC_NULL as a peer makes
# a transfer empty.
msg = z3.Function('msg', I, I, B, B)
PROC_NULL = -2
DTSIZE = {'MPI_BYTE': 1, 'MPI_CHAR': 1, 'MPI_SIGNED_CHAR': 1, 'MPI_UNSIGNED_CHAR': 1, 'MPI_INT': 4, 'MPI_UNSIGNED': 4, 'MPI_LONG': 8,
          'MPI_UNSIGNED_LONG': 8, 'MPI_INT64_T': 8, 'MPI_UINT64_T': 8, 'MPI_INT32_T': 4, 'MPI_UINT32_T': 4, 'MPI_UINT8_T': 1, 'MPI_INT8_T': 1}


def mpi_size(e, dt):
    v = num(dt)
    for n_, w in DTSIZE.items():
        if e.u.enumnames.get(n_) == v:
            return w
    raise _e.Unsupported('MPI datatype %s' % dt)


def mpi_comm(e, s, comm, node):
    for i, ch in enumerate(s.heap):
        if isinstance(ch, Res) and ch.kind == 'mpi' and (diff(comm, ch.key) == 0 or e.prove(s, comm == ch.key)):
            return i
    e.fail(s, 'communicator', node, 'MPI call on a communicator that is not available here')
    return None


def mpi_next(e, s, i, kind, peer, node):
    """take the next message off the queue: its content"""
    d = s.heap[i].data
    rules = {}
    for f in s.pc:
        if z3.is_eq(f) and f.arg(0).sort() == B and f.arg(0).num_args() == 0 and f.arg(1).num_args() > 0:
            rules[f.arg(0).get_id()] = f.arg(1)
    q = e.bflat(s, d['inq'], rules)
    if not q or q[0].decl().name() != 'msg':
        e.fail(s, 'message', node, 'receives a message that the contract does not announce')
        return None
    e.oblige(s, And(q[0].arg(0) == kind, q[0].arg(1) == peer), 'message', node, 'receives from a rank other than the one that sends')
    upd(s, i, inq=_e.catl(q[1:]))
    return q[0].arg(2)


def mpi_deliver(e, s, i, kind, peer, buf, n, node):
    """the next message arrives in [buf,buf+n)"""
    v = mpi_next(e, s, i, kind, peer, node)
    if v is None:
        return False
    k = blen(v)
    e.oblige(s, k <= n, 'message', node, 'the message is longer than the buffer')
    c = e.take_bytes(s, buf, simp(k), node)
    if c is False:
        return False
    put(s, buf, simp(k), v)
    return True


def mpi_send(e, s, vs, node, ikind):
    """-> the content (and the buffer is no longer owned, for a non-blocking send)"""
    buf, n, dt, peer, tag, comm = vs[:6]
    i = mpi_comm(e, s, comm, node)
    if i is None:
        return None
    sz = simp(n * mpi_size(e, dt))
    e.oblige(s, n >= 0, 'message', node, 'negative count')
    ok, c = peek(e, s, buf, sz, node)
    if not ok:
        return None
    i = mpi_comm(e, s, comm, node)
    out = s.heap[i].data['out']
    upd(s, i, out=simp(z3.If(peer == PROC_NULL, out, cat(out, msg(0, peer, c)))))
    return c, sz


@B_('MPI_Send', 'MPI_Ssend')
def _(e, s, node, vs):
    for s1, none in e.branch(s, vs[3] == PROC_NULL):
        if none or mpi_send(e, s1, vs, node, False) is not None:
            yield s1, IntVal(0)


@B_('MPI_Recv')
def _(e, s, node, vs):
    buf, n, dt, peer, tag, comm = vs[:6]
    i = mpi_comm(e, s, comm, node)
    if i is None:
        return
    for s1, none in e.branch(s, peer == PROC_NULL):
        if none or mpi_deliver(e, s1, mpi_comm(e, s1, comm, node), 0, peer, buf, simp(n * mpi_size(e, dt)), node):
            yield s1, IntVal(0)


@B_('MPI_Isend')
def _(e, s, node, vs):
    for s1, none in e.branch(s, vs[3] == PROC_NULL):
        r = fresh('req')
        e.assume(s1, r >= 0, r < 2 ** 31)
        data = {'recv': IntVal(0), 'buf': vs[0], 'n': IntVal(0), 'peer': vs[3], 'comm': vs[5]}
        if not none:
            q = mpi_send(e, s1, vs, node, True)
            if q is None:
                continue
            data['n'] = q[1]
            if e.take_bytes(s1, vs[0], q[1], node) is False:
                continue
            data['content'] = q[0]
        for s2 in e.write(s1, vs[6], INT, r, node):
            s2.heap.append(Res('request', r, data))
            yield s2, IntVal(0)


@B_('MPI_Irecv')
def _(e, s, node, vs):
    buf, n, dt, peer, tag, comm = vs[:6]
    for s1, none in e.branch(s, peer == PROC_NULL):
        r = fresh('req')
        e.assume(s1, r >= 0, r < 2 ** 31)
        sz = IntVal(0) if none else simp(n * mpi_size(e, dt))
        c = None
        if not none:
            c = e.take_bytes(s1, buf, sz, node)
            if c is False:
                continue
        for s2 in e.write(s1, vs[6], INT, r, node):
            s2.heap.append(Res('request', r, {'recv': IntVal(1), 'buf': buf, 'n': sz, 'peer': peer, 'comm': comm}))
            yield s2, IntVal(0)


@B_('MPI_Waitall')
def _(e, s, node, vs):
    k = num(vs[0])
    if k is None or k > 8:
        raise _e.Unsupported('MPI_Waitall on a variable number of requests')
    yield from mpi_wait(e, s, node, [simp(vs[1] + 4 * i) for i in range(k)])


@B_('MPI_Wait')
def _(e, s, node, vs):
    yield from mpi_wait(e, s, node, [vs[0]])


def mpi_wait(e, s, node, addrs):
    if not addrs:
        yield s, IntVal(0)
        return
    for s1, r in list(e.read(s, addrs[0], INT, node)):
        at = [i for i, ch in enumerate(s1.heap) if isinstance(ch, Res) and ch.kind == 'request' and e.prove(s1, ch.key == r)]
        if not at:
            e.fail(s1, 'message', node, 'waits for a request that was not started')
            continue
        d = s1.heap[at[0]].data
        del s1.heap[at[0]]
        if num(d['n']) != 0 or num(d['recv']) == 1:
            if num(d['recv']) == 0:
                put(s1, d['buf'], d['n'], d['content'])
            elif not e.prove(s1, d['peer'] == PROC_NULL):
                put(s1, d['buf'], d['n'], None)
                i = mpi_comm(e, s1, d['comm'], node)
                if i is None or not mpi_deliver(e, s1, i, 0, d['peer'], d['buf'], d['n'], node):
                    continue
        for s2 in e.write(s1, addrs[0], INT, IntVal(-1), node):
            yield from mpi_wait(e, s2, node, addrs[1:])


@B_('MPI_Comm_rank')
def _(e, s, node, vs):
    i = mpi_comm(e, s, vs[0], node)
    if i is not None:
        for s1 in e.write(s, vs[1], INT, s.heap[i].data['rank'], node):
            yield s1, IntVal(0)


@B_('MPI_Comm_size')
def _(e, s, node, vs):
    i = mpi_comm(e, s, vs[0], node)
    if i is not None:
        for s1 in e.write(s, vs[1], INT, s.heap[i].data['size'], node):
            yield s1, IntVal(0)


@B_('MPI_Allreduce')
def _(e, s, node, vs):
    src, dst, n, dt, op, comm = vs[:6]
    i, k, o = mpi_comm(e, s, comm, node), num(n), num(op)
    if i is None:
        return
    if k is None or k > 8 or o is None or num(dt) != e.u.enumnames.get('MPI_INT'):
        raise _e.Unsupported('MPI_Allreduce of this kind')
    rel = {'MPI_MAX': lambda v, w: w >= v, 'MPI_MIN': lambda v, w: w <= v, 'MPI_LAND': lambda v, w: And(w >= 0, w <= 1, Implies(w == 1, v != 0)),
           'MPI_LOR': lambda v, w: And(w >= 0, w <= 1, Implies(v != 0, w == 1))}
    names = [n_ for n_ in rel if e.u.enumnames.get(n_) == o]
    if not names:
        raise _e.Unsupported('MPI_Allreduce with this operation')
    sts = [(s, [])]
    for j in range(k):
        sts = [(s2, l_ + [v]) for s1, l_ in sts for s2, v in e.read(s1, simp(src + 4 * j), INT, node)]
    for s1, own in sts:
        new = [fresh('all') for _ in own]
        i = mpi_comm(e, s1, comm, node)
        for v, w in zip(own, new):
            e.assume(s1, w >= -2 ** 31, w < 2 ** 31, rel[names[0]](v, w))
        hook = e.spec.hooks.get('MPI_Allreduce') if e.spec is not None else None
        if hook is not None:
            hook(e, s1, names[0], own, new, node)
        upd(s1, i, out=simp(cat(s1.heap[i].data['out'], msg(9, o * 1024 + k, eps))))
        outs = [s1]
        for j, w in enumerate(new):
            outs = [s3 for s2 in outs for s3 in e.write(s2, simp(dst + 4 * j), INT, w, node)]
        for s2 in outs:
            yield s2, IntVal(0)


@B_('MPI_Bcast')
def _(e, s, node, vs):
    buf, n, dt, root, comm = vs[:5]
    i = mpi_comm(e, s, comm, node)
    if i is None:
        return
    sz = simp(n * mpi_size(e, dt))
    e.oblige(s, And(root >= 0, root < s.heap[i].data['size']), 'message', node, 'the root is a rank of the communicator')
    for s1, isroot in e.branch(s, s.heap[i].data['rank'] == root):
        if isroot:
            ok, c = peek(e, s1, buf, sz, node)
            if not ok:
                continue
            i = mpi_comm(e, s1, comm, node)
            upd(s1, i, out=cat(s1.heap[i].data['out'], msg(1, root, c)))
            yield s1, IntVal(0)
        elif mpi_deliver(e, s1, mpi_comm(e, s1, comm, node), 1, root, buf, sz, node):
            yield s1, IntVal(0)
