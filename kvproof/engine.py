"""Verification-condition generator: symbolic execution of clang's AST of the real functions,
separation-logic heap chunks, one function at a time against its contract."""
import os, re, time
import z3
from . import cast
from .cast import T as CT, INT, VOIDP, CHARP, BASE
from .heap import *
from .theory import *
from . import theory


class Unsupported(Exception):
    """construct outside the verifier's reach (not a verdict about the code)"""


class Budget(Exception):
    pass


class FnRef:
    def __init__(self, name):
        self.name = name


class VaList:
    """variadic arguments: model object + position"""
    def __init__(self, model, pos):
        self.model, self.pos = model, pos


class Dbl:
    """opaque floating value"""
    def __init__(self, t):
        self.t = t


ISNUM = z3.Function('isnum', S, z3.BoolSort())


FACTOR = int(os.environ.get('KV_TIMEOUT_FACTOR', '1'))      # every solver time limit is multiplied by this


SLOW = float(os.environ.get('KV_SLOW', 0))


class Prover:
    def __init__(self, bg, timeout=3000):
        self.bg = bg
        timeout *= FACTOR
        self.timeout = timeout
        self.sv = [mk_solver(timeout), mk_solver(timeout, relevancy=0)]
        self.stacks = [[], []]
        for s in self.sv:
            s.add(*bg)
        self.queries = 0
        self.time = 0.0
        self.cache = {}
        self.keep = []

    def sync(self, pc, w):
        s, stack = self.sv[w], self.stacks[w]
        n = 0
        m = min(len(pc), len(stack))
        while n < m and pc[n] is stack[n]:
            n += 1
        if len(stack) > n:
            s.pop(len(stack) - n)
            del stack[n:]
        for f in pc[n:]:
            s.push()
            s.add(f)
            stack.append(f)

    def check(self, pc, f, timeout=None, w=0):
        """is pc /\\ f unsatisfiable? -> 'unsat'|'sat'|'unknown'   (w: solver configuration)"""
        key = (tuple(p.get_id() for p in pc), f.get_id(), w)
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        self.sync(pc, w)
        s = self.sv[w]
        s.push()
        s.add(f)
        if timeout:
            s.set('timeout', timeout * FACTOR)
        r = str(s.check())
        if timeout:
            s.set('timeout', self.timeout)
        s.pop()
        self.queries += 1
        self.time += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print('SLOW %.2f %s w%d %s' % (time.time() - t0, r, w, ' '.join(str(f).split())[:200]))
        if len(self.cache) > 100000:
            self.cache.clear()
        self.cache[key] = r
        self.keep.append(f)
        return r

    def model(self, pc, terms, timeout=2000):
        s = mk_solver(timeout * FACTOR)
        s.add(*self.bg)
        s.add(*pc)
        if str(s.check()) == 'unsat':
            return {}
        try:
            m = s.model()
        except z3.Z3Exception:
            return {}
        return {n: str(m.eval(t)) for n, t in terms if m.eval(t) is not None}

    def check_fresh(self, pc, f, timeout=20000, seed=0):
        timeout *= FACTOR
        t0 = time.time()
        s = mk_solver(timeout, seed)
        s.add(*self.bg)
        s.add(*pc)
        s.add(f)
        r = str(s.check())
        self.time += time.time() - t0
        self.queries += 1
        return r


_plain = {}


def plain(f):
    """only variables, array entries and arithmetic: the instantiation-happy configuration has nothing to add"""
    k = f.get_id()
    r = _plain.get(k)
    if r is None:
        ok = z3.is_app(f) and (f.num_args() == 0 or f.decl().kind() != z3.Z3_OP_UNINTERPRETED) and (
            f.sort() in (I, BoolSort(), AI)) and all(plain(c) for c in f.children())
        if len(_plain) > 200000:
            _plain.clear()
        r = _plain[k] = (ok, f)
    return r[0]


class Spec:
    def __init__(self):
        self.pre, self.cases, self.uni, self.exi = [], [], {}, {}
        self.abort = z3.BoolVal(False)
        self.loop_cands = None
        self.paths = None
        self.only_cands = False
        self.split = []       # the proof is done separately for each of these cases (and for the rest)
        self.va = None
        self.notes = []
        self.hide = []
        self.hooks = {}       # ghost code before a call: callee -> fn(engine, state, arguments, node)

    def u(self, name, sort):
        g = ghost(name, sort)
        self.uni[g.get_id()] = g
        return g

    def x(self, name, sort):
        g = ghost(name, sort)
        self.exi[g.get_id()] = g
        return g

    def req(self, *a):
        self.pre.extend(a)

    def case(self, name, guard, *post, opt=False):
        self.cases.append((name, guard, list(post), opt))


def flat_path(k, q):
    """the keys of a path one by one, and what is left: ids and terms"""
    if q is None:
        return None
    out = [k]
    while q.decl().name() == 'PCons':
        out.append(q.arg(0))
        q = q.arg(1)
    return out, q


def flat_pat(k, q):
    one = lambda x_: z3.get_var_index(x_) if z3.is_var(x_) else x_
    out = [one(k)]
    while not z3.is_var(q) and q.decl().name() == 'PCons':
        out.append(one(q.arg(0)))
        q = q.arg(1)
    return out, one(q)


def patterns_of(fact):
    """how the path in a pattern of a quantified fact depends on the bound variables"""
    out = []
    if not (z3.is_quantifier(fact) and fact.is_forall()):
        return out
    n = fact.num_vars()
    for i in range(fact.num_patterns()):
        for t in fact.pattern(i).children():
            if not z3.is_app(t):
                continue
            nm = t.decl().name()
            if nm == 'PL':
                items, tail = flat_pat(t.arg(1), t.arg(2))
                out.append(('PL', items, tail, n))
                break
            if nm == 'P' and z3.is_var(t.arg(1)) and n == 1:
                out.append(('P', None, None, n))
                break
            if nm == 'has' and z3.is_var(t.arg(1)) and n == 1:
                out.append(('has', None, None, n))
                break
    return out


def match_path(kind, items, tail, n, path, k, q):
    """values of the bound variables that make the path of a pattern equal to the path k, q"""
    if kind == 'has':
        return [k] if q is None else None
    if q is None:
        return None
    if kind == 'P':
        return [PCons(k, q)]
    keys, end = path
    m = len(items)
    if len(keys) < m:
        return None
    b = {}
    for p_, v_ in zip(items, keys):
        if isinstance(p_, int):
            if p_ in b and not b[p_].eq(v_):
                return None
            b[p_] = v_
        elif not p_.eq(v_):
            return None
    rest = end
    for v_ in reversed(keys[m:]):
        rest = PCons(v_, rest)
    if isinstance(tail, int):
        if tail in b:
            return None
        b[tail] = rest
    elif not tail.eq(rest):
        return None
    return [b[i] for i in range(n)] if len(b) == n else None


class Contract:
    def __init__(self, name, build, file=None, behaviours=1, note=None, trusted=False):
        self.name, self.build, self.file, self.note, self.trusted = name, build, file, note, trusted
        self.part = None


class Engine:
    def __init__(self, units, contracts, bg, deadline=None, inline=()):
        self.units = units
        self.contracts = contracts
        self.pv = Prover(bg)
        self.variants = {}
        for n_ in contracts:
            if '@' in n_:
                self.variants.setdefault(n_.split('@')[0], []).append(n_)
        self.raws = set()
        self.obls = []
        self.failures = []
        self.probe = 0
        self.deadline = deadline
        self.fn = '?'
        self.lits = {}
        self.called = set()
        self.inlined = set()
        self.spec = None
        self.scope_strs = []
        self.maxpaths = 4000
        self.steps = 0
        self.loop_memo = {}
        self.patcache = {}
        self.light, self.epoch = False, 0
        self.callstack = []
        self.nofail = 0
        from . import builtins as bi
        self.bi = bi
        self.funcs = {}
        for u in units:
            for n, d in u.funcs.items():
                self.funcs.setdefault(n, (u, d))
        self._atk = {}
        self.loops_proved = []
        self.pins = ()
        self.vnames, self.vtypes, self.memtypes = {}, {}, {}
        self.u = units[0]

    # ------------------------------------------------------------ logic
    def tick(self):
        self.steps += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted in %s' % self.fn)

    def assume(self, s, *fs):
        for f in fs:
            f = simp(f) if not z3.is_quantifier(f) else f
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                for c in f.children():
                    self.assume(s, c)
                continue
            s.pc.append(f)

    def prove(self, s, f, strong=False, quant=False):
        self.tick()
        f0 = f
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f) and not strong:
            return self.pv.check(s.pc, z3.BoolVal(True), timeout=1000) == 'unsat'
        if self.spec is not None and self.spec.only_cands and (quant or strong) and self.on_paths(s, f0):
            return True
        r = self.pv.check(s.pc, Not(f0 if z3.is_quantifier(f0) else f))
        if r == 'unsat':
            return True
        if (strong or quant and not plain(f)) and self.pv.check(s.pc, Not(f0 if z3.is_quantifier(f0) else f), w=1) == 'unsat':
            return True
        if strong:
            for seed, to in ((0, 8000), (7, 20000)):
                if self.pv.check_fresh(s.pc, Not(f0), to, seed) == 'unsat':
                    return True
        return False

    def pats_of(self, fact):
        r = self.patcache.get(fact.get_id())
        if r is None:
            r = self.patcache[fact.get_id()] = (patterns_of(fact), fact)
        return r[0]

    def on_paths(self, s, f):
        """proof of a fact about the paths of trees: the quantified facts of the state are also instantiated at the
        paths of the goal (instances of what is assumed, so this can only find proofs, not make them up)"""
        g, self.last_extra = f, []
        if z3.is_quantifier(g) and g.is_forall():
            g = z3.substitute_vars(g.body(), *[fresh('sk', g.var_sort(i)) for i in reversed(range(g.num_vars()))])
        pairs, seen = {}, set()
        def scan(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t) or not z3.is_app(t):
                return
            if t.decl().name() == 'PL':
                k_, q_ = t.arg(1), t.arg(2)
                while True:
                    pairs[(k_.get_id(), q_.get_id())] = (k_, q_)
                    pairs.setdefault((k_.get_id(), None), (k_, None))
                    if q_.decl().name() != 'PCons':
                        break
                    k_, q_ = q_.arg(0), q_.arg(1)
            if t.decl().name() in ('has', 'Cons', 'atoi'):
                k_ = t.arg({'has': 1, 'Cons': 2, 'atoi': 0}[t.decl().name()])
                pairs.setdefault((k_.get_id(), None), (k_, None))
                while k_.num_args() == 1 and k_.decl().name() in ('itos', 'atoi'):
                    k_ = k_.arg(0)
                    if k_.sort() == S:
                        pairs.setdefault((k_.get_id(), None), (k_, None))
            for c in t.children():
                scan(c)
        scan(g)
        if self.spec.paths:
            for k_, q_ in list(pairs.values()):
                for k2, q2 in self.spec.paths(k_, q_):
                    pairs.setdefault((k2.get_id(), q2.get_id()), (k2, q2))
        if not pairs:
            return False
        flat = [(flat_path(k_, q_), k_, q_) for k_, q_ in pairs.values()]
        extra = []
        for fact in s.pc:
            pats = self.pats_of(fact)
            if pats:
                seen = set()
                for kind, items, tail, n in pats:
                    for path, k_, q_ in flat:
                        b = match_path(kind, items, tail, n, path, k_, q_)
                        if b is not None:
                            key = tuple(x_.get_id() for x_ in b)
                            if key not in seen:
                                seen.add(key)
                                extra.append(z3.substitute_vars(fact.body(), *b))
        if not extra:
            return False
        self.last_extra = extra + [Not(g)]
        return self.pv.check(list(s.pc) + extra, Not(g), w=1) == 'unsat' or self.pv.check_fresh(list(s.pc) + extra, Not(g), 4000, 0) == 'unsat'

    def feasible(self, s, f=None):
        self.tick()
        f = z3.BoolVal(True) if f is None else simp(f)
        if z3.is_false(f):
            return False
        return self.pv.check(s.pc, f, timeout=1500) != 'unsat'

    def line(self, node):
        return (node or {}).get('_line') if isinstance(node, dict) else None

    def oblige(self, s, f, kind, node=None, msg=''):
        """proof obligation; afterwards f may be assumed"""
        if self.probe:
            self.assume(s, f)
            return True
        t0 = time.time()
        f1 = simp(f) if not z3.is_quantifier(f) else f
        triv = z3.is_true(f1)
        ok = triv or self.prove(s, f, strong=True)
        self.obls.append(dict(fn=self.fn, kind=kind, line=self.line(node), ok=ok, ms=int(1000 * (time.time() - t0)), trivial=triv))
        if not ok:
            if os.environ.get('KV_DEBUG') and not self.nofail:
                from .loops import dbg
                dbg('FAILED %s line %s' % (kind, self.line(node)), self, s, f)
            self.record(s, kind, node, msg or str(f1)[:400])
        self.assume(s, f)
        return ok

    def record(self, s, kind, node, msg):
        if self.probe or self.nofail:
            return
        self.failures.append(dict(fn=self.fn, kind=kind, line=self.line(node), msg=msg, stack=list(self.callstack),
                                  trace=list(s.trace[-25:]), null=self.null_path(s), model=self.model_text(s)))
        if len(self.failures) > 60:
            raise Budget('too many failures in %s' % self.fn)

    def null_path(self, s):
        """does the failing path assume that one of the pointer arguments is missing?"""
        return any(self.pv.check(s.pc, a != 0, timeout=1000) == 'unsat' for a in getattr(self, 'ptrargs', ()))

    def model_text(self, s):
        """values of the arguments in a model of the failing path (integers only), for the replay file"""
        try:
            return self.pv.model(s.pc, getattr(self, 'argterms', ()))
        except z3.Z3Exception:
            return {}

    def fail(self, s, kind, node, msg):
        if not self.probe and not self.nofail:
            # an infeasible path cannot fail
            if not self.feasible(s):
                return
            self.obls.append(dict(fn=self.fn, kind=kind, line=self.line(node), ok=False, ms=0, trivial=False))
            self.record(s, kind, node, msg)

    def ok(self, kind, node=None):
        if not self.probe:
            self.obls.append(dict(fn=self.fn, kind=kind, line=self.line(node), ok=True, ms=0, trivial=True))

    def branch(self, s, f):
        """fork on f; yields (state, bool) for feasible branches"""
        f = simp(f)
        if z3.is_true(f):
            yield s, True
            return
        if z3.is_false(f):
            yield s, False
            return
        t = self.feasible(s, f)
        n = self.feasible(s, Not(f))
        if t and n:
            s2 = s.copy()
            self.assume(s, f)
            yield s, True
            self.assume(s2, Not(f))
            yield s2, False
        elif t:
            self.assume(s, f)
            yield s, True
        elif n:
            self.assume(s, Not(f))
            yield s, False

    def rng(self, s, v, ty):
        if ty.k == 'int':
            if ty.signed:
                self.assume(s, v >= -2 ** (ty.bits - 1), v < 2 ** (ty.bits - 1))
            else:
                self.assume(s, v >= 0, v < 2 ** ty.bits)
        elif ty.k == 'ptr':
            self.assume(s, v >= 0, v < 2 ** 63)

    def lit(self, text):
        """S constant for a literal string"""
        if text not in self.lits:
            i = len(self.lits)
            c = z3.Const('lit_%d_%s' % (i, re.sub(r'\W', '_', text)[:20]), S)
            addr = z3.Int('litaddr_%d' % i)
            facts = [slen(c) == len(text.encode('utf-8', 'surrogateescape')), sid(c) == i + 1, addr > 0, addr < 2 ** 62]
            if re.match(r'^(0|-?[1-9]\d*)$', text) and abs(int(text)) < 2 ** 31:
                facts += [c == itos(int(text)), atoi(c) == int(text)]
            else:
                facts.append(Not(ISNUM(c)))
            self.lits[text] = (c, addr, facts)
        return self.lits[text]

    def use_lit(self, s, text):
        c, addr, facts = self.lit(text)
        key = ('lit', text)
        if key not in s.ghost:
            s.ghost[key] = True
            for f in facts:
                s.pc.append(f)
            s.heap.append(Bytes(addr, IntVal(len(text) + 1), str0(c)))
        return c, addr

    def lit_const(self, s, text):
        c, addr, facts = self.lit(text)
        key = ('litc', text)
        if key not in s.ghost:
            s.ghost[key] = True
            for f in facts:
                s.pc.append(f)
        return c

    # ------------------------------------------------------------ heap: production
    def add_tree(self, s, h, t):
        t = s.hnf(t)
        self.assume(s, (h == 0) == (t == Null), h >= 0, h < 2 ** 62, okT(t), psz(t) < 2 ** 62)
        if num(h) == 0 or t.decl().name() == 'Null':
            return
        s.heap.append(Tr(h, t))

    def add_node(self, s, a, nd):
        e, kp_, k_, hp_, t_ = nd
        self.assume(s, e > 0, e < 2 ** 62, kp_ > 0, kp_ < 2 ** 62)
        s.heap += [Cell(e, 8, kp_), Cell(simp(e + 8), 8, hp_), Cell(a, 8, e), Cell(simp(e + 24), 8, a), Block(e, IntVal(32)),
                   Bytes(kp_, simp(slen(k_) + 1), str0(k_)), Block(kp_, simp(slen(k_) + 1))]
        self.add_tree(s, hp_, t_)

    def add_items(self, s, a, items, end=None):
        """lay out items from pointer cell a; end None: NULL-terminated list, else segment ending at cell `end`"""
        cur = a
        i = 0
        while i < len(items):
            kd, x_ = items[i]
            if kd == 'n':
                self.add_node(s, cur, x_)
                cur = simp(x_[0] + 16)
                i += 1
            else:
                if i == len(items) - 1:
                    if end is None:
                        s.heap.append(Lst(cur, x_))
                    else:
                        s.heap.append(Seg(cur, end, x_))
                    return
                nxt = fresh('c')
                self.assume(s, nxt > 0)
                s.heap.append(Seg(cur, nxt, x_))
                cur = nxt
                i += 1
        if end is None:
            s.heap.append(Cell(cur, 8, IntVal(0)))
        else:
            if diff(cur, end) != 0:
                self.assume(s, cur == end)

    def open_tree(self, s, i):
        """unfold Tr chunk i (h != 0 must hold)"""
        ch = s.heap[i]
        t = s.hnf(ch.T)
        if t.decl().name() != 'Node':
            l_ = fresh('L', List)
            self.assume(s, t == Node(l_))
            s.define(t, Node(l_))
            t = s.hnf(t)
        del s.heap[i]
        s.heap.append(Block(ch.h, IntVal(8)))
        s.heap.append(Lst(ch.h, t.arg(0)))

    def open_list(self, s, i, need_node=False):
        """unfold Lst/Seg chunk i at its first cell; yields states"""
        ch = s.heap[i]
        isseg = isinstance(ch, Seg)
        L_ = s.hnf(ch.L)
        d = L_.decl().name()
        if d == 'app':
            del s.heap[i]
            z_ = fresh('c')
            self.assume(s, z_ > 0)
            s.heap.append(Seg(ch.a, z_, L_.arg(0)))
            s.heap.append(Seg(z_, ch.b, L_.arg(1)) if isseg else Lst(z_, L_.arg(1)))
            yield from self.open_list(s, len(s.heap) - 2, need_node)
            return
        if d == 'Nil':
            del s.heap[i]
            if isseg:
                self.assume(s, ch.a == ch.b)
            else:
                s.heap.append(Cell(ch.a, 8, IntVal(0)))
            yield s
            return
        if d == 'Cons':
            del s.heap[i]
            x_ = L_.children()
            self.add_node(s, ch.a, tuple(x_[:5]))
            nx = simp(x_[0] + 16)
            s.heap.append(Seg(nx, ch.b, x_[5]) if isseg else Lst(nx, x_[5]))
            yield s
            return
        for s1, emp in self.branch(s, L_ == Nil):
            if emp:
                s1.define(L_, Nil)
            else:
                x_ = [fresh('e'), fresh('kp'), fresh('k', S), fresh('hp'), fresh('T', Tree), fresh('L', List)]
                self.assume(s1, L_ == Cons(*x_))
                s1.define(L_, Cons(*x_))
            yield from self.open_list(s1, i, need_node)

    def split_at(self, s, i, path):
        """chunk i is Lst/Seg; item index path[0] is the node to expose"""
        ch = s.heap[i]
        items = s.flat(ch.L)
        j = path
        del s.heap[i]
        pre, nd, post = items[:j], items[j], items[j + 1:]
        cur = ch.a
        if pre:
            x_ = fresh('c')
            self.assume(s, x_ > 0)
            s.heap.append(Seg(cur, x_, build(pre)))
            cur = x_
        self.add_node(s, cur, nd[1])
        nx = simp(nd[1][0] + 16)
        if isinstance(ch, Lst):
            s.heap.append(Lst(nx, build(post)))
        else:
            s.heap.append(Seg(nx, ch.b, build(post)))

    def search_term(self, s, items, pred):
        """does pred hold for a node reachable inside items (list items)? -> index of the item or None"""
        for j, (kd, x_) in enumerate(items):
            if kd != 'n':
                continue
            if pred(x_):
                return j
            t = s.hnf(x_[4])
            if t.decl().name() == 'Node' and self.search_term(s, s.flat(t.arg(0)), pred) is not None:
                return j
        return None

    def find_owner(self, s, addr, size, solver):
        """expose the chunk owning addr by unfolding; returns True if something was unfolded (maybe several states:
        then a list), None if nothing found"""
        eq = (lambda p_, q_: diff(p_, q_) == 0) if not solver else (lambda p_, q_: diff(p_, q_) == 0 or (diff(p_, q_) is None and self.prove(s, p_ == q_)))
        base, off = base_off(addr)

        def pred(nd):
            d = diff(addr, nd[0])
            if d is not None:
                if 0 <= d < 32:
                    return True
            elif solver and 0 <= off < 32 and self.prove(s, base == nd[0]):
                return True
            return eq(addr, nd[1]) or (num(nd[3]) != 0 and eq(addr, nd[3]))
        for i, ch in enumerate(s.heap):
            if isinstance(ch, Tr):
                if eq(addr, ch.h):
                    if self.prove(s, ch.h != 0):
                        self.open_tree(s, i)
                        return [s]
                t = s.hnf(ch.T)
                if t.decl().name() == 'Node':
                    items = s.flat(t.arg(0))
                    if self.search_term(s, items, pred) is not None:
                        self.open_tree(s, i)
                        return [s]
                    if solver and items and items[-1][0] == 's' and 0 <= off < 32 and self.tail_head(s, items[-1][1], base):
                        return [s]
            elif isinstance(ch, (Lst, Seg)):
                if eq(addr, ch.a) and (isinstance(ch, Lst) or not solver or True):
                    return list(self.open_list(s, i))
                j = self.search_term(s, s.flat(ch.L), pred)
                if j is not None:
                    self.split_at(s, i, j)
                    return [s]
                if solver:
                    # head of an opaque tail
                    items = s.flat(ch.L)
                    if items and items[-1][0] == 's' and 0 <= off < 32:
                        if self.tail_head(s, items[-1][1], base):
                            return [s]
        if solver and self.open_member(s, addr):
            return [s]
        return None

    def rep_facts(self, s):
        """[(name, array, list, position)]: arrays known to describe the elements of a list"""
        out = []
        for f in s.pc:
            if z3.is_app(f) and f.decl().name() in ('repE', 'repK', 'repI') and num(f.arg(2)) == 0:
                out.append((f.decl().name(), f.arg(0), f.arg(1), 0))
        return out

    def open_member(self, s, addr):
        """addr lies in an element whose address was taken from an array that describes a list: expose that element in
        the list that contains it"""
        base, off = base_off(addr)
        if not (z3.is_app(base) and base.decl().kind() == z3.Z3_OP_SELECT) or not 0 <= off < 32:
            return False
        arr, i = base.arg(0), base.arg(1)
        for r, a_, L_, _ in self.rep_facts(s):
            if r != 'repE' or a_.get_id() != arr.get_id():
                continue
            if not self.prove(s, And(i >= 0, i < len_(L_))):
                continue
            D_ = dropn(L_, i)
            if not self.prove(s, And(isCons(D_), ce(D_) == base)):
                continue
            x_ = [base, fresh('kp'), fresh('k', S), fresh('hp'), fresh('T', Tree)]
            one = Cons(*x_, Nil)
            self.assume(s, D_ == Cons(*x_, dropn(L_, simp(i + 1))), sgl(D_) == one)
            for j, ch in enumerate(s.heap):
                t = s.hnf(ch.T) if isinstance(ch, Tr) else None
                if not (isinstance(ch, Lst) or (t is not None and t.decl().name() == 'Node')):
                    continue
                items = s.flat(ch.L if isinstance(ch, Lst) else t.arg(0))
                for q, (kd, R) in enumerate(items):
                    if kd != 's' or not self.prove(s, cnt(R, one) >= 1):
                        continue
                    F_, B_ = fresh('F', List), fresh('B', List)
                    self.assume(s, F_ == cutF(R, one), B_ == cutB(R, one), R == app(F_, Cons(*x_, B_)))
                    L2 = build(items[:q] + [('s', F_), ('n', tuple(x_)), ('s', B_)] + items[q + 1:])
                    s.heap[j] = Lst(ch.a, L2) if isinstance(ch, Lst) else Tr(ch.h, Node(L2))
                    return True
        return False

    def tail_head(self, s, tail, base):
        if self.prove(s, And(isCons(tail), ce(tail) == base)):
            x_ = [base, fresh('kp'), fresh('k', S), fresh('hp'), fresh('T', Tree), fresh('L', List)]
            self.assume(s, tail == Cons(*x_))
            s.define(tail, Cons(*x_))
            return True
        return False

    # ------------------------------------------------------------ heap: byte contents
    def pieces(self, s, val, first=True):
        """flatten a byte-sequence term into atoms; expands enc/encL on demand (first: expand the leading atom)"""
        val = s.hnf(val)
        d = val.decl().name()
        if d == 'cat':
            return self.pieces(s, val.arg(0), first) + self.pieces(s, val.arg(1), False)
        if d == 'eps':
            return []
        return [val]

    def expand_first(self, s, val):
        """one expansion step of the leading atom; yields (state, atoms) or None if not expandable"""
        d = val.decl().name()
        if d == 'enc':
            t = s.hnf(val.arg(0))
            L_ = simp_lst(s, t)
            if L_ is None:
                L_ = fresh('L', List)
                self.assume(s, lst(t) == L_)
            self.assume(s, len_(L_) >= 0)
            return [be(4, len_(L_)), encL(L_)]
        if d == 'encL':
            L_ = s.hnf(val.arg(0))
            items = s.flat(L_)
            if not items:
                return []
            if items[0][0] == 's':
                hd_ = items[0][1]
                if not self.prove(s, isCons(hd_)):
                    if self.prove(s, hd_ == Nil):
                        s.define(hd_, Nil)
                        return self.expand_first(s, encL(build(items[1:])))
                    return None
                x_ = [fresh('e'), fresh('kp'), fresh('k', S), fresh('hp'), fresh('T', Tree), fresh('L', List)]
                self.assume(s, hd_ == Cons(*x_))
                s.define(hd_, Cons(*x_))
                items = s.flat(L_)
            nd = items[0][1]
            return [str0(nd[2]), enc(nd[4]), encL(build(items[1:]))]
        return None

    def alen(self, val):
        """length of an atom as a term"""
        d = val.decl().name()
        if d in ('be', 'le'):
            return val.arg(0)
        if d == 'str0':
            return simp(slen(val.arg(0)) + 1)
        if d == 'enc':
            return psz(val.arg(0))
        if d == 'encL':
            return pszL(val.arg(0))
        return blen(val)

    def leq(self, s, a, b):
        d = diff(a, b)
        if d is not None:
            return d <= 0
        return self.prove(s, a <= b)

    def teq(self, s, a, b):
        d = diff(a, b)
        if d is not None:
            return d == 0
        return self.prove(s, a == b)

    def split_bytes(self, s, i, at):
        """split Bytes chunk i at offset `at` (0<at<n known); returns True on success; chunk i becomes the front, i+1 the back"""
        ch = s.heap[i]
        n1, n2 = simp(at), simp(ch.n - at)
        if ch.val is None:
            s.heap[i:i + 1] = [Bytes(ch.addr, n1, None), Bytes(simp(ch.addr + at), n2, None)]
            return True
        todo = self.pieces(s, ch.val)
        front = []
        rem = n1
        guard = 0
        while num(rem) != 0 and not self.teq(s, rem, IntVal(0)):
            guard += 1
            if not todo or guard > 50:
                # opaque content: any byte string of sufficient length splits
                return False
            p0 = todo[0]
            ln = self.alen(p0)
            if self.leq(s, ln, rem):
                front.append(p0)
                todo = todo[1:]
                rem = simp(rem - ln)
                continue
            ex = self.expand_first(s, p0)
            if ex is not None:
                todo = ex + todo[1:]
                continue
            if p0.decl().name() in ('be', 'le', 'str0', 'enc', 'encL'):
                return False
            u_, v_ = fresh('u', B), fresh('v', B)
            self.assume(s, p0 == cat(u_, v_), blen(u_) == rem, blen(v_) == ln - rem)
            s.define(p0, cat(u_, v_))
            front.append(u_)
            todo = [v_] + todo[1:]
            rem = IntVal(0)
        s.heap[i:i + 1] = [Bytes(ch.addr, n1, catl(front)), Bytes(simp(ch.addr + at), n2, catl(todo))]
        return True

    def find_bytes(self, s, addr, size):
        """index of the Bytes chunk containing [addr,addr+size), split so that it starts at addr; None if none"""
        best = None
        for i, ch in enumerate(s.heap):
            if isinstance(ch, Bytes):
                d = diff(addr, ch.addr)
                if d is not None and d == 0 and self.leq(s, size, ch.n):
                    return i
        for i, ch in enumerate(s.heap):
            if isinstance(ch, Bytes):
                d = diff(addr, ch.addr)
                if d is not None and d < 0:
                    continue
                if d is None and not share_base(addr, ch.addr) and not self.prove(s, And(addr >= ch.addr, addr < ch.addr + ch.n)):
                    continue
                if self.prove(s, And(ch.addr <= addr, addr + size <= ch.addr + ch.n, addr < ch.addr + ch.n)):
                    if not self.teq(s, addr, ch.addr):
                        if not self.split_bytes(s, i, simp(addr - ch.addr)):
                            return None
                        i += 1
                    return i
        return None

    def take_bytes(self, s, p, n, node, quiet=False, out=None):
        """remove all memory [p,p+n) and return its content (B term, or None if partly unknown); False on failure"""
        cur, rem = simp(p), simp(n)
        pcs = out
        out, known = [], True
        guard = 0
        while True:
            guard += 1
            if num(rem) == 0 or (num(rem) is None and self.prove(s, rem <= 0)):
                break
            if guard > 200:
                return False
            hit = None
            for rnd in (0, 1):
                for i, ch in enumerate(s.heap):
                    if isinstance(ch, (Bytes, Cell, Arr)):
                        d = diff(cur, ch.addr)
                        if d == 0 or (rnd == 1 and d is None and self.prove(s, cur == ch.addr)):
                            if isinstance(ch, Bytes) and num(ch.n) == 0:
                                continue
                            hit = i
                            break
                if hit is not None:
                    break
            if hit is None:
                hit = self.find_bytes(s, cur, IntVal(1))
            if hit is None:
                hit = self.arr_split_at(s, cur)
            if hit is None:
                r = self.find_owner(s, cur, 1, False) or self.find_owner(s, cur, 1, True)
                if r and len(r) == 1:
                    continue
                if r:
                    # fork needed: pick by provability
                    return self._tb_fork(s, r, p, n, node, quiet)
                if not quiet:
                    self.fail(s, 'memory', node, 'no ownership of bytes at %s (of [%s,+%s))' % (cur, p, n))
                return False
            ch = s.heap[hit]
            if isinstance(ch, Cell):
                sz = IntVal(ch.size)
                if not self.leq(s, sz, rem):
                    if not quiet:
                        self.fail(s, 'memory', node, 'partial access to a %d-byte object at %s' % (ch.size, cur))
                    return False
                del s.heap[hit]
                out.append(cell_bytes(ch))
                if out[-1] is None:
                    known = False
                if pcs is not None:
                    pcs.append((sz, out[-1]))
                cur, rem = simp(cur + sz), simp(rem - sz)
                continue
            if isinstance(ch, Arr):
                sz = simp(ch.n * ch.stride)
                if not self.leq(s, sz, rem):
                    if not quiet:
                        self.fail(s, 'memory', node, 'partial access to an array at %s' % cur)
                    return False
                del s.heap[hit]
                known = False
                if pcs is not None:
                    pcs.append((sz, None))
                cur, rem = simp(cur + sz), simp(rem - sz)
                continue
            if not self.leq(s, ch.n, rem):
                if not self.split_bytes(s, hit, rem):
                    if not quiet:
                        self.fail(s, 'memory', node, 'cannot split byte content %s at %s' % (str(ch.val)[:80], rem))
                    return False
                ch = s.heap[hit]
            del s.heap[hit]
            if ch.val is None:
                known = False
            else:
                out.append(ch.val)
            if pcs is not None:
                pcs.append((ch.n, ch.val))
            cur, rem = simp(cur + ch.n), simp(rem - ch.n)
        if not known:
            return None
        return catl(out)

    def _tb_fork(self, s, r, p, n, node, quiet):
        raise Unsupported('ambiguous ownership while taking bytes')

    def arr_split_at(self, s, addr):
        return None

    def inside_str(self, s, p, within=True):
        """(k, offset) if p points behind the first character of a string k, at most to its end; else None
        (within=False: p points into the same memory, possibly at the end of the string)"""
        for ch in s.heap:
            if isinstance(ch, Bytes) and ch.val is not None:
                d = diff(p, ch.addr)
                if (d is not None and d <= 0) or (d is None and not share_base(p, ch.addr)):
                    continue
                ps = self.pieces(s, ch.val)
                if ps and ps[0].decl().name() == 'str0':
                    k_, o = ps[0].arg(0), simp(p - ch.addr)
                    if self.prove(s, And(o >= 0, o <= slen(k_))) if within else self.feasible(s, o == slen(k_)) and self.prove(s, o >= 0):
                        return k_, o
        return None

    def take_str(self, s, p, node, keep=False):
        """NUL-terminated string at p: returns its S term, removes the chunk unless keep; None on failure"""
        guard = 0
        if keep:
            r = self.inside_str(s, p)
            if r is not None:
                k_, o = r
                self.assume(s, slen(ssuf(o, k_)) == slen(k_) - o, Implies(o == 0, ssuf(o, k_) == k_))
                return ssuf(o, k_)
        while guard < 6:
            guard += 1
            i = self.find_bytes(s, p, IntVal(1))
            if i is None:
                r = self.find_owner(s, p, 1, False) or self.find_owner(s, p, 1, True)
                if r and len(r) == 1:
                    continue
                if r:
                    raise Unsupported('ambiguous ownership of string')
                self.fail(s, 'memory', node, 'no string owned at %s' % p)
                return None
            ch = s.heap[i]
            if ch.val is None:
                self.fail(s, 'memory', node, 'string read from uninitialised or unknown bytes at %s' % p)
                return None
            ps = self.pieces(s, ch.val)
            if not ps:
                self.fail(s, 'memory', node, 'string read from empty bytes at %s' % p)
                return None
            d = ps[0].decl().name()
            if d == 'str0':
                k_ = ps[0].arg(0)
                if len(ps) > 1 or not self.teq(s, ch.n, slen(k_) + 1):
                    s.heap[i:i + 1] = [Bytes(ch.addr, simp(slen(k_) + 1), ps[0]),
                                       Bytes(simp(ch.addr + slen(k_) + 1), simp(ch.n - slen(k_) - 1), catl(ps[1:]))]
                if not keep:
                    del s.heap[i]
                return k_
            ex = self.expand_first(s, ps[0])
            if ex is None:
                self.fail(s, 'memory', node, 'bytes at %s are not known to hold a NUL-terminated string (%s)' % (p, str(ps[0])[:60]))
                return None
            s.heap[i] = Bytes(ch.addr, ch.n, catl(ex + ps[1:]))
        self.fail(s, 'memory', node, 'no string at %s' % p)
        return None

    def enc_at(self, s, p):
        """the tree whose packed form starts at p, or None"""
        for _ in range(4):
            i = self.find_bytes(s, p, IntVal(1))
            if i is None:
                return None
            ch = s.heap[i]
            if ch.val is None:
                return None
            ps = self.pieces(s, ch.val)
            if not ps:
                return None
            d = ps[0].decl().name()
            if d == 'enc':
                return ps[0].arg(0)
            if d == 'encL':
                ex = self.expand_first(s, ps[0])
                if ex is None:
                    return None
                s.heap[i] = Bytes(ch.addr, ch.n, catl(ex + ps[1:]))
                continue
            # a count followed by that many packed elements
            if num(ch.n) == 4 and diff(ch.addr, p) == 0:
                for c2 in s.heap:
                    if isinstance(c2, Bytes) and diff(c2.addr, p + 4) == 0 and c2.val is not None:
                        q_ = self.pieces(s, c2.val)
                        if q_ and q_[0].decl().name() == 'encL':
                            return Node(q_[0].arg(0))
            return None
        return None

    # ------------------------------------------------------------ heap: folding
    def take_tree(self, s, h, node, quiet=False, depth=0):
        """yields (state, T)"""
        h = simp(h)
        if num(h) == 0:
            yield s, Null
            return
        for rnd in (0, 1):
            for i, ch in enumerate(s.heap):
                if isinstance(ch, Tr):
                    d = diff(h, ch.h)
                    if d == 0 or (rnd and d is None and self.prove(s, h == ch.h)):
                        del s.heap[i]
                        yield s, ch.T
                        return
                elif isinstance(ch, Block) and num(ch.n) == 8:
                    d = diff(h, ch.addr)
                    if d == 0 or (rnd and d is None and self.prove(s, h == ch.addr)):
                        del s.heap[i]
                        for s1, L_ in self.take_list(s, ch.addr, node, quiet):
                            yield s1, Node(L_)
                        return
            if rnd == 0 and self.prove(s, h == 0):
                yield s, Null
                return
        if depth < 8:
            r = self.find_owner(s, h, 8, False) or self.find_owner(s, h, 8, True)
            if r:
                for s1 in r:
                    yield from self.take_tree(s1, h, node, quiet, depth + 1)
                return
        # undetermined: maybe NULL?
        if depth < 10 and self.feasible(s, h == 0) and self.feasible(s, h != 0):
            s2 = s.copy()
            self.assume(s, h == 0)
            yield s, Null
            self.assume(s2, h != 0)
            yield from self.take_tree(s2, h, node, quiet, 10)
            return
        if not quiet:
            self.fail(s, 'ownership', node, 'no tree owned at %s' % h)

    def take_list(self, s, a, node, quiet=False, guard=0):
        """NULL-terminated list from pointer cell a; yields (state, L)"""
        a = simp(a)
        if guard > 60:
            return
        for rnd in (0, 1):
            for i, ch in enumerate(s.heap):
                if isinstance(ch, (Lst, Seg)) or (isinstance(ch, Cell) and ch.size == 8):
                    p_ = ch.addr if isinstance(ch, Cell) else ch.a
                    d = diff(a, p_)
                    if not (d == 0 or (rnd and d is None and self.prove(s, a == p_))):
                        continue
                    if isinstance(ch, Lst):
                        del s.heap[i]
                        yield s, ch.L
                        return
                    if isinstance(ch, Seg):
                        del s.heap[i]
                        for s1, L2 in self.take_list(s, ch.b, node, quiet, guard + 1):
                            yield s1, build(s1.flat(ch.L) + s1.flat(L2))
                        return
                    yield from self.take_from_cell(s, i, ch, a, node, quiet, guard)
                    return
        if not quiet:
            self.fail(s, 'ownership', node, 'no list owned at pointer %s' % a)

    def take_from_cell(self, s, i, ch, a, node, quiet, guard):
        v_ = ch.val
        if v_ is None:
            if not quiet:
                self.fail(s, 'memory', node, 'list pointer at %s is uninitialised' % a)
            return
        if num(v_) == 0:
            del s.heap[i]
            yield s, Nil
            return
        has_node = any(isinstance(c_, Block) and diff(c_.addr, v_) == 0 for c_ in s.heap)
        if not has_node and self.prove(s, v_ == 0):
            del s.heap[i]
            yield s, Nil
            return
        if not has_node and not self.prove(s, v_ != 0) and self.feasible(s, v_ == 0):
            s2 = s.copy()
            self.assume(s2, v_ == 0)
            del s2.heap[i]
            yield s2, Nil
            self.assume(s, v_ != 0)
        del s.heap[i]
        # node at v_
        vals = []
        for off in (0, 8, 24):
            j = self.cell_at(s, simp(v_ + off))
            if j is None:
                if not quiet:
                    self.fail(s, 'ownership', node, 'element field +%d of %s missing or uninitialised while closing a list' % (off, v_))
                return
            vals.append(s.heap[j].val)
            del s.heap[j]
        kp_, hp_, pv = vals
        if quiet:
            if not self.teq(s, pv, a):
                return
        else:
            self.oblige(s, pv == a, 'list-structure', node, 'le_prev of element %s must point to the cell %s that points to it' % (v_, a))
        if not self.take_block(s, v_, IntVal(32), node, quiet):
            return
        if quiet:
            self.nofail += 1
        k_ = self.take_str(s, kp_, node)
        if quiet:
            self.nofail -= 1
        if k_ is None:
            return
        if not self.take_block(s, kp_, simp(slen(k_) + 1), node, quiet):
            return
        for s1, t_ in self.take_tree(s, hp_, node, quiet):
            for s2, L2 in self.take_list(s1, simp(v_ + 16), node, quiet, guard + 1):
                yield s2, Cons(v_, kp_, k_, hp_, t_, L2)

    def cell_at(self, s, addr, size=8):
        for i, ch in enumerate(s.heap):
            if isinstance(ch, Cell) and ch.size == size and diff(addr, ch.addr) == 0:
                return i
        for i, ch in enumerate(s.heap):
            if isinstance(ch, Cell) and ch.size == size and diff(addr, ch.addr) is None and self.prove(s, addr == ch.addr):
                return i
        return None

    def take_block(self, s, p, n, node, quiet=False):
        for rnd in (0, 1):
            for i, ch in enumerate(s.heap):
                if isinstance(ch, Block):
                    d = diff(p, ch.addr)
                    if d == 0 or (rnd and d is None and self.prove(s, p == ch.addr)):
                        del s.heap[i]
                        if n is not None and diff(n, ch.n) != 0:
                            if quiet:
                                return self.prove(s, n == ch.n)
                            self.oblige(s, n == ch.n, 'block-size', node)
                        return True
        if not quiet:
            self.fail(s, 'ownership', node, 'no heap block owned at %s' % p)
        return False

    def canonical(self, s, node):
        """fold every tree that can be folded; yields one state (best effort)"""
        for h in [ch.addr for ch in s.heap if isinstance(ch, Block) and num(ch.n) == 8]:
            if not any(isinstance(ch, Block) and ch.addr is h for ch in s.heap):
                continue
            # only fold blocks that are tree heads (a list hangs at h)
            s2 = s.copy()
            self.nofail += 1
            npc = len(s2.pc)
            got = list(self.take_tree(s2, h, node, quiet=True))
            self.nofail -= 1
            if len(got) == 1:
                s3, t_ = got[0]
                if any(self.pinned(s, p_) and not self.pinned(s3, p_) and diff(p_, h) != 0 for p_ in self.pins):
                    continue
                s3.heap.append(Tr(h, s3.hnf(t_)))
                s = s3
        for p_ in self.pins:
            for _ in range(8):
                if self.pinned(s, p_):
                    break
                r = self.find_owner(s, p_, 8, False)
                if r is None or len(r) != 1:
                    break
                s = r[0]
        return s

    def pinned(self, s, p_):
        """is the tree with head p_ (which a loop walks) in the heap on its own?"""
        return any((isinstance(ch, Tr) and diff(ch.h, p_) == 0) or (isinstance(ch, Block) and diff(ch.addr, p_) == 0) for ch in s.heap)

    # ------------------------------------------------------------ memory access
    def locate(self, s, addr, size, node, write=False):
        """yields (state, index, kind) with heap[index] the chunk for an access of `size` bytes at addr"""
        addr = simp(addr)
        work = [(s, 0)]
        while work:
            st, n_ = work.pop()
            if n_ > 14:
                self.fail(st, 'memory', node, 'cannot resolve the access at %s' % addr)
                continue
            hit = None
            bad = None
            for i, ch in enumerate(st.heap):
                if isinstance(ch, Cell):
                    d = diff(addr, ch.addr)
                    if d == 0 and ch.size == size:
                        hit = i
                        break
                    if d is not None and -size < d < ch.size and not (d == 0 and ch.size == size):
                        bad = ch
                elif isinstance(ch, Bytes):
                    d = diff(addr, ch.addr)
                    nn = num(ch.n)
                    if d is not None and d >= 0 and nn is not None and d + size <= nn:
                        hit = i
                        break
                elif isinstance(ch, Arr):
                    if self.in_arr(st, ch, addr, size, False):
                        hit = i
                        break
            if hit is not None:
                yield st, hit
                continue
            if bad is not None:
                # reinterpret: merge cells into bytes
                yield from self.reinterpret(st, addr, size, bad, node)
                continue
            if num(addr) is not None and num(addr) < 4096:
                self.fail(st, 'null-dereference', node, 'access through NULL (+%s)' % addr)
                continue
            r = self.find_owner(st, addr, size, False)
            if r is not None:
                work.extend((x_, n_ + 1) for x_ in r)
                continue
            # solver-assisted
            hit = None
            for i, ch in enumerate(st.heap):
                if isinstance(ch, Cell) and ch.size == size and diff(addr, ch.addr) is None and self.prove(st, addr == ch.addr):
                    hit = i
                    break
                if isinstance(ch, Bytes) and self.bytes_cover(st, ch, addr, size):
                    hit = i
                    break
                if isinstance(ch, Arr) and self.in_arr(st, ch, addr, size, True):
                    hit = i
                    break
            if hit is not None:
                yield st, hit
                continue
            base, off = base_off(addr)
            if self.prove(st, base == 0):
                self.fail(st, 'null-dereference', node, 'access through NULL (+%d)' % off)
                continue
            r = self.find_owner(st, addr, size, True)
            if r is not None:
                work.extend((x_, n_ + 1) for x_ in r)
                continue
            self.fail(st, 'memory', node, 'access to %d bytes at %s: not owned (out of bounds, freed, NULL or unknown memory)' % (size, addr))

    def reinterpret(self, s, addr, size, bad, node):
        self.fail(s, 'memory', node, 'access of %d bytes overlaps a %d-byte object at %s' % (size, bad.size, bad.addr))
        return
        yield

    def bytes_cover(self, s, ch, addr, size):
        d = diff(addr, ch.addr)
        if d is not None:
            return d >= 0 and self.prove(s, d + size <= ch.n)
        if not share_base(addr, ch.addr) and not isinstance(num(ch.n), int) and False:
            return False
        return self.prove(s, And(addr >= ch.addr, addr + size <= ch.addr + ch.n))

    def in_arr(self, s, ch, addr, size, solver):
        r = self.arr_index(s, ch, addr, size)
        if r is None:
            return False
        idx, f = r
        return solver and self.prove(s, And(idx >= 0, idx < ch.n)) or (num(idx) is not None and num(ch.n) is not None and 0 <= num(idx) < num(ch.n))

    def arr_index(self, s, ch, addr, size):
        """addr = ch.addr + idx*stride + off for a field -> (idx, field index)"""
        d = simp(addr - ch.addr)
        terms = d.children() if z3.is_add(d) else [d]
        const = 0
        idx = []
        for t_ in terms:
            if z3.is_int_value(t_):
                const += t_.as_long()
            elif z3.is_mul(t_) and z3.is_int_value(t_.arg(0)) and t_.arg(0).as_long() % ch.stride == 0:
                idx.append(IntVal(t_.arg(0).as_long() // ch.stride) * prod(t_.children()[1:]))
            elif ch.stride == 1:
                idx.append(t_)
            else:
                return None
        off = const % ch.stride
        idx.append(IntVal(const // ch.stride))
        for fi, (fo, fs, sg) in enumerate(ch.fields):
            if fo == off and fs == size:
                return simp(z3.Sum(idx)), fi
        return None

    def read(self, s, addr, ty, node):
        size = self.u.sizeof(ty)
        r = self.inside_str(s, addr) if size == 1 and ty.k == 'int' else None
        if r is not None:
            # a character of a string: zero at the end only
            v_ = schr(r[1], r[0])
            self.assume(s, (v_ == 0) == (r[1] == slen(r[0])))
            self.rng(s, v_, ty)
            self.ok('memory-read', node)
            yield s, v_
            return
        for s1, i in self.locate(s, addr, size, node):
            ch = s1.heap[i]
            if isinstance(ch, Cell):
                if ch.val is None:
                    self.fail(s1, 'uninitialised', node, 'read of uninitialised memory at %s' % addr)
                    continue
                self.ok('memory-read', node)
                if isinstance(ch.val, (Dbl, FnRef)):
                    yield s1, ch.val
                    continue
                yield s1, self.retype(s1, ch, ty)
            elif isinstance(ch, Arr):
                idx, fi = self.arr_index(s1, ch, addr, size)
                self.ok('memory-read', node)
                v_ = z3.Select(ch.arrs[fi], idx)
                self.rng(s1, v_, ty)
                yield s1, v_
            else:
                r = self.read_bytes(s1, i, addr, size, ty, node)
                if r is not None:
                    self.ok('memory-read', node)
                    yield s1, r

    def retype(self, s, ch, ty):
        """value of a cell read with type ty (same size): adjust signedness"""
        v_ = ch.val
        if ty.k == 'int':
            sg = getattr(ch, 'signed', None)
            lo, hi = int_range(ty)
            n_ = num(v_)
            if n_ is not None:
                if lo <= n_ <= hi:
                    return v_
                return IntVal(wrapc(n_, ty))
            if self.prove(s, And(v_ >= lo, v_ <= hi)):
                return v_
            return wrap(v_, ty)
        return v_

    def read_bytes(self, s, i, addr, size, ty, node):
        ch = s.heap[i]
        if ch.val is None:
            self.fail(s, 'uninitialised', node, 'read of uninitialised memory at %s' % addr)
            return None
        # split out exactly [addr,addr+size)
        if not self.teq(s, addr, ch.addr):
            if not self.split_bytes(s, i, simp(addr - ch.addr)):
                raise Unsupported('read inside structured bytes')
            i += 1
        ch = s.heap[i]
        if not self.teq(s, ch.n, IntVal(size)):
            if not self.split_bytes(s, i, IntVal(size)):
                raise Unsupported('read inside structured bytes')
        ch = s.heap[i]
        if ty.k not in ('int', 'ptr'):
            if ch.val.decl().name() == 'dblbytes':
                return Dbl(ch.val.arg(0))
            t_ = fresh('dbl', z3.RealSort())
            self.assume(s, ch.val == dblb(t_))
            return Dbl(t_)
        v_ = self.bytes_value(s, ch.val, size)
        if ty.k == 'int' and ty.signed:
            v_ = wrap(v_, ty)
        s.heap[i] = Cell(ch.addr, size, v_)
        return v_

    def bytes_value(self, s, val, size):
        """little-endian integer value of a byte sequence of known length"""
        ps = self.pieces(s, val)
        if len(ps) == 1 and ps[0].decl().name() == 'be' and num(ps[0].arg(0)) == size and size in bswap:
            w_ = ps[0].arg(1)
            n_ = num(w_)
            if n_ is not None:
                return IntVal(int.from_bytes((n_ % 2 ** (8 * size)).to_bytes(size, 'big'), 'little'))
            if w_.decl().name() == 'bswap%d' % (8 * size):
                return w_.arg(0)
            return bswap[size](w_)
        if len(ps) == 1 and ps[0].decl().name() == 'le' and num(ps[0].arg(0)) == size:
            return ps[0].arg(1)
        if size in bswap and len(ps) >= 1:
            # opaque content: it is the big-endian form of some number
            w_ = fresh('w')
            self.assume(s, w_ >= 0, w_ < 2 ** (8 * size), val == be(size, w_))
            if len(ps) == 1 and ps[0].num_args() == 0:
                s.define(ps[0], be(size, w_))
            return bswap[size](w_)
        w_ = fresh('w')
        self.assume(s, w_ >= 0, w_ < 2 ** (8 * size))
        if size == 1:
            self.assume(s, val == le(1, w_))
        return w_

    def write(self, s, addr, ty, v, node):
        """yields states"""
        size = self.u.sizeof(ty)
        if size == 1 and z3.is_expr(v) and num(v) == 0:
            # a terminator written where the string may end already
            r = self.inside_str(s, addr, False)
            if r is not None:
                for s1, end in self.branch(s, r[1] == slen(r[0])):
                    if end:
                        self.ok('memory-write', node)
                        yield s1
                    else:
                        yield from self.write0(s1, addr, ty, v, node)
                return
        yield from self.write0(s, addr, ty, v, node)

    def write0(self, s, addr, ty, v, node):
        size = self.u.sizeof(ty)
        for s1, i in self.locate(s, addr, size, node, True):
            ch = s1.heap[i]
            self.ok('memory-write', node)
            if ('lit', ) and self.is_literal(ch):
                self.fail(s1, 'memory', node, 'write to a string literal')
                continue
            if isinstance(ch, Cell):
                s1.heap[i] = Cell(ch.addr, size, v)
                yield s1
            elif isinstance(ch, Arr):
                idx, fi = self.arr_index(s1, ch, addr, size)
                arrs = list(ch.arrs)
                arrs[fi] = z3.Store(arrs[fi], idx, v)
                s1.heap[i] = ch._replace(arrs=tuple(arrs))
                yield s1
            else:
                if not self.teq(s1, addr, ch.addr):
                    if not self.split_bytes(s1, i, simp(addr - ch.addr)):
                        raise Unsupported('write inside structured bytes')
                    i += 1
                ch = s1.heap[i]
                if not self.teq(s1, ch.n, IntVal(size)):
                    if not self.split_bytes(s1, i, IntVal(size)):
                        raise Unsupported('write inside structured bytes')
                s1.heap[i] = Cell(simp(addr), size, v)
                yield s1

    def is_literal(self, ch):
        return isinstance(ch, Bytes) and str(ch.addr).startswith('litaddr_')

    # ------------------------------------------------------------ produce / consume
    def inst(self, t, bind):
        if t is None or isinstance(t, (int, str, FnRef, Dbl)):
            return IntVal(t) if isinstance(t, int) and not isinstance(t, bool) else t
        if not bind:
            return t
        ids = subterms_consts(t)
        pairs = [bind[i] for i in ids if i in bind]
        if not pairs:
            return t
        return z3.substitute(t, *pairs)

    def produce(self, s, asserts, bind):
        """yields states"""
        if not asserts:
            yield s
            return
        a0, rest = asserts[0], asserts[1:]
        I_ = lambda t_: self.inst(t_, bind)
        if isinstance(a0, Pure):
            self.assume(s, I_(a0.f))
            self.learn(s, I_(a0.f))
        elif isinstance(a0, AEnc):
            p_, U_ = simp(I_(a0.p)), I_(a0.U)
            self.assume(s, p_ > 0, p_ + psz(U_) < 2 ** 62, okT(U_), blen(enc(U_)) == psz(U_))
            s.heap.append(Bytes(p_, simp(psz(U_)), enc(U_)))
        elif isinstance(a0, AUnify):
            f = I_(a0.val) == I_(a0.pat)
            self.assume(s, f)
            self.learn(s, f)
        elif isinstance(a0, ATree):
            self.add_tree(s, I_(a0.h), I_(a0.T))
        elif isinstance(a0, AList):
            s.heap.append(Lst(I_(a0.a), I_(a0.L)))
        elif isinstance(a0, ACell):
            p_ = simp(I_(a0.p))
            self.assume(s, p_ > 0, p_ < 2 ** 62)
            if a0.v is None:
                s.heap.append(Bytes(p_, IntVal(a0.size), None))
            else:
                s.heap.append(Cell(p_, a0.size, I_(a0.v)))
        elif isinstance(a0, ABytes):
            n_ = simp(I_(a0.n))
            p_ = simp(I_(a0.p))
            v_ = I_(a0.val) if a0.val is not None else None
            self.assume(s, n_ >= 0, p_ >= 0, p_ + n_ < 2 ** 62)
            if v_ is not None:
                self.assume(s, blen(v_) == n_)
            s.heap.append(Bytes(p_, n_, v_))
        elif isinstance(a0, AKeep):
            p_, n_, v_ = simp(I_(a0.p)), simp(I_(a0.n)), I_(a0.val)
            self.assume(s, p_ >= 0, p_ + n_ < 2 ** 62)
            s.heap.append(Bytes(p_, n_, None if v_.get_id() in self.raws else v_))
        elif isinstance(a0, AStr):
            p_, k_ = simp(I_(a0.p)), I_(a0.k)
            self.assume(s, p_ > 0, slen(k_) >= 0, slen(k_) < 2 ** 48, p_ < 2 ** 62)
            s.heap.append(Bytes(p_, simp(slen(k_) + 1), str0(k_)))
        elif isinstance(a0, ABlock):
            p_ = simp(I_(a0.p))
            self.assume(s, p_ > 0, p_ < 2 ** 62)
            s.heap.append(Block(p_, simp(I_(a0.n))))
        elif isinstance(a0, AArr):
            s.heap.append(Arr(simp(I_(a0.p)), a0.stride, simp(I_(a0.n)), a0.fields, tuple(I_(x_) for x_ in a0.arrs)))
        elif isinstance(a0, ARes):
            s.heap.append(Res(a0.kind, I_(a0.key), {k_: (I_(v_) if z3.is_expr(v_) else v_) for k_, v_ in a0.data.items()}))
        elif isinstance(a0, ANullOr):
            p_ = I_(a0.p)
            for s1, isn in self.branch(s, p_ == 0):
                yield from self.produce(s1, rest if isn else list(a0.body) + rest, bind)
            return
        elif isinstance(a0, AIf):
            c_ = I_(a0.c)
            for s1, y_ in self.branch(s, c_):
                yield from self.produce(s1, (list(a0.yes) if y_ else list(a0.no)) + rest, bind)
            return
        elif isinstance(a0, AOr):
            for alt in a0.alts:
                yield from self.produce(s.copy(), list(alt) + rest, bind)
            return
        elif isinstance(a0, ACall):
            a0.prod(self, s, bind)
        else:
            raise Unsupported('assert %r' % (a0,))
        yield from self.produce(s, rest, bind)

    def learn(self, s, f):
        """equation for a tree/list constant: remember the structure"""
        if not z3.is_eq(f):
            return
        x_, y_ = f.arg(0), f.arg(1)
        if x_.sort() not in (Tree, List):
            return
        x_ = s.hnf(x_)
        if x_.num_args() == 0 and x_.get_id() not in s.defs and x_.decl().name() not in ('Null', 'Nil') and x_.get_id() not in subterms_consts(y_) \
                and s.hnf(y_).get_id() != x_.get_id() and not self.cyclic(s, x_, y_):
            s.define(x_, y_)
        elif x_.decl().name() == 'Node' and s.hnf(y_).decl().name() == 'Node':
            x_, y_ = s.hnf(x_.arg(0)), s.hnf(y_).arg(0)
            if x_.num_args() == 0 and x_.get_id() not in s.defs and x_.decl().name() not in ('Null', 'Nil') and not self.cyclic(s, x_, y_):
                s.define(x_, y_)

    def cyclic(self, s, x_, y_):
        todo, seen = [y_], set()
        while todo:
            z_ = todo.pop()
            for i in subterms_consts(z_):
                if i == x_.get_id():
                    return True
                if i in s.defs and i not in seen:
                    seen.add(i)
                    todo.append(s.defs[i][1])
        return False

    def bflat(self, s, t, rules, depth=0):
        out = []
        for p_ in self.pieces(s, t):
            r = rules.get(p_.get_id())
            if r is not None and depth < 40:
                out += self.bflat(s, r, rules, depth + 1)
            else:
                out.append(p_)
        return out

    def unify_bytes(self, s, pat, val, bind, un):
        """find values for the unbound variables of a byte pattern (the caller proves the equality)"""
        rules = {}

        def note(f):
            if z3.is_and(f):
                for g in f.children():
                    note(g)
            elif z3.is_eq(f) and f.arg(0).sort() == B:
                for x_, y_ in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if x_.num_args() == 0 and x_.decl().name() != 'eps' and (y_.num_args() > 0 or y_.decl().name() == 'eps') and \
                            x_.get_id() not in rules and x_.get_id() not in subterms_consts(y_):
                        rules[x_.get_id()] = y_
        for f in s.pc:
            note(f)
        vp = self.bflat(s, val, rules)
        bind = dict(bind)

        def atoms(t):
            if t.decl().name() == 'cat':
                return atoms(t.arg(0)) + atoms(t.arg(1))
            return [] if t.decl().name() == 'eps' else [t]
        pa = atoms(pat)
        free = lambda t: [j for j in subterms_consts(t) if j in un and j not in bind]
        i = 0
        for j, p0 in enumerate(pa):
            p_ = self.inst(p0, bind)
            if not free(p_):
                i += len(self.bflat(s, p_, rules))
                continue
            d = p_.decl().name()
            if d in ('be', 'le', 'enc', 'encL', 'str0'):
                w = p_.num_args() - 1
                v = p_.arg(w)
                if i >= len(vp) or vp[i].decl().name() != d:
                    return None
                if v.get_id() in un and v.get_id() not in bind:
                    bind[v.get_id()] = (v, vp[i].arg(w))
                i += 1
                continue
            if d == 'msg':
                if i >= len(vp) or vp[i].decl().name() != d:
                    return None
                v, v1 = p_.arg(2), vp[i].arg(2)
                if v.decl().name() == 'enc' and v1.decl().name() == 'enc' and v.arg(0).get_id() in un and v.arg(0).get_id() not in bind:
                    bind[v.arg(0).get_id()] = (v.arg(0), v1.arg(0))
                i += 1
                continue
            if p_.num_args() == 0:
                after = 0
                for r in pa[j + 1:]:
                    r = self.inst(r, bind)
                    after += len(self.bflat(s, r, rules)) if not free(r) else 1
                if len(vp) - after < i:
                    return None
                bind[p_.get_id()] = (p_, catl(vp[i:len(vp) - after]))
                i = len(vp) - after
                continue
            return None
        return bind

    def unify(self, s, pat, val, bind, un, node, what):
        """match contract term pat against val, binding unbound ghosts; returns new bind or None"""
        pat = self.inst(pat, bind)
        i = pat.get_id()
        if i in un and i not in bind:
            b2 = dict(bind)
            b2[i] = (pat, val)
            return b2
        ub = [j for j in subterms_consts(pat) if j in un and j not in bind]
        if not ub:
            if self.oblige(s, pat == val, what, node, '%s: expected %s, have %s' % (what, str(simp(pat))[:160], str(simp(val))[:160])):
                return bind
            return bind
        d = pat.decl().name()
        val = s.hnf(val)
        if d == 'Node':
            if val.decl().name() != 'Node':
                if self.prove(s, val == Null):
                    self.fail(s, what, node, 'expected a tree, have NULL')
                    return None
                self.oblige(s, isNode(val), what, node)
                val = Node(nl(val))
            return self.unify(s, pat.arg(0), val.arg(0), bind, un, node, what)
        if pat.sort() == List:
            return self.unify_list(s, St().flat(pat), s.flat(val), bind, un, node, what)
        if pat.sort() == B:
            b2 = self.unify_bytes(s, pat, val, bind, un)
            if b2 is None:
                self.fail(s, what, node, '%s: expected %s' % (what, str(simp(pat))[:200]))
                return None
            self.oblige(s, self.inst(pat, b2) == val, what, node, '%s: expected %s' % (what, str(simp(self.inst(pat, b2)))[:160]))
            return b2
        raise Unsupported('unify %s' % pat)

    def unify_list(self, s, pi, vi, bind, un, node, what):
        # pattern items: optional leading unbound segment, nodes, optional trailing unbound segment
        while pi and vi and pi[0][0] == 's' and vi[0][0] == 's' and self.inst(pi[0][1], bind).get_id() == vi[0][1].get_id():
            pi, vi = pi[1:], vi[1:]
        if pi and pi[0][0] == 's' and pi[0][1].get_id() in un and pi[0][1].get_id() not in bind:
            if len(pi) == 1:
                b2 = dict(bind)
                b2[pi[0][1].get_id()] = (pi[0][1], build(vi))
                return b2
            for j in range(len(vi)):
                if vi[j][0] == 'n' and self.node_match(s, pi[1][1], vi[j][1], bind, un):
                    b2 = dict(bind)
                    b2[pi[0][1].get_id()] = (pi[0][1], build(vi[:j]))
                    return self.unify_list(s, pi[1:], vi[j:], b2, un, node, what)
            self.fail(s, what, node, 'no element of the list matches %s' % (pi[1],))
            return None
        if pi and pi[0][0] == 'n':
            while vi and vi[0][0] == 's' and self.prove(s, vi[0][1] == Nil):
                vi = vi[1:]
            if not vi or vi[0][0] != 'n':
                self.fail(s, what, node, 'list shape mismatch')
                return None
            for x_, y_ in zip(pi[0][1], vi[0][1]):
                bind = self.unify(s, x_, y_, bind, un, node, what)
                if bind is None:
                    return None
            return self.unify_list(s, pi[1:], vi[1:], bind, un, node, what)
        if not pi:
            self.oblige(s, build(vi) == Nil, what, node)
            return bind
        self.oblige(s, self.inst(build(pi), bind) == build(vi), what, node)
        return bind

    def node_match(self, s, pn, vn, bind, un):
        for x_, y_ in zip(pn, vn):
            x_ = self.inst(x_, bind)
            if any(j in un and j not in bind for j in subterms_consts(x_)):
                continue
            if x_.sort() == I:
                if not self.teq(s, x_, y_):
                    return False
            elif not self.prove(s, x_ == y_):
                return False
        return True

    def consume(self, s, asserts, bind, un, node, what):
        """yields (state, bind)"""
        if not asserts:
            yield s, bind
            return
        a0, rest = asserts[0], asserts[1:]
        I_ = lambda t_: self.inst(t_, bind)
        go = lambda s_, b_: self.consume(s_, rest, b_, un, node, what)
        if isinstance(a0, Pure):
            f = I_(a0.f if a0.goal is None else a0.goal)
            ub = [j for j in subterms_consts(f) if j in un and j not in bind]
            if ub:
                if z3.is_eq(f) and f.arg(0).get_id() in un:
                    b2 = dict(bind)
                    b2[f.arg(0).get_id()] = (f.arg(0), f.arg(1))
                    yield from go(s, b2)
                    return
                raise Unsupported('unbound ghost in %s' % f)
            self.oblige(s, f, what, node, '%s%s' % (a0.why + ': ' if a0.why else '', str(f)[:300]))
            yield from go(s, bind)
        elif isinstance(a0, AEnc):
            p_ = I_(a0.p)
            bound = not any(j in un and j not in bind for j in subterms_consts(a0.U))
            U_ = I_(a0.U)
            if not bound:
                U_ = self.enc_at(s, p_)
                if U_ is None:
                    self.fail(s, what, node, 'the bytes at %s are not known to be a packed tree' % p_)
                    return
                bind = dict(bind)
                bind[a0.U.get_id()] = (a0.U, U_)
            self.oblige(s, okT(U_), what, node)
            c_ = self.take_bytes(s, p_, psz(U_), node)
            if c_ is False:
                return
            if c_ is None:
                self.fail(s, what, node, 'bytes at %s are not (fully) initialised' % p_)
                return
            self.oblige(s, c_ == enc(U_), what, node, 'packed form of %s expected, have %s' % (U_, str(c_)[:150]))
            yield from go(s, bind)
        elif isinstance(a0, AUnify) and a0.val.sort() == B:
            b2 = self.unify_bytes(s, a0.pat, I_(a0.val), bind, un)
            if b2 is None:
                raise Unsupported('byte sequence %s has not the form %s' % (str(I_(a0.val))[:200], str(a0.pat)[:200]))
            self.oblige(s, I_(a0.val) == self.inst(a0.pat, b2), what, node, 'byte sequence of the form %s' % str(a0.pat)[:300])
            yield from go(s, b2)
        elif isinstance(a0, AUnify):
            b2 = self.unify(s, a0.pat, I_(a0.val), bind, un, node, what)
            if b2 is not None:
                yield from go(s, b2)
        elif isinstance(a0, ATree):
            for s1, t_ in self.take_tree(s, I_(a0.h), node):
                b2 = self.unify(s1, a0.T, t_, bind, un, node, what)
                if b2 is not None:
                    yield from self.consume(s1, rest, b2, un, node, what)
        elif isinstance(a0, AList):
            for s1, L_ in self.take_list(s, I_(a0.a), node):
                b2 = self.unify(s1, a0.L, L_, bind, un, node, what)
                if b2 is not None:
                    yield from self.consume(s1, rest, b2, un, node, what)
        elif isinstance(a0, ACell):
            p_ = I_(a0.p)
            if a0.v is None:
                r = self.take_bytes(s, p_, IntVal(a0.size), node)
                if r is not False:
                    yield from go(s, bind)
                return
            for s1, i in self.locate(s, p_, a0.size, node):
                ch = s1.heap[i]
                if isinstance(ch, Bytes):
                    if ch.val is None:
                        self.fail(s1, 'uninitialised', node, 'expected an initialised object at %s' % p_)
                        continue
                    if self.read_bytes(s1, i, p_, a0.size, BASE['unsigned long'] if a0.size == 8 else INT, node) is None:
                        continue
                    i = self.cell_at(s1, p_, a0.size)
                    ch = s1.heap[i]
                if isinstance(ch, Arr):
                    raise Unsupported('array element as cell')
                if ch.val is None:
                    self.fail(s1, 'uninitialised', node, 'expected an initialised object at %s' % p_)
                    continue
                del s1.heap[i]
                b2 = self.unify(s1, a0.v, ch.val, bind, un, node, what)
                if b2 is not None:
                    yield from self.consume(s1, rest, b2, un, node, what)
        elif isinstance(a0, ABytes):
            c_ = self.take_bytes(s, I_(a0.p), I_(a0.n), node)
            if c_ is False:
                return
            if a0.val is not None:
                if c_ is None:
                    self.fail(s, what, node, 'bytes at %s are not (fully) initialised' % I_(a0.p))
                    return
                bind = self.unify(s, a0.val, c_, bind, un, node, what)
                if bind is None:
                    return
            yield from go(s, bind)
        elif isinstance(a0, AKeep):
            c_ = self.take_bytes(s, I_(a0.p), I_(a0.n), node)
            if c_ is False:
                return
            if c_ is None:
                c_ = fresh('raw', B)
                self.raws.add(c_.get_id())
                self.pv.keep.append(c_)
            bind = self.unify(s, a0.val, c_, bind, un, node, what)
            if bind is not None:
                yield from go(s, bind)
        elif isinstance(a0, AStr):
            k_ = self.take_str(s, I_(a0.p), node)
            if k_ is None:
                return
            bind = self.unify(s, a0.k, k_, bind, un, node, what)
            if bind is not None:
                yield from go(s, bind)
        elif isinstance(a0, ABlock):
            n_ = I_(a0.n) if a0.n is not None else None
            if n_ is not None and n_.get_id() in un and n_.get_id() not in bind:
                p_ = I_(a0.p)
                for ch in s.heap:
                    if isinstance(ch, Block) and self.teq(s, ch.addr, p_):
                        bind = dict(bind)
                        bind[n_.get_id()] = (n_, ch.n)
                        n_ = ch.n
                        break
            if self.take_block(s, I_(a0.p), n_, node):
                yield from go(s, bind)
        elif isinstance(a0, AArr):
            p_ = I_(a0.p)
            b2 = self.take_arr(s, p_, a0, bind, un, node, what)
            if b2 is not None:
                yield from go(s, b2)
        elif isinstance(a0, ARes):
            key = I_(a0.key)
            if key.get_id() in un and key.get_id() not in bind:
                got = [ch for ch in s.heap if isinstance(ch, Res) and ch.kind == a0.kind]
                if got:
                    bind = dict(bind)
                    bind[key.get_id()] = (key, got[-1].key)
                    key = got[-1].key
            for i, ch in enumerate(s.heap):
                if isinstance(ch, Res) and ch.kind == a0.kind and self.teq(s, ch.key, key):
                    del s.heap[i]
                    for kk_, pv in a0.data.items():
                        if not z3.is_expr(pv):
                            if ch.data.get(kk_) != pv:
                                self.fail(s, what, node, '%s: %s is %r, expected %r' % (a0.kind, kk_, ch.data.get(kk_), pv))
                                return
                            continue
                        bind = self.unify(s, pv, ch.data[kk_], bind, un, node, what + ' (%s.%s)' % (a0.kind, kk_))
                        if bind is None:
                            return
                    yield from go(s, bind)
                    return
            self.fail(s, what, node, 'resource %s(%s) missing' % (a0.kind, key))
        elif isinstance(a0, ANullOr):
            for s1, isn in self.branch(s, I_(a0.p) == 0):
                yield from self.consume(s1, rest if isn else list(a0.body) + rest, bind, un, node, what)
        elif isinstance(a0, AIf):
            for s1, y_ in self.branch(s, I_(a0.c)):
                yield from self.consume(s1, (list(a0.yes) if y_ else list(a0.no)) + rest, bind, un, node, what)
        elif isinstance(a0, AOr):
            no, nf, why = len(self.obls), len(self.failures), []
            for alt in a0.alts:
                try:
                    outs = list(self.consume(s.copy(), list(alt), dict(bind), un, node, what))
                except Unsupported as x_:
                    outs = []
                    why.append(str(x_)[:200])
                if outs and len(self.failures) == nf:
                    for s1, b1 in outs:
                        yield from self.consume(s1, rest, b1, un, node, what)
                    return
                why += [f['msg'][:200] for f in self.failures[nf:]]
                del self.obls[no:]
                del self.failures[nf:]
            self.fail(s, what, node, 'none of the alternatives holds: ' + ' / '.join(why))
        elif isinstance(a0, ACall):
            for s1, b1 in a0.cons(self, s, bind, un, node, what):
                yield from self.consume(s1, rest, b1, un, node, what)
        else:
            raise Unsupported('assert %r' % (a0,))

    def take_arr(self, s, p, a0, bind, un, node, what):
        n_ = self.inst(a0.n, bind)
        for rnd in (0, 1):
            for i, ch in enumerate(s.heap):
                if isinstance(ch, Arr) and (diff(p, ch.addr) == 0 or (rnd and diff(p, ch.addr) is None and self.prove(s, p == ch.addr))):
                    del s.heap[i]
                    if n_.get_id() in un and n_.get_id() not in bind:
                        bind = dict(bind)
                        bind[n_.get_id()] = (n_, ch.n)
                    else:
                        self.oblige(s, n_ == ch.n, what, node)
                    for pa, va in zip(a0.arrs, ch.arrs):
                        bind = self.unify(s, pa, va, bind, un, node, what)
                        if bind is None:
                            return None
                    return bind
        self.fail(s, what, node, 'no array owned at %s' % p)
        return None


def share_base(a, b):
    return bool(subterms_consts(simp(a)) & subterms_consts(simp(b)))


def simp_lst(s, t):
    t = s.hnf(t)
    d = t.decl().name()
    if d == 'Node':
        return t.arg(0)
    if d == 'Null':
        return Nil
    return None


def catl(xs):
    r = None
    for x_ in reversed(xs):
        r = x_ if r is None else cat(x_, r)
    return eps if r is None else r


dblb = z3.Function('dblbytes', z3.RealSort(), B)


def cell_bytes(ch):
    v_ = ch.val
    if isinstance(v_, Dbl):
        return dblb(v_.t)
    if v_ is None or isinstance(v_, FnRef):
        return None
    if ch.size in bswap:
        if v_.decl().name() == 'bswap%d' % (8 * ch.size):
            return be(ch.size, v_.arg(0))
        n_ = num(v_)
        if n_ is not None:
            return be(ch.size, IntVal(int.from_bytes((n_ % 2 ** (8 * ch.size)).to_bytes(ch.size, 'little'), 'big')))
    return le(ch.size, v_)


def prod(xs):
    r = xs[0]
    for x_ in xs[1:]:
        r = r * x_
    return r


def int_range(ty):
    if ty.signed:
        return -2 ** (ty.bits - 1), 2 ** (ty.bits - 1) - 1
    return 0, 2 ** ty.bits - 1


def wrapc(n_, ty):
    m_ = 2 ** ty.bits
    n_ %= m_
    if ty.signed and n_ >= m_ // 2:
        n_ -= m_
    return n_


def wrap(v, ty):
    m_ = 2 ** ty.bits
    if ty.signed:
        h = m_ // 2
        return (v + h) % m_ - h
    return v % m_
