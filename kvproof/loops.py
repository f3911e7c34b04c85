"""Loops: generic invariants.

The invariant of a loop is assembled from templates over the abstraction (tree values, cursor
positions in a list, frontiers in a buffer, ghost state of descriptors) and candidate facts
between them; a fact is kept when the prover shows that it holds on entry and is preserved by
the body (Houdini).  The final pass proves every obligation of the body from the invariant
alone, so the proof holds for any number of iterations."""
import z3
from .engine import *
from .heap import *
from .theory import *

import os
DEBUG = os.environ.get('KV_DEBUG')
NDBG = [0]


def dbg(what, x, s, f):
    """debugging aid: what was dropped; the query goes to /tmp/drop<n>.smt2, the state to /tmp/drop<n>.txt"""
    NDBG[0] += 1
    print('#%d' % NDBG[0], x.probe, what, flush=True)
    q = mk_solver()
    q.add(*x.pv.bg, *s.pc, *(getattr(x, 'last_extra', None) or [Not(f)]))
    if os.environ.get('KV_DBGT') and os.environ['KV_DBGT'] in what:
        import time
        from .engine import mk_solver as mk
        for rel in (2, 0):
            for nb in (0, 1):
                q2 = mk(20000, relevancy=rel)
                q2.add(*x.pv.bg, *s.pc, *((getattr(x, 'last_extra', None) or [Not(f)]) if nb == 0 else [Not(f)]))
                t_ = time.time()
                print('   try', rel, nb, q2.check(), round(time.time() - t_, 2), flush=True)
    open('/tmp/drop%d.smt2' % NDBG[0], 'w').write(q.to_smt2())
    open('/tmp/drop%d.txt' % NDBG[0], 'w').write('\n'.join(' '.join(str(p_).split()) for p_ in s.pc) + '\nGOAL ' + ' '.join(str(f).split()) + '\nEXTRA ' + '\nEXTRA '.join(' '.join(str(x_).split()) for x_ in getattr(x, 'last_extra', None) or []) + '\n' + '\n'.join(map(str, s.trace[-12:])))


PAT = True
STR = (z3.ArraySort(I, I),)


class Mismatch(Exception):
    pass


class NeedPin(Exception):
    """a cursor walks a tree inside another one: restart the loop with that tree exposed"""
    def __init__(self, head):
        self.head, self.state = head, None


class Slot:
    pass


def ign(a):
    return str(base_off(a)[0]).startswith(('litaddr_', 'errno_addr'))


def catpieces(xs):
    return catl(xs)


class Loops:
    # ---------------------------------------------------------------- one iteration
    def iteration(self, s, cond, inc, body, post):
        """yields ('exit'|'back'|'out', state, outcome)"""
        def test(s1):
            if cond is None:
                yield s1, True
            else:
                yield from self.evc(s1, cond)

        def after(s1):
            if inc is not None:
                for s2, _ in self.ev(s1, inc):
                    yield s2
            else:
                yield s1

        def run(s1):
            for s2, o in self.ex(s1, body):
                if o is None or o == ('continue',):
                    for s3 in after(s2):
                        if post:
                            for s4, b in test(s3):
                                yield ('back' if b else 'exit'), s4, None
                        else:
                            yield 'back', s3, None
                elif o == ('break',):
                    yield 'exit', s2, None
                else:
                    yield 'out', s2, o
        if post:
            yield from run(s)
        else:
            for s1, b in test(s):
                if b:
                    yield from run(s1)
                else:
                    yield 'exit', s1, None

    def const_false(self, n):
        from .execu import strip
        n = strip(n) if n is not None else None
        return n is not None and n.get('kind') == 'IntegerLiteral' and int(n['value']) == 0

    def loop(self, s, n, _, cond, inc, body, post):
        if post and self.const_false(cond):
            for s1, o in self.ex(s, body):
                yield s1, (None if o in (('break',), ('continue',)) else o)
            return
        if getattr(self.spec, 'unroll', 0):
            yield from self.unrolled(s, n, cond, inc, body, post, 0)
            return
        s.heap = [c_ for c_ in s.heap if not (isinstance(c_, Cell) and str(c_.addr) == 'errno_addr')]
        s = self.canonical(s, n)
        self.open_cursors(s)
        pins, depth = self.pins, len(self.callstack)
        try:
            for _ in range(4):
                try:
                    yield from self.loop1(s, n, cond, inc, body, post)
                    return
                except NeedPin as np:
                    if any(diff(np.head, p_) == 0 for p_ in self.pins):
                        raise Unsupported('loop at line %s: cannot follow a cursor into a nested tree' % self.line(n))
                    del self.callstack[depth:]
                    self.pins = self.pins + (np.head,)
                    s = self.canonical(np.state, n)
        finally:
            self.pins = pins

    def open_cursors(self, s):
        """a variable that points at the first of the remaining elements of an enclosing loop: show that element"""
        tails = [it[-1][1] for it in (s.flat(t_.arg(0)) for t_ in (s.hnf(ch.T) for ch in s.heap if isinstance(ch, Tr)) if t_.decl().name() == 'Node') if it and it[-1][0] == 's']
        for f in list(s.pc):
            if z3.is_eq(f) and z3.is_eq(f.arg(0)) and z3.is_eq(f.arg(1)) and any(f.arg(1).arg(0).eq(t_) for t_ in tails):
                v_ = f.arg(0).arg(0)
                if any(z3.is_expr(x_) and x_.eq(v_) for x_ in s.env.values()):
                    self.tail_head(s, f.arg(1).arg(0), v_)

    def loop1(self, s, n, cond, inc, body, post):
        s00 = s.copy()
        run = lambda st: list(self.iteration(st, cond, inc, body, post))
        self.probe += 1
        light, self.light = self.light, True     # only the shape of the state after one iteration is of interest
        try:
            first = run(s.copy())
        finally:
            self.probe -= 1
            self.light = light
        backs = [b for t, b, o in first if t == 'back']
        if not backs:
            self.callstack.append('loop@%s' % self.line(n))
            outs = run(s)
            self.callstack.pop()
            if not any(t == 'back' for t, b, o in outs):
                for t, s1, o in outs:
                    yield s1, (o if t == 'out' else None)
                return
            raise Unsupported('loop at line %s: inconsistent probe' % self.line(n))
        self.callstack.append('loop@%s' % self.line(n))
        try:
            yield from self.inv_loop(s, n, run, backs)
        except NeedPin as np:
            np.state = s00
            raise
        finally:
            if self.callstack and self.callstack[-1].startswith('loop@'):
                self.callstack.pop()

    # ---------------------------------------------------------------- invariant loop
    looplits = ()

    def loop_literals(self, n):
        out = set()
        st = [n]
        while st:
            x_ = st.pop()
            if x_.get('kind') == 'IntegerLiteral' and 1 < int(x_['value']) <= 2 ** 16:
                out.add(int(x_['value']))
            st.extend(c_ for c_ in x_.get('inner', []) if isinstance(c_, dict))
        return sorted(out)[:6]

    def inv_loop(self, s, n, run, backs):
        outer, self.looplits = self.looplits, self.loop_literals(n)
        try:
            yield from self.inv_loop1(s, n, run, backs)
        finally:
            self.looplits = outer

    def inv_loop1(self, s, n, run, backs):
        env0 = dict(s.env)
        for b in backs:      # memory that the first iteration uses as an array
            for c1 in b.heap:
                if isinstance(c1, Arr):
                    for i, ch in enumerate(s.heap):
                        if isinstance(ch, Bytes) and ch.val is None and diff(ch.addr, c1.addr) == 0 and (
                                diff(simp(ch.n), simp(c1.n * c1.stride)) == 0 or self.prove(s, ch.n == c1.n * c1.stride)):
                            s.heap[i] = c1._replace(arrs=tuple(fresh('arr', x_.sort()) for x_ in c1.arrs))
        self.epoch += not self.light and not any(c_.startswith('loop@') for c_ in self.callstack[:-1])
        slots = self.base_slots(s)
        self.detect(s, slots, s, backs)
        dropped = set()
        for rnd in range(30):
            head, view, view0 = self.make_head(s, slots)
            # candidates that failed in an earlier visit of this loop are not tried again (only in functions that ask for it)
            memo = self.loop_memo.setdefault((self.epoch, self.light, self.line(n), tuple(sorted(view0))), set()) if self.spec is not None and self.spec.only_cands else set()
            dropped |= memo
            cands = [c for c in self.candidates(s, slots, view0) if c[0] not in dropped]
            keep = []
            for c in cands:
                f0 = c[1](view0)
                if f0 is None:
                    continue
                if not self.prove(s, f0, quant=True):
                    if DEBUG and (DEBUG in c[0] or DEBUG == '*'):
                        dbg('DROP at entry %s line %s round %d' % (c[0], self.line(n), rnd), self, s, f0)
                    dropped.add(c[0])
                    continue
                keep.append(c)
            for c in keep:
                self.assume(head, c[1](view))
            self.probe += 1
            try:
                outs = run(head.copy())
            finally:
                self.probe -= 1
            backs = [b for t, b, o in outs if t == 'back' and self.feasible(b)]
            if self.detect(s, slots, head, backs):
                self.epoch += not any(c_.startswith('loop@') for c_ in self.callstack[:-1])
                continue
            bad = False
            for b in backs:
                b2 = b.copy()
                self.nofail += 1
                try:
                    bv = self.match(b2, head, slots, view, n, real=False)
                finally:
                    self.nofail -= 1
                if bv is None:
                    raise Unsupported('loop at line %s: no template describes the state after one iteration (%s)' % (self.line(n), self.mm))
                for c in keep:
                    if c[0] in dropped:
                        continue
                    if not self.prove(b2, c[1](bv), quant=True):
                        if DEBUG and (DEBUG in c[0] or DEBUG == '*'):
                            dbg('DROP %s line %s round %d' % (c[0], self.line(n), rnd), self, b2, c[1](bv))
                        dropped.add(c[0])
                        bad = True
            memo |= dropped
            if not bad:
                break
        else:
            raise Unsupported('loop at line %s: no invariant found' % self.line(n))
        # final pass
        if DEBUG and not self.probe:
            print('LOOP', self.line(n), round(self.pv.time), 'queries', self.pv.queries, 'slots', [(a.name, a.mode) for a in slots if a.mode != 'same'], '\n   kept', [c[0] for c in keep], '\n   dropped', sorted(dropped))
        if not self.probe:
            self.loops_proved.append(dict(fn=self.fn, line=self.line(n), facts=[c[0] for c in keep]))
        if self.probe:      # nothing is recorded: the states of the last round are the result
            for t, s1, o in outs:
                if t != 'back':
                    yield s1, (o if t == 'out' else None)
            return
        outs = run(head)
        meas = self.measures(s, slots, view)
        for t, s1, o in outs:
            if t == 'back':
                if not self.feasible(s1):
                    continue
                b2 = s1.copy()
                bv = self.match(b2, head, slots, view, n, real=True)
                if bv is None:
                    continue
                for c in keep:
                    self.oblige(b2, c[1](bv), 'loop-invariant', n, 'not preserved: %s' % c[0])
                meas = [m for m in meas if self.prove(b2, m[1](view, bv), quant=True)] if not self.probe else meas
            else:
                yield s1, (o if t == 'out' else None)
        if not self.probe and not getattr(self.spec, 'noterm', False):
            if meas:
                self.ok('termination', n)
            else:
                self.fail(head, 'termination', n, 'no measure decreases in every iteration')

    # ---------------------------------------------------------------- slots
    def base_slots(self, s):
        """every chunk of the (canonical) entry heap gets a slot; unmodified ones stay as they are"""
        slots = []
        for ch in s.heap:
            a = Slot()
            a.ch = ch
            a.mode = 'same'
            a.key = None
            if isinstance(ch, Tr):
                a.kind = 'tree'
            elif isinstance(ch, Lst):
                a.kind = 'list'
            elif isinstance(ch, Seg):
                a.kind = 'seg'
            elif isinstance(ch, Cell):
                a.kind = 'cell'
            elif isinstance(ch, Bytes):
                a.kind = 'bytes'
            elif isinstance(ch, Block):
                a.kind = 'block'
            elif isinstance(ch, Arr):
                a.kind = 'arr'
            elif isinstance(ch, Res):
                a.kind = 'res'
            a.name = '%s%d' % (a.kind, len(slots))
            a.fields = set()
            slots.append(a)
        for vid, v_ in s.env.items():
            if isinstance(v_, tuple) and v_ and v_[0] == 'mem':
                continue
            a = Slot()
            a.kind, a.mode, a.ch, a.vid = 'var', 'same', None, vid
            a.name = 'var:%s' % self.vname(vid)
            a.v0 = v_
            a.root = None
            a.fields = set()
            slots.append(a)
        return slots

    def vname(self, vid):
        d = self.vnames.get(vid)
        return d or vid

    def find_chunk(self, b, kinds, addr):
        for i, ch in enumerate(b.heap):
            if isinstance(ch, kinds):
                p_ = ch.h if isinstance(ch, Tr) else (ch.a if isinstance(ch, (Lst, Seg)) else (ch.key if isinstance(ch, Res) else ch.addr))
                if diff(p_, addr) == 0:
                    return i
        for i, ch in enumerate(b.heap):
            if isinstance(ch, kinds):
                p_ = ch.h if isinstance(ch, Tr) else (ch.a if isinstance(ch, (Lst, Seg)) else (ch.key if isinstance(ch, Res) else ch.addr))
                if diff(p_, addr) is None and self.prove(b, p_ == addr):
                    return i
        return None

    def same(self, b, x_, y_):
        if x_ is None or y_ is None:
            return x_ is y_
        if not z3.is_expr(x_) or not z3.is_expr(y_):
            return x_ == y_ or x_ is y_
        if x_.get_id() == y_.get_id():
            return True
        if x_.sort() != y_.sort():
            return False
        return self.prove(b, x_ == y_)

    def detect(self, s, slots, frm, backs):
        """compare the states after one iteration with the state `frm` at its start; mark what changes"""
        changed = False
        cur_env = frm.env
        for b0 in backs:
            b = b0.copy()
            self.nofail += 1
            try:
                b.heap = [c_ for c_ in b.heap if not (isinstance(c_, Cell) and str(c_.addr) == 'errno_addr')]
                b = self.canonical(b, None)
                for a in slots:
                    if a.kind == 'var':
                        v1 = b.env.get(a.vid)
                        v_ = cur_env.get(a.vid)
                        if a.mode == 'same' and not self.same(b, v_, v1):
                            a.mode = 'mod'
                            changed = True
                    elif a.mode == 'same' or a.kind == 'res':
                        if self.chunk_changed(s, b, a, slots):
                            changed = True
            finally:
                self.nofail -= 1
        if changed:
            self.moved(s, slots, backs)
            self.cursors(s, slots)
            self.permuting(s, slots)
        return changed

    def moved(self, s, slots, backs):
        """a variable that holds a tree at the start and another tree, which replaced it, after the iteration"""
        for a in slots:
            v0 = a.v0 if a.kind == 'var' else (a.ch.val if a.kind == 'cell' and a.ch.size == 8 else None)
            if a.mode != 'mod' or getattr(a, 'root', None) is not None or not z3.is_expr(v0) or v0.sort() != I or num(v0) is not None:
                continue
            for r in slots:
                if r.kind != 'tree' or r.mode not in ('same', 'mod') or diff(r.ch.h, v0) != 0 or not self.prove(s, r.ch.T != Null):
                    continue
                if all(self.find_chunk(self.folded(b), Tr, self.holder(b, a)) is not None and self.find_chunk(self.folded(b), (Tr, Block), r.ch.h) is None
                       for b in backs if self.holder(b, a) is not None):
                    a.root = r
                    r.mode, r.hvar = 'moved', a

    def holder(self, b, a):
        """the value of a variable or memory cell in state b"""
        if a.kind == 'var':
            v = b.env.get(a.vid)
        else:
            i = self.find_chunk(b, Cell, a.ch.addr)
            v = b.heap[i].val if i is not None else None
        return v if z3.is_expr(v) and v.sort() == I else None

    def folded(self, b):
        self.nofail += 1
        try:
            return self.canonical(b.copy(), None)
        finally:
            self.nofail -= 1

    def permuting(self, s, slots):
        """a list whose elements are moved to its front in the order of an array, from the last to the first: the
        elements from a position on, followed by the others in any order"""
        for a in slots:
            if a.kind not in ('tree', 'list') or a.mode != 'mod':
                continue
            L0 = a.ch.L if a.kind == 'list' else lst(a.ch.T)
            for r, arr, L_, _ in self.rep_facts(s):
                if r != 'repE' or not any(isinstance(c1, Arr) and any(x_.get_id() == arr.get_id() for x_ in c1.arrs) for c1 in s.heap) or not self.prove(s, perm(L_, L0)):
                    continue
                for v in slots:
                    if v.kind == 'var' and v.mode == 'mod' and v.root is None and z3.is_expr(v.v0) and v.v0.sort() == I and self.prove(s, v.v0 == len_(L_)):
                        a.mode, a.order, a.ivar = 'perm', L_, v
                        return

    def chunk_changed(self, s, b, a, slots):
        ch = a.ch
        if a.kind == 'tree':
            i = self.find_chunk(b, Tr, ch.h)
            if i is None:
                a.mode = 'mod'
                return True
            t1 = b.heap[i].T
            if not self.same(b, t1, ch.T):
                a.mode = 'mod'
                return True
        elif a.kind == 'list':
            i = self.find_chunk(b, Lst, ch.a)
            if i is None or not self.same(b, b.heap[i].L, ch.L):
                a.mode = 'mod'
                return True
        elif a.kind == 'cell':
            i = self.find_chunk(b, Cell, ch.addr)
            if i is None or not self.same(b, b.heap[i].val, ch.val):
                a.mode = 'mod'
                return True
        elif a.kind == 'arr':
            i = self.find_chunk(b, Arr, ch.addr)
            if i is None or any(not self.same(b, x_, y_) for x_, y_ in zip(ch.arrs, b.heap[i].arrs)):
                a.mode = 'mod'
                return True
        elif a.kind == 'res':
            i = self.find_chunk(b, Res, ch.key)
            if i is None:
                return False
            for k_, v_ in ch.data.items():
                if k_ not in a.fields and not self.same(b, b.heap[i].data.get(k_), v_):
                    a.fields.add(k_)
                    a.mode = 'mod'
                    return True
        elif a.kind == 'bytes':
            if num(ch.n) == 0:
                return False
            if ign(ch.addr):
                return False
            # was the content's encoded list opened?
            if ch.val is not None:
                for p_ in self.pieces(s, ch.val):
                    if p_.decl().name() == 'encL':
                        L_ = p_.arg(0)
                        it = b.flat(L_)
                        if not (len(it) == 1 and it[0][0] == 's' and it[0][1].get_id() == s.hnf(L_).get_id()) and b.hnf(L_).get_id() != s.hnf(L_).get_id():
                            a.mode = 'enc'
                            a.atom = p_
                            return True
            ps = self.region(b, ch.addr, ch.n)
            if ps is None:
                return False      # handled (as an error) by match
            if ch.val is None:
                if any(v_ is not None for _, v_ in ps):
                    # initialised prefix, raw tail?
                    seen_raw = False
                    okp = True
                    for _, v_ in ps:
                        if v_ is None:
                            seen_raw = True
                        elif seen_raw:
                            okp = False
                    a.mode = 'raw' if okp else 'any'
                    return True
            else:
                whole = None if any(v_ is None for _, v_ in ps) else catl([v_ for _, v_ in ps])
                if whole is None or not self.same(b, whole, ch.val):
                    a.mode = 'any'
                    return True
                if len(ps) > 1 and ch.val.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch.val.num_args() == 0:
                    a.mode = 'grow' if any(q_.decl().name() == 'enc' for _, v_ in ps for q_ in self.pieces(b, v_)) else 'split'
                    return True
        return False

    def region(self, b, addr, n):
        """pieces [(n, val)] of the memory region, consuming it; None if it is not all there"""
        ps = []
        r = self.take_bytes(b, addr, n, None, quiet=True, out=ps)
        if r is False:
            return None
        return ps

    def cursors(self, s, slots):
        """a modified pointer variable that starts at an element of a list becomes a cursor of that list"""
        used = {id(a.root) for a in slots if a.kind == 'var' and a.root is not None}
        for a in slots:
            if a.kind != 'var' or a.mode != 'mod' or a.root is not None or not z3.is_expr(a.v0):
                continue
            for r in slots:
                if r.kind not in ('tree', 'list') or id(r) in used:
                    continue
                t = s.hnf(r.ch.T) if r.kind == 'tree' else Node(r.ch.L)
                if t.decl().name() != 'Node':
                    continue
                items = s.flat(t.arg(0))
                for j, (kd, nd) in enumerate(items):
                    if kd == 'n' and diff(nd[0], a.v0) == 0:
                        a.root = r
                        a.pos = j
                        r.mode = 'cursor'
                        r.cvar = a
                        used.add(id(r))
                        break
                if a.root is not None:
                    break
            if a.root is None:
                self.nested(s, a, slots)

    def nested(self, s, a, slots):
        def walk(items):
            for kd, nd in items:
                if kd != 'n':
                    continue
                t = s.hnf(nd[4])
                if t.decl().name() == 'Node':
                    sub = s.flat(t.arg(0))
                    if any(kd2 == 'n' and diff(n2[0], a.v0) == 0 for kd2, n2 in sub):
                        raise NeedPin(nd[3])
                    walk(sub)
        for r in slots:
            if r.kind not in ('tree', 'list', 'seg') or r.mode not in ('same', 'mod'):
                continue
            if r.kind == 'tree':
                t = s.hnf(r.ch.T)
                if t.decl().name() == 'Node':
                    walk(s.flat(t.arg(0)))
            else:
                walk(s.flat(r.ch.L))

    # ---------------------------------------------------------------- head state
    def make_head(self, s, slots):
        h = s.copy()
        h.heap = []
        V, V0 = {}, {}
        nm = lambda a, x_: '%s.%s' % (a.name, x_)
        for a in sorted(slots, key=lambda a: a.mode == 'perm'):
            ch = a.ch
            if a.kind == 'var':
                if a.mode == 'same' or a.v0 is None:
                    if a.mode == 'same' and z3.is_expr(a.v0):
                        pass
                    continue
                if not z3.is_expr(a.v0):
                    raise Unsupported('loop changes a non-scalar variable %s' % a.name)
                if a.root is not None:
                    continue
                v_ = fresh('h_' + self.vname(a.vid))
                h.env[a.vid] = v_
                ty = self.vtypes.get(a.vid)
                if ty is not None:
                    self.rng(h, v_, ty)
                V[a.name], V0[a.name] = v_, a.v0
                continue
            if a.mode == 'same':
                h.heap.append(ch)
                continue
            if a.kind == 'tree' and a.mode == 'mod':
                T_ = fresh('T', Tree)
                self.assume(h, (T_ == Null) == (ch.h == 0), okT(T_), psz(T_) < 2 ** 62)
                h.heap.append(Tr(ch.h, T_))
                V[a.name], V0[a.name] = T_, ch.T
            elif a.mode == 'moved':
                T_ = fresh('T', Tree)
                v_ = fresh('h_tree')
                if a.hvar.kind == 'var':
                    h.env[a.hvar.vid] = v_
                else:
                    h.heap.append(Cell(a.hvar.ch.addr, 8, v_))
                self.assume(h, T_ != Null, v_ > 0, v_ < 2 ** 62, okT(T_), psz(T_) < 2 ** 62)
                h.heap.append(Tr(v_, T_))
                V[a.name], V0[a.name] = T_, ch.T
            elif a.mode == 'perm':
                R_ = fresh('R', List)
                i_ = V[a.ivar.name]
                L_ = app(dropn(a.order, i_), R_)
                self.assume(h, perm(R_, taken(a.order, i_)))
                if a.kind == 'tree':
                    h.heap.append(Tr(ch.h, Node(L_)))
                    self.assume(h, okT(Node(L_)), psz(Node(L_)) < 2 ** 62)
                else:
                    h.heap.append(Lst(ch.a, L_))
                V0[nm(a, 'R')], V[nm(a, 'R')] = (ch.L if a.kind == 'list' else lst(ch.T)), R_
            elif a.kind == 'list' and a.mode == 'mod':
                L_ = fresh('L', List)
                h.heap.append(Lst(ch.a, L_))
                V[a.name], V0[a.name] = Node(L_), Node(ch.L)
            elif a.mode == 'cursor':
                t0 = s.hnf(ch.T) if a.kind == 'tree' else Node(ch.L)
                items = s.flat(t0.arg(0))
                j = a.cvar.pos
                P0, R0 = build(items[:j]), build(items[j:])
                pre, done, rest = fresh('pre', List), fresh('done', List), fresh('rest', List)
                L_ = app(pre, rest)
                if a.kind == 'tree':
                    h.heap.append(Tr(ch.h, Node(L_)))
                    self.assume(h, okT(Node(L_)), psz(Node(L_)) < 2 ** 62)
                else:
                    h.heap.append(Lst(ch.a, L_))
                v_ = fresh('h_' + self.vname(a.cvar.vid))
                h.env[a.cvar.vid] = v_
                self.assume(h, v_ >= 0, v_ < 2 ** 62)
                self.assume(h, R0 == app(done, rest))
                self.assume(h, (v_ == 0) == (rest == Nil), Implies(isCons(rest), v_ == ce(rest)))
                self.assume(h, len_(rest) >= 0, len_(done) >= 0)
                V[nm(a, 'pre')], V0[nm(a, 'pre')] = pre, P0
                V[nm(a, 'done')], V0[nm(a, 'done')] = done, Nil
                V[nm(a, 'rest')], V0[nm(a, 'rest')] = rest, R0
                a.P0, a.R0 = P0, R0
            elif a.kind == 'cell':
                if getattr(a, 'root', None) is not None:
                    continue
                if ch.val is None or not z3.is_expr(ch.val):
                    h.heap.append(Bytes(ch.addr, IntVal(ch.size), None))
                    continue
                v_ = fresh('c_')
                self.assume(h, v_ >= -2 ** (8 * ch.size - 1), v_ < 2 ** (8 * ch.size))
                ty = self.memtypes.get(str(base_off(ch.addr)[0]))
                if ty is not None and ty.k in ('int', 'ptr'):
                    self.rng(h, v_, ty)
                h.heap.append(Cell(ch.addr, ch.size, v_))
                V[a.name], V0[a.name] = v_, ch.val
            elif a.kind == 'arr':
                ar = tuple(fresh('ar', x_.sort()) for x_ in ch.arrs)
                h.heap.append(ch._replace(arrs=ar))
                for q_, (x_, y_) in enumerate(zip(ar, ch.arrs)):
                    V[nm(a, 'f%d' % q_)], V0[nm(a, 'f%d' % q_)] = x_, y_
            elif a.kind == 'res':
                d = dict(ch.data)
                for f in a.fields:
                    x_ = d[f]
                    y_ = fresh('r_' + f, x_.sort())
                    d[f] = y_
                    V[nm(a, f)], V0[nm(a, f)] = y_, x_
                    if x_.sort() == B:
                        self.assume(h, blen(y_) >= 0)
                h.heap.append(Res(ch.kind, ch.key, d))
            elif a.mode == 'raw':
                m_, C_ = fresh('m'), fresh('C', B)
                self.assume(h, m_ >= 0, m_ <= ch.n, blen(C_) == m_)
                h.heap.append(Bytes(ch.addr, m_, C_))
                h.heap.append(Bytes(simp(ch.addr + m_), simp(ch.n - m_), None))
                V[nm(a, 'm')], V0[nm(a, 'm')] = m_, IntVal(0)
                V[nm(a, 'C')], V0[nm(a, 'C')] = C_, eps
            elif a.mode == 'split':
                x_, X_, Y_ = fresh('x'), fresh('X', B), fresh('Y', B)
                self.assume(h, x_ >= 0, x_ <= ch.n, blen(X_) == x_, blen(Y_) == ch.n - x_, ch.val == cat(X_, Y_))
                h.heap.append(Bytes(ch.addr, x_, X_))
                h.heap.append(Bytes(simp(ch.addr + x_), simp(ch.n - x_), Y_))
                V[nm(a, 'x')], V0[nm(a, 'x')] = x_, IntVal(0)
                V[nm(a, 'X')], V0[nm(a, 'X')] = X_, eps
                V[nm(a, 'Y')], V0[nm(a, 'Y')] = Y_, ch.val
            elif a.mode == 'grow':
                D_, Y_ = fresh('D', List), fresh('Y', B)
                self.assume(h, ch.val == cat(encL(D_), Y_), okL(D_), len_(D_) >= 0, pszL(D_) >= 0, pszL(D_) <= ch.n, blen(Y_) == ch.n - pszL(D_))
                h.heap.append(Bytes(ch.addr, pszL(D_), encL(D_)))
                h.heap.append(Bytes(simp(ch.addr + pszL(D_)), simp(ch.n - pszL(D_)), Y_))
                V[nm(a, 'done')], V0[nm(a, 'done')] = D_, Nil
                V[nm(a, 'Y')], V0[nm(a, 'Y')] = Y_, ch.val
            elif a.mode == 'enc':
                done, rest = fresh('done', List), fresh('rest', List)
                L0 = a.atom.arg(0)
                self.assume(h, L0 == app(done, rest), len_(rest) >= 0, len_(done) >= 0, pszL(done) >= 0)
                ps = []
                for p_ in self.pieces(s, ch.val):
                    if p_.get_id() == a.atom.get_id():
                        ps += [encL(done), encL(rest)]
                    else:
                        ps.append(p_)
                h.heap.append(Bytes(ch.addr, ch.n, catl(ps)))
                V[nm(a, 'done')], V0[nm(a, 'done')] = done, Nil
                V[nm(a, 'rest')], V0[nm(a, 'rest')] = rest, L0
                a.R0 = L0
                a.val1 = catl(ps)
            elif a.mode == 'any':
                c_ = fresh('any', B)
                self.assume(h, blen(c_) == ch.n)
                h.heap.append(Bytes(ch.addr, ch.n, None if a.fields else c_))
            else:
                raise Unsupported('loop changes %s' % a.kind)
        return h, V, V0

    # ---------------------------------------------------------------- matching a back edge
    mm = ''

    def match(self, b, head, slots, view, n, real):
        """consume the heap of back-edge state b against the slots; returns the view or None"""
        def no(msg, what='loop-invariant'):
            self.mm = msg
            if real:
                self.fail(b, what, n, msg)
            return None
        nm = lambda a, x_: '%s.%s' % (a.name, x_)
        b.heap = [c_ for c_ in b.heap if not (isinstance(c_, Cell) and str(c_.addr) == 'errno_addr')]
        b2 = self.canonical(b, n)
        b.pc, b.heap, b.defs, b.env = b2.pc, b2.heap, b2.defs, b2.env
        W = {}
        held = {id(a): self.holder(b, a.hvar) for a in slots if a.mode == 'moved'}
        for a in slots:
            ch = a.ch
            if a.kind == 'var':
                v_ = b.env.get(a.vid)
                if a.mode == 'same':
                    if not self.same(b, v_, a.v0):
                        return no('variable %s changed' % a.name)
                elif a.root is None and a.v0 is not None:
                    if not z3.is_expr(v_):
                        return no('variable %s lost its value' % a.name)
                    W[a.name] = v_
                continue
            if a.kind == 'tree':
                h_ = held[id(a)] if a.mode == 'moved' else ch.h
                if h_ is None:
                    return no('the variable holding a tree lost its value')
                i = self.find_chunk(b, Tr, h_)
                if i is None and a.mode == 'moved':
                    return no('the variable %s does not hold a whole tree at the end of the iteration' % a.hvar.name)
                if i is None:
                    got = list(self.take_tree(b.copy(), ch.h, n, quiet=not real))
                    if len(got) != 1:
                        return no('the tree at %s is not whole at the end of the iteration' % ch.h)
                    st, t1 = got[0]
                    b.pc, b.heap, b.defs = st.pc, st.heap, st.defs
                else:
                    t1 = b.heap[i].T
                    del b.heap[i]
                if a.mode == 'same':
                    if not self.same(b, t1, ch.T):
                        return no('the tree at %s changed' % ch.h)
                elif a.mode == 'moved':
                    if not self.prove(b, t1 != Null):
                        return no('the variable %s may hold no tree' % a.hvar.name)
                    W[a.name] = t1
                elif a.mode == 'mod':
                    W[a.name] = t1
                elif a.mode == 'perm':
                    r = self.perm_view(b, a, lst(t1) if b.hnf(t1).decl().name() != 'Node' else b.hnf(t1).arg(0), view, W)
                    if r:
                        return no(r)
                else:
                    r = self.cursor_view(b, a, t1, view, W)
                    if r:
                        return no(r)
                continue
            if a.kind == 'list':
                i = self.find_chunk(b, Lst, ch.a)
                if i is None:
                    got = list(self.take_list(b.copy(), ch.a, n, quiet=not real))
                    if len(got) != 1:
                        return no('the list at %s is not whole' % ch.a)
                    st, L1 = got[0]
                    b.pc, b.heap, b.defs = st.pc, st.heap, st.defs
                else:
                    L1 = b.heap[i].L
                    del b.heap[i]
                if a.mode == 'same':
                    if not self.same(b, L1, ch.L):
                        return no('the list at %s changed' % ch.a)
                elif a.mode == 'mod':
                    W[a.name] = Node(L1)
                elif a.mode == 'perm':
                    r = self.perm_view(b, a, L1, view, W)
                    if r:
                        return no(r)
                else:
                    r = self.cursor_view(b, a, Node(L1), view, W)
                    if r:
                        return no(r)
                continue
            if a.kind == 'seg':
                i = self.find_chunk(b, Seg, ch.a)
                if i is None or not self.same(b, b.heap[i].L, ch.L):
                    return no('list segment changed')
                del b.heap[i]
                continue
            if a.kind == 'block':
                if not self.take_block(b, ch.addr, None, n, quiet=True):
                    return no('heap block %s released in the loop' % ch.addr)
                continue
            if a.kind == 'cell':
                i = self.find_chunk(b, Cell, ch.addr)
                if i is None:
                    i2 = self.find_bytes(b, ch.addr, IntVal(ch.size))
                    if i2 is not None and b.heap[i2].val is not None:
                        for s1, _v in list(self.read(b, ch.addr, BASE['unsigned long'] if ch.size == 8 else INT, n)):
                            pass
                        i = self.find_chunk(b, Cell, ch.addr)
                if i is None:
                    return no('memory at %s not owned at the end of the iteration' % ch.addr)
                v_ = b.heap[i].val
                if b.heap[i].size != ch.size:
                    return no('memory at %s changed its size' % ch.addr)
                del b.heap[i]
                if a.mode == 'same':
                    if not self.same(b, v_, ch.val):
                        return no('memory at %s changed' % ch.addr)
                elif z3.is_expr(ch.val) and getattr(a, 'root', None) is None:
                    if not z3.is_expr(v_):
                        return no('memory at %s lost its value' % ch.addr)
                    W[a.name] = v_
                continue
            if a.kind == 'arr':
                i = self.find_chunk(b, Arr, ch.addr)
                if i is None:
                    return no('array at %s is gone' % ch.addr)
                c1 = b.heap[i]
                del b.heap[i]
                for q_, (x_, y_) in enumerate(zip(c1.arrs, ch.arrs)):
                    if a.mode == 'same':
                        if not self.same(b, x_, y_):
                            return no('array changed')
                    else:
                        W[nm(a, 'f%d' % q_)] = x_
                continue
            if a.kind == 'res':
                i = self.find_chunk(b, Res, ch.key)
                if i is None:
                    return no('%s %s is released in the loop' % (ch.kind, ch.key), 'descriptor')
                c1 = b.heap[i]
                del b.heap[i]
                for f, x_ in ch.data.items():
                    if f in a.fields:
                        W[nm(a, f)] = c1.data[f]
                    elif not self.same(b, x_, c1.data.get(f)):
                        return no('%s of %s changed' % (f, ch.kind))
                continue
            # bytes
            if num(ch.n) == 0:
                continue
            if ign(ch.addr):
                b.heap = [c_ for c_ in b.heap if not (isinstance(c_, Bytes) and diff(c_.addr, ch.addr) == 0)]
                continue
            ps = self.region(b, ch.addr, ch.n)
            if ps is None:
                return no('memory region [%s,+%s) is not whole at the end of the iteration' % (ch.addr, ch.n))
            known = all(v_ is not None for _, v_ in ps)
            whole = catl([v_ for _, v_ in ps]) if known else None
            if a.mode == 'same':
                if ch.val is not None and (not known or not self.same(b, whole, ch.val)):
                    return no('memory region at %s changed' % ch.addr)
            elif a.mode == 'any':
                if not known and not a.fields:
                    a.fields.add('raw')
                    return no('region partly uninitialised')
            elif a.mode == 'raw':
                pre, m_ = [], IntVal(0)
                raw = False
                for k_, v_ in ps:
                    if v_ is None:
                        raw = True
                    elif raw:
                        return no('initialised bytes after uninitialised ones')
                    else:
                        pre.append(v_)
                        m_ = m_ + k_
                W[nm(a, 'm')] = simp(m_)
                W[nm(a, 'C')] = catl(pre)
            elif a.mode == 'split':
                if not known or not self.prove(b, whole == ch.val):
                    return no('memory region at %s changed' % ch.addr)
                if len(ps) == 1:
                    W[nm(a, 'x')], W[nm(a, 'X')], W[nm(a, 'Y')] = simp(ps[0][0]), ps[0][1], eps
                else:
                    W[nm(a, 'x')] = simp(z3.Sum([k_ for k_, _ in ps[:-1]]))
                    W[nm(a, 'X')] = catl([v_ for _, v_ in ps[:-1]])
                    W[nm(a, 'Y')] = ps[-1][1]
            elif a.mode == 'grow':
                if not known or not self.prove(b, whole == ch.val):
                    return no('memory region at %s changed' % ch.addr)
                q_ = self.pieces(b, whole)
                items, Y_ = [], None
                D0 = view[nm(a, 'done')]
                j_ = 0
                if q_ and q_[0].decl().name() == 'encL' and b.hnf(q_[0].arg(0)).get_id() == b.hnf(D0).get_id():
                    j_ = 1
                elif not self.prove(b, D0 == Nil):
                    return no('the checked elements at %s are lost' % ch.addr)
                while j_ + 1 < len(q_) and q_[j_].decl().name() == 'str0' and q_[j_ + 1].decl().name() == 'enc':
                    items.append(('n', (IntVal(1), IntVal(1), q_[j_].arg(0), IntVal(1), q_[j_ + 1].arg(0))))
                    j_ += 2
                D1 = build(b.flat(D0) + items)
                Y_ = catl(q_[j_:])
                if not self.prove(b, And(okL(D1), ch.val == cat(encL(D1), Y_), pszL(D1) <= ch.n)):
                    return no('the region at %s is no longer elements followed by unread bytes' % ch.addr)
                W[nm(a, 'done')], W[nm(a, 'Y')] = D1, Y_
            elif a.mode == 'enc':
                if not known or not self.prove(b, whole == a.val1_of(view) if False else whole == self.enc_val(a, view)):
                    return no('the encoded bytes changed')
                rest = view[nm(a, 'rest')]
                it = b.flat(rest)
                k_ = 0
                while k_ < len(it) and it[k_][0] == 'n':
                    k_ += 1
                W[nm(a, 'done')] = build(b.flat(view[nm(a, 'done')]) + it[:k_])
                W[nm(a, 'rest')] = build(it[k_:])
        # nothing else may be left
        for ch in b.heap:
            if isinstance(ch, Res):
                if ch.kind in ('closed', 'ioerr'):
                    continue
                return no('resource %s acquired and kept in the loop' % ch.kind, 'leak')
            a_ = ch.a if isinstance(ch, (Lst, Seg)) else (ch.h if isinstance(ch, Tr) else ch.addr)
            if ign(a_) or str(base_off(a_)[0]).startswith(('static_', 'glob_')):
                continue
            if isinstance(ch, Bytes) and (num(ch.n) == 0 or self.prove(b, ch.n == 0)):
                continue
            if isinstance(ch, Tr) and self.prove(b, ch.h == 0):
                continue
            if isinstance(ch, Seg) and self.prove(b, ch.L == Nil):
                continue
            return no('memory lost in the loop: %s' % str(ch)[:150], 'leak')
        return W

    def enc_val(self, a, view):
        nm = lambda x_: '%s.%s' % (a.name, x_)
        ps = []
        for p_ in self.pieces(St(), a.ch.val):
            if p_.get_id() == a.atom.get_id():
                ps += [encL(view[nm('done')]), encL(view[nm('rest')])]
            else:
                ps.append(p_)
        return catl(ps)

    def perm_view(self, b, a, L1, view, W):
        i_ = b.env.get(a.ivar.vid)
        if not z3.is_expr(i_):
            return 'the position is lost'
        items = b.flat(L1)
        for j in range(len(items), -1, -1):
            R_ = build(items[j:])
            t1 = taken(a.order, i_)
            R0, w_ = view['%s.R' % a.name], permw(R_, t1)
            t0 = taken(a.order, view[a.ivar.name])
            hint = Implies(perm(R0, t0), cnt(R0, w_) == cnt(t0, w_))      # an instance of the definition of perm
            if self.prove(b, build(items[:j]) == dropn(a.order, i_)) and self.prove(b, Implies(hint, perm(R_, t1))):
                W['%s.R' % a.name] = R_
                return None
        return 'the list is not the elements of the array from the position on, followed by the others'

    def cursor_view(self, b, a, t1, view, W):
        nm = lambda x_: '%s.%s' % (a.name, x_)
        t1 = b.hnf(t1)
        if t1.decl().name() != 'Node':
            return 'the list under the cursor is gone'
        items = b.flat(t1.arg(0))
        v_ = b.env.get(a.cvar.vid)
        if not z3.is_expr(v_):
            return 'the cursor lost its value'
        j = None
        if num(v_) == 0:
            j = len(items)
        else:
            for q_, (kd, nd) in enumerate(items):
                if kd == 'n' and diff(nd[0], v_) == 0:
                    j = q_
                    break
            if j is None:
                for q_, (kd, nd) in enumerate(items):
                    if kd == 'n' and diff(nd[0], v_) is None and self.prove(b, v_ == nd[0]):
                        j = q_
                        break
            if j is None and self.prove(b, v_ == 0):
                j = len(items)
            if j is None:
                # v is the head of an opaque tail?
                if items and items[-1][0] == 's' and self.prove(b, Implies(v_ != 0, And(isCons(items[-1][1]), ce(items[-1][1]) == v_))) and \
                        self.prove(b, (v_ == 0) == (items[-1][1] == Nil)):
                    j = len(items) - 1
        if j is None:
            return 'the cursor does not point into the list'
        rest_items = items[j:]
        ri = b.flat(view[nm('rest')])
        k_ = len(ri) - len(rest_items)

        def idn(it):
            return [(kd, (x_[0].get_id() if kd == 'n' else x_.get_id())) for kd, x_ in it]
        if num(v_) == 0 and j == len(items):
            k_ = len(ri)
            if rest_items:
                return 'cursor'
            cons_ = ri
            # the whole rest must have been consumed: its tail must be Nil
        elif k_ < 0 or idn(ri[k_:]) != idn(rest_items):
            # an inner loop moved the cursor: it knows how it split what remained
            R0, R1, cons_ = build(ri), build(rest_items), None
            for f in b.pc:
                if z3.is_eq(f) and f.arg(0).sort() == List and f.arg(0).eq(R0) and f.arg(1).decl().name() == 'app' and f.arg(1).arg(1).eq(R1):
                    cons_ = b.flat(f.arg(1).arg(0))
            if cons_ is None:
                return 'the cursor moved outside the remaining elements'
        else:
            cons_ = ri[:k_]
        W[nm('pre')] = build(items[:j])
        W[nm('done')] = build(b.flat(view[nm('done')]) + cons_)
        W[nm('rest')] = build(rest_items)
        # the cursor facts themselves
        return None

    # ---------------------------------------------------------------- candidate facts
    def quantities(self, s, slots, V0):
        """numeric quantities: name -> fn(view)"""
        Q = {}
        for k_, v_ in V0.items():
            if not z3.is_expr(v_):
                continue
            if v_.sort() == I:
                Q[k_] = lambda W, k_=k_: W[k_]
            elif k_.endswith('.done'):
                Q['len(%s)' % k_] = lambda W, k_=k_: len_(W[k_])
                Q['psz(%s)' % k_] = lambda W, k_=k_: pszL(W[k_])
            elif v_.sort() == Tree:
                Q['len(%s)' % k_] = lambda W, k_=k_: len_(lst(W[k_]))
        return Q

    def bounds(self, s, slots):
        """unmodified integer terms"""
        out = {}
        for a in slots:
            if a.kind == 'var' and a.mode == 'same' and z3.is_expr(a.v0) and a.v0.sort() == I:
                out[a.name] = a.v0
            elif a.kind == 'cell' and a.mode == 'same' and z3.is_expr(a.ch.val):
                out[a.name] = a.ch.val
        return out

    def candidates(self, s, slots, V0):
        C = []
        Q = self.quantities(s, slots, V0)
        names = [] if self.spec is not None and self.spec.only_cands else list(Q)
        q0 = {k_: Q[k_](V0) for k_ in names}
        add = lambda nm_, f: C.append((nm_, f))
        for i, x_ in enumerate(names):
            fx = Q[x_]
            add('%s unchanged' % x_, lambda W, fx=fx, c_=q0[x_]: fx(W) == c_)
            add('%s does not fall below its start' % x_, lambda W, fx=fx, c_=q0[x_]: fx(W) >= c_)
            add('%s does not exceed its start' % x_, lambda W, fx=fx, c_=q0[x_]: fx(W) <= c_)
            add('%s >= 0' % x_, lambda W, fx=fx: fx(W) >= 0)
            add('%s >= 1' % x_, lambda W, fx=fx: fx(W) >= 1)
            for c_ in self.looplits:
                add('%s <= %d' % (x_, c_), lambda W, fx=fx, c_=c_: fx(W) <= c_)
                add('%s < %d' % (x_, c_), lambda W, fx=fx, c_=c_: fx(W) < c_)
            for y_ in names[i + 1:]:
                fy = Q[y_]
                add('%s and %s advance together' % (x_, y_), lambda W, fx=fx, fy=fy, a_=q0[x_], b_=q0[y_]: fx(W) - a_ == fy(W) - b_)
                add('%s and %s move oppositely' % (x_, y_), lambda W, fx=fx, fy=fy, a_=q0[x_], b_=q0[y_]: fx(W) - a_ == b_ - fy(W))
        for bn, bt in self.bounds(s, slots).items():
            for x_ in names:
                if x_.startswith('psz(') or x_.startswith('len('):
                    continue
                fx = Q[x_]
                add('%s <= %s' % (x_, bn), lambda W, fx=fx, bt=bt: fx(W) <= bt)
                add('%s >= %s' % (x_, bn), lambda W, fx=fx, bt=bt: fx(W) >= bt)
        dones = [k_ for k_ in V0 if k_.endswith('.done')]
        kk, qq = z3.Const('k', S), z3.Const('q', Path)
        for d in dones:
            R = d[:-5] + '.rest'
            if R not in V0:
                continue
            R0 = V0[R]
            add('%s splits its list' % d, lambda W, d=d, R=R, R0=R0: R0 == app(W[d], W[R]))
            p_ = d[:-5] + '.pre'
            if p_ in V0:
                add('%s: elements behind the cursor unchanged' % p_, lambda W, p_=p_, d=d, P0=V0[p_]: W[p_] == app(P0, W[d]))
                if self.spec is None or not self.spec.only_cands:
                    add('%s: elements behind the cursor removed' % p_, lambda W, p_=p_, P0=V0[p_]: W[p_] == P0)
            for g in self.scope_strs:
                add('%s does not contain key %s' % (d, g), lambda W, d=d, g=g: Not(has(W[d], g)))
        trees = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == Tree]
        for t_ in ([] if self.spec is not None and self.spec.only_cands else trees):
            T0 = V0[t_]
            add('%s unchanged' % t_, lambda W, t_=t_, T0=T0: W[t_] == T0)
            add('%s: same paths' % t_, lambda W, t_=t_, T0=T0: z3.ForAll([kk, qq], PL(lst(W[t_]), kk, qq) == PL(lst(T0), kk, qq), patterns=[PL(lst(W[t_]), kk, qq)]))
            add('%s: unique keys kept' % t_, lambda W, t_=t_, T0=T0: Implies(wfT(T0), wfT(W[t_])))
            for d in dones:
                if d[:-5] + '.rest' not in V0:
                    continue
                L0 = V0[d[:-5] + '.rest']
                add('%s: paths of start and %s' % (t_, d), lambda W, t_=t_, T0=T0, d=d: z3.ForAll(
                    [kk, qq], PL(lst(W[t_]), kk, qq) == Or(PL(lst(T0), kk, qq), PL(W[d], kk, qq)), patterns=[PL(lst(W[t_]), kk, qq)]))
                add('%s: keys of start and %s' % (t_, d), lambda W, t_=t_, T0=T0, d=d: z3.ForAll(
                    [kk], has(lst(W[t_]), kk) == Or(has(lst(T0), kk), has(W[d], kk)), patterns=[has(lst(W[t_]), kk)]))
                add('%s: unique keys if %s is disjoint' % (t_, d), lambda W, t_=t_, T0=T0, L0=L0: Implies(And(wfT(T0), wfL(L0), disj(lst(T0), L0)), wfT(W[t_])))
        for k_, v_ in V0.items():
            if z3.is_expr(v_) and v_.sort() == AI:
                for d in dones:
                    for r in (repE, repK, repI):
                        add('%s of %s describe %s' % (r.name(), k_, d), lambda W, r=r, k_=k_, d=d: r(W[k_], W[d], IntVal(0)))
        Bs = [k_ for k_, v_ in V0.items() if z3.is_expr(v_) and v_.sort() == B]
        for k_ in Bs:
            v0 = V0[k_]
            for d in dones:
                add('%s extended by the encoding of %s' % (k_, d), lambda W, k_=k_, d=d, v0=v0: W[k_] == (encL(W[d]) if v0.get_id() == eps.get_id() else cat(v0, encL(W[d]))))
            for j_ in Bs:
                if j_ != k_:
                    add('%s extended by %s' % (k_, j_), lambda W, k_=k_, j_=j_, v0=v0: W[k_] == cat(v0, W[j_]) if k_.endswith('.wr') else None)
                    add('%s consumed into %s' % (k_, j_), lambda W, k_=k_, j_=j_, v0=v0: v0 == cat(W[j_], W[k_]) if k_.endswith('.rd') else None)
            if self.spec is None or not self.spec.only_cands:
                add('%s unchanged' % k_, lambda W, k_=k_, v0=v0: W[k_] == v0)
        C = [c for c in C if c[1](V0) is not None]
        if self.spec is not None and self.spec.loop_cands is not None and not (self.light and self.spec.only_cands):
            C += self.spec.loop_cands(self, s, slots, V0, Q)
        return C

    def measures(self, s, slots, V):
        M = []
        for k_, v_ in V.items():
            if not z3.is_expr(v_):
                continue
            if k_.endswith('.rest'):
                M.append((k_, lambda A, W, k_=k_: And(len_(W[k_]) < len_(A[k_]), len_(A[k_]) >= 0)))
            elif v_.sort() == I:
                M.append((k_, lambda A, W, k_=k_: And(W[k_] < A[k_], A[k_] >= 0)))
                for bn, bt in self.bounds(s, slots).items():
                    M.append((k_, lambda A, W, k_=k_, bt=bt: And(W[k_] > A[k_], A[k_] <= bt)))
                M.append((k_, lambda A, W, k_=k_: And(W[k_] > A[k_], A[k_] <= 2 ** 33)))
            elif v_.sort() == Tree:
                M.append((k_, lambda A, W, k_=k_: len_(lst(W[k_])) < len_(lst(A[k_]))))
        return M
