"""Symbolic execution of statements and expressions (clang AST nodes)."""
import z3
from .engine import *
from .cast import T as CT, INT, VOIDP, BASE
from . import cast

CMP = {'==', '!=', '<', '<=', '>', '>='}


def unparen(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr', 'FullExpr') or (n.get('kind') == 'UnaryOperator' and n.get('opcode') == '__extension__'):
        n = n['inner'][0]
    return n


def strip(n):
    """strip parens and casts"""
    while True:
        n = unparen(n)
        if n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n = n['inner'][0]
            continue
        return n


def walk(n):
    if not isinstance(n, dict):
        return
    yield n
    for c in n.get('inner', []):
        yield from walk(c)


class Verifier(Engine):
    # ------------------------------------------------------------ types & variables
    def ty(self, n):
        return self.u.type(n['type'])

    def addr_taken(self, fd):
        k = fd['id']
        if k not in self._atk:
            r = set()
            for n in walk(fd):
                if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                    m = unparen(n['inner'][0])
                    if m.get('kind') == 'DeclRefExpr':
                        r.add(m['referencedDecl']['id'])
            self._atk[k] = r
        return self._atk[k]

    def is_mem(self, vid, ty):
        return ty.k in ('arr', 'rec') or vid in self.atk

    def alloc_local(self, s, vid, ty, name):
        """memory for a local; env maps to ('mem', addr, type)"""
        a_ = fresh('stk_' + name)
        n_ = self.u.sizeof(ty)
        self.assume(s, a_ > 0, a_ + n_ < 2 ** 62)
        s.env[vid] = ('mem', a_, ty)
        self.memtypes[str(a_)] = ty
        if n_:
            s.heap.append(Bytes(a_, IntVal(n_), None))
        return a_

    def free_local(self, s, vid, node):
        v_ = s.env.pop(vid, None)
        if isinstance(v_, tuple) and v_[0] == 'mem':
            n_ = self.u.sizeof(v_[2])
            if n_ == 0:
                return True
            r = self.take_bytes(s, v_[1], IntVal(n_), node)
            return r is not False
        return True

    # ------------------------------------------------------------ expressions
    def ev_list(self, s, ns):
        if not ns:
            yield s, []
            return
        for s1, v_ in self.ev(s, ns[0]):
            for s2, vs in self.ev_list(s1, ns[1:]):
                yield s2, [v_] + vs

    def evc(self, s, n):
        """condition: yields (state, python bool)"""
        n = unparen(n)
        k_ = n.get('kind')
        if k_ == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean'):
            yield from self.evc(s, n['inner'][0])
            return
        if k_ == 'BinaryOperator':
            op = n['opcode']
            if op == '&&':
                for s1, b_ in self.evc(s, n['inner'][0]):
                    if b_:
                        yield from self.evc(s1, n['inner'][1])
                    else:
                        yield s1, False
                return
            if op == '||':
                for s1, b_ in self.evc(s, n['inner'][0]):
                    if b_:
                        yield s1, True
                    else:
                        yield from self.evc(s1, n['inner'][1])
                return
            if op in CMP:
                for s1, f in self.ev_cmp(s, n):
                    yield from self.branch(s1, f)
                return
        if k_ == 'UnaryOperator' and n['opcode'] == '!':
            for s1, b_ in self.evc(s, n['inner'][0]):
                yield s1, not b_
            return
        if k_ == 'CallExpr' and self.is_expect(n):
            yield from self.evc(s, n['inner'][1])
            return
        for s1, v_ in self.ev(s, n):
            if isinstance(v_, FnRef):
                yield s1, True
            elif isinstance(v_, Dbl):
                raise Unsupported('floating condition')
            else:
                yield from self.branch(s1, tobool(v_))

    def is_expect(self, n):
        f = strip(n['inner'][0])
        return f.get('kind') == 'DeclRefExpr' and f['referencedDecl'].get('name') == '__builtin_expect'

    def ev_cmp(self, s, n):
        l_, r_ = n['inner']
        for s1, a_ in self.ev(s, l_):
            for s2, b_ in self.ev(s1, r_):
                if isinstance(a_, (FnRef, Dbl)) or isinstance(b_, (FnRef, Dbl)):
                    if isinstance(a_, Dbl) or isinstance(b_, Dbl):
                        raise Unsupported('floating comparison')
                    if isinstance(a_, FnRef) and isinstance(b_, FnRef):
                        f = z3.BoolVal(a_.name == b_.name)
                    else:
                        f = z3.BoolVal(False)
                    yield s2, (f if n['opcode'] == '==' else Not(f))
                    continue
                op = n['opcode']
                f = {'==': lambda: a_ == b_, '!=': lambda: a_ != b_, '<': lambda: a_ < b_, '<=': lambda: a_ <= b_,
                     '>': lambda: a_ > b_, '>=': lambda: a_ >= b_}[op]()
                yield s2, f

    def ev(self, s, n):
        self.tick()
        k_ = n.get('kind')
        m = getattr(self, 'ev_' + k_, None) if k_ else None
        if m is None:
            raise Unsupported('expression %s at line %s' % (k_, n.get('_line')))
        yield from m(s, n)

    def ev_ParenExpr(self, s, n):
        yield from self.ev(s, n['inner'][0])
    ev_ConstantExpr = ev_ParenExpr

    def ev_IntegerLiteral(self, s, n):
        yield s, IntVal(int(n['value']))

    def ev_CharacterLiteral(self, s, n):
        yield s, IntVal(int(n['value']))

    def ev_FloatingLiteral(self, s, n):
        yield s, Dbl(z3.Real('dbl_' + str(n['value'])))

    def ev_StringLiteral(self, s, n):
        text = cstr(n['value'])
        yield s, self.use_lit(s, text)[1]

    def ev_PredefinedExpr(self, s, n):
        yield s, self.use_lit(s, 'function-name')[1]

    def ev_StmtExpr(self, s, n):
        body = n['inner'][0]
        # value of the last expression statement
        stmts = body.get('inner', [])
        def rec(s_, i):
            if i == len(stmts) - 1:
                yield from self.ev(s_, stmts[i])
                return
            for s1, o in self.ex(s_, stmts[i]):
                if o is not None:
                    raise Unsupported('control flow out of a statement expression')
                yield from rec(s1, i + 1)
        yield from rec(s, 0)

    def ev_DeclRefExpr(self, s, n):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            yield s, FnRef(d['name'])
            return
        if d['kind'] == 'EnumConstantDecl':
            yield s, IntVal(self.u.enums[d['id']])
            return
        for s1, lv in self.lv(s, n):
            yield from self.load(s1, lv, n)

    def load(self, s, lv, n):
        if lv[0] == 'v':
            v_ = s.env.get(lv[1])
            if v_ is None:
                self.fail(s, 'uninitialised', n, 'use of uninitialised variable %s' % lv[3])
                return
            yield s, v_
        elif lv[0] == 'g':
            yield s, lv[2]
        else:
            if lv[2].k == 'rec':
                yield s, ('rec', lv[1], lv[2])
                return
            yield from self.read(s, lv[1], lv[2], n)

    def store(self, s, lv, v_, n):
        if lv[0] == 'v':
            s.env[lv[1]] = v_
            yield s
        elif lv[0] == 'g':
            raise Unsupported('write to a global variable')
        elif isinstance(v_, tuple) and v_[0] == 'rec':
            raise Unsupported('struct assignment')
        else:
            yield from self.write(s, lv[1], lv[2], v_, n)

    # ---- lvalues: ('v', id, type, name) | ('m', addr, type)
    def lv(self, s, n):
        n = unparen(n)
        k_ = n['kind']
        if k_ == 'DeclRefExpr':
            d = n['referencedDecl']
            vid = d['id']
            v_ = s.env.get(vid)
            if isinstance(v_, tuple) and v_ and v_[0] == 'mem':
                yield s, ('m', v_[1], v_[2])
            elif vid in s.env or self.is_local(vid):
                yield s, ('v', vid, self.ty(n), d.get('name'))
            else:
                yield from self.lv_global(s, n, d)
        elif k_ == 'UnaryOperator' and n['opcode'] == '*':
            for s1, p_ in self.ev(s, n['inner'][0]):
                yield s1, ('m', p_, self.ty(n))
        elif k_ == 'MemberExpr':
            off, fty = self.u.field(n['referencedMemberDecl'])
            if n.get('isArrow'):
                for s1, p_ in self.ev(s, n['inner'][0]):
                    yield s1, ('m', simp(p_ + off), fty)
            else:
                for s1, l_ in self.lv(s, n['inner'][0]):
                    if l_[0] != 'm':
                        raise Unsupported('member of a value')
                    yield s1, ('m', simp(l_[1] + off), fty)
        elif k_ == 'ArraySubscriptExpr':
            for s1, p_ in self.ev(s, n['inner'][0]):
                for s2, i_ in self.ev(s1, n['inner'][1]):
                    ety = self.ty(n)
                    if self.ty(n['inner'][0]).k == 'int':
                        p_, i_ = i_, p_
                    sz = self.u.sizeof(ety)
                    a_ = simp(p_ + i_ * sz)
                    self.array_view(s2, p_, i_, ety, sz)
                    yield s2, ('m', a_, ety)
        elif k_ in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('LValueToRValue', 'NoOp', 'LValueBitCast'):
            yield from self.lv(s, n['inner'][0])
        elif k_ == 'CompoundLiteralExpr':
            raise Unsupported('compound literal')
        elif k_ == 'StringLiteral':
            text = cstr(n['value'])
            yield s, ('m', self.use_lit(s, text)[1], CT('arr', to=BASE['char'], n=len(text) + 1))
        elif k_ == 'StmtExpr' or k_ == 'CallExpr':
            for s1, v_ in self.ev(s, n):
                if isinstance(v_, tuple) and v_[0] == 'rec':
                    yield s1, ('m', v_[1], v_[2])
                else:
                    raise Unsupported('lvalue of %s' % k_)
        else:
            raise Unsupported('lvalue %s' % k_)

    def is_local(self, vid):
        return vid in self.locals

    def lv_global(self, s, n, d):
        name = d.get('name', '?')
        g = self.bi.GLOBALS.get(name)
        if g is not None:
            yield s, ('g', name, g(self, s))
            return
        ty = self.ty(n)
        gd = self.u.globals.get(d['id']) or self.u.globals.get(name)
        if gd is not None and gd.get('storageClass') != 'extern':
            key = ('glob', name)
            if key not in s.ghost:
                # mutable static state: unknown but valid content of its type
                a_ = z3.Int('glob_' + name)
                self.assume(s, a_ > 0, a_ < 2 ** 62)
                s.ghost[key] = a_
                self.global_content(s, a_, ty, gd)
            yield s, ('m', s.ghost[key], ty)
            return
        raise Unsupported('global variable %s' % name)

    def global_content(self, s, a_, ty, gd):
        const = 'const' in gd['type']['qualType']
        if ty.k in ('int', 'ptr'):
            v_ = fresh('g')
            self.rng(s, v_, ty)
            s.heap.append(Cell(a_, self.u.sizeof(ty), v_))
        else:
            s.heap.append(Bytes(a_, IntVal(self.u.sizeof(ty)), fresh('gb', B)))

    def array_view(self, s, p, i, ety, sz):
        """give a raw block a typed array view when it is indexed symbolically"""
        if num(i) is not None and num(simp(p + i * sz)) is None and all(
                not (isinstance(ch, Bytes) and ch.val is None and diff(p, ch.addr) == 0 and num(ch.n) is None) for ch in s.heap):
            if not any(isinstance(ch, Arr) and diff(p, ch.addr) == 0 for ch in s.heap):
                return
        if ety.k == 'int' and ety.bits == 8:
            return
        for j, ch in enumerate(s.heap):
            if isinstance(ch, Bytes) and ch.val is None and (diff(p, ch.addr) == 0):
                q_ = num(ch.n)
                if q_ is not None and q_ <= 64:
                    return
                cnt = fresh('cnt')
                if ety.k == 'rec':
                    _, _, offs = self.u.layout(ety.name)
                    r = self.u.records[ety.name]
                    fl = []
                    for (fn_, q__, fid, bf), o_ in zip(r['fields'], offs):
                        ft = self.u.type(q__)
                        if ft.k not in ('int', 'ptr'):
                            return
                        fl.append((o_, self.u.sizeof(ft), ft.k == 'int' and ft.signed))
                else:
                    fl = [(0, sz, ety.k == 'int' and ety.signed)]
                # number of elements: n/stride, must divide exactly
                d = simp(ch.n)
                el = None
                if z3.is_mul(d) and z3.is_int_value(d.arg(0)) and d.arg(0).as_long() % sz == 0:
                    el = simp(IntVal(d.arg(0).as_long() // sz) * prod(d.children()[1:]))
                elif q_ is not None and q_ % sz == 0:
                    el = IntVal(q_ // sz)
                if el is None:
                    return
                s.heap[j] = Arr(ch.addr, sz, el, tuple(fl), tuple(fresh('arr', z3.ArraySort(I, I)) for _ in fl))
                return

    # ---- casts
    def ev_ImplicitCastExpr(self, s, n):
        ck_ = n['castKind']
        sub = n['inner'][0]
        if ck_ == 'LValueToRValue':
            for s1, l_ in self.lv(s, sub):
                yield from self.load(s1, l_, n)
        elif ck_ == 'ArrayToPointerDecay':
            if unparen(sub)['kind'] == 'StringLiteral':
                yield from self.ev(s, unparen(sub))
                return
            for s1, l_ in self.lv(s, sub):
                if l_[0] == 'm':
                    yield s1, l_[1]
                elif l_[0] == 'v' and isinstance(s1.env.get(l_[1]), VaList):
                    yield s1, ('valist', l_[1])
                else:
                    raise Unsupported('array decay')
        elif ck_ in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NoOp', 'BitCast', 'LValueBitCast'):
            yield from self.ev(s, sub)
        elif ck_ == 'NullToPointer':
            yield s, IntVal(0)
        elif ck_ in ('IntegralCast', 'IntegralToBoolean', 'PointerToIntegral', 'IntegralToPointer', 'PointerToBoolean'):
            for s1, v_ in self.ev(s, sub):
                if ck_.endswith('Boolean'):
                    yield s1, z3.If(tobool(v_), IntVal(1), IntVal(0))
                else:
                    yield s1, self.conv(s1, v_, self.ty(sub), self.ty(n))
        elif ck_ == 'ToVoid':
            for s1, v_ in self.ev(s, sub):
                yield s1, IntVal(0)
        elif ck_ in ('FloatingCast', 'IntegralToFloating'):
            for s1, v_ in self.ev(s, sub):
                yield s1, v_ if isinstance(v_, Dbl) else Dbl(fresh('dbl', z3.RealSort()))
        elif ck_ == 'FloatingToIntegral':
            for s1, v_ in self.ev(s, sub):
                w_ = fresh('f2i')
                self.rng(s1, w_, self.ty(n))
                yield s1, w_
        else:
            raise Unsupported('cast ' + ck_)
    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def conv(self, s, v_, t0, t1):
        if isinstance(v_, (FnRef, Dbl)) or not z3.is_expr(v_):
            return v_
        if t1.k != 'int':
            return v_
        n_ = num(v_)
        if n_ is not None:
            return IntVal(wrapc(n_, t1))
        lo, hi = int_range(t1)
        if t0.k == 'int':
            l0, h0 = int_range(t0)
            if lo <= l0 and h0 <= hi:
                return v_
        elif t0.k == 'ptr' and t1.bits == 64:
            return v_
        if self.prove(s, And(v_ >= lo, v_ <= hi)):
            return v_
        return wrap(v_, t1)

    def fit(self, s, v_, ty, n, what):
        """result of arithmetic in type ty"""
        v_ = simp(v_)
        if ty.k != 'int':
            return v_
        lo, hi = int_range(ty)
        c_ = num(v_)
        if ty.signed:
            if c_ is not None and lo <= c_ <= hi:
                return v_
            self.oblige(s, And(v_ >= lo, v_ <= hi), 'overflow', n, 'signed overflow in %s' % what)
            return v_
        if c_ is not None:
            return IntVal(wrapc(c_, ty))
        if self.prove(s, And(v_ >= lo, v_ <= hi)):
            return v_
        return wrap(v_, ty)

    # ---- operators
    def ev_BinaryOperator(self, s, n):
        op = n['opcode']
        l_, r_ = n['inner']
        if op == '=':
            for s1, v_ in self.ev(s, r_):
                for s2, lv_ in self.lv(s1, l_):
                    for s3 in self.store(s2, lv_, v_, n):
                        yield s3, v_
            return
        if op == ',':
            for s1, _ in self.ev(s, l_):
                yield from self.ev(s1, r_)
            return
        if op in ('&&', '||'):
            for s1, b_ in self.evc(s, n):
                yield s1, IntVal(1 if b_ else 0)
            return
        if op in CMP:
            for s1, f in self.ev_cmp(s, n):
                yield s1, z3.If(f, IntVal(1), IntVal(0))
            return
        for s1, a_ in self.ev(s, l_):
            for s2, b_ in self.ev(s1, r_):
                yield from self.binop(s2, op, a_, b_, self.ty(l_), self.ty(r_), self.ty(n), n)

    def binop(self, s, op, a_, b_, ta, tb, t, n):
        if isinstance(a_, Dbl) or isinstance(b_, Dbl):
            yield s, Dbl(fresh('dbl', z3.RealSort()))
            return
        if t.k == 'ptr' or ta.k == 'ptr' or tb.k == 'ptr':
            if op == '-' and ta.k == 'ptr' and tb.k == 'ptr':
                sz = self.u.sizeof(ta.to)
                yield s, simp((a_ - b_) / sz) if sz != 1 else simp(a_ - b_)
                return
            if tb.k == 'ptr':
                a_, b_, ta = b_, a_, tb
            sz = self.u.sizeof(ta.to)
            yield s, simp(a_ + b_ * sz) if op == '+' else simp(a_ - b_ * sz)
            return
        if op == '+':
            yield s, self.fit(s, a_ + b_, t, n, '+')
        elif op == '-':
            yield s, self.fit(s, a_ - b_, t, n, '-')
        elif op == '*':
            yield s, self.fit(s, a_ * b_, t, n, '*')
        elif op in ('/', '%'):
            self.oblige(s, b_ != 0, 'division-by-zero', n)
            if self.prove(s, And(a_ >= 0, b_ > 0)):
                yield s, simp(a_ / b_) if op == '/' else simp(a_ % b_)
            else:
                q_ = z3.If(a_ >= 0, z3.If(b_ > 0, a_ / b_, -(a_ / (-b_))), z3.If(b_ > 0, -((-a_) / b_), (-a_) / (-b_)))
                yield s, (self.fit(s, q_, t, n, '/') if op == '/' else a_ - b_ * q_)
        elif op in ('<<', '>>'):
            c_ = num(b_)
            if c_ is None:
                raise Unsupported('symbolic shift')
            if op == '>>':
                yield s, simp(a_ / IntVal(2 ** c_))
            else:
                yield s, self.fit(s, a_ * IntVal(2 ** c_), t, n, '<<')
        elif op in ('&', '|', '^'):
            yield s, self.bitop(s, op, a_, b_, t)
        else:
            raise Unsupported('operator ' + op)

    def bitop(self, s, op, a_, b_, t):
        x_, y_ = num(a_), num(b_)
        if x_ is not None and y_ is not None:
            return IntVal(wrapc({'&': x_ & y_, '|': x_ | y_, '^': x_ ^ y_}[op], t))
        if x_ is not None:
            a_, b_, x_, y_ = b_, a_, y_, x_
        if op == '&' and y_ is not None and y_ >= 0:
            if y_ == 0:
                return IntVal(0)
            if (y_ & (y_ + 1)) == 0:
                return simp(a_ % IntVal(y_ + 1))
            if (y_ & (y_ - 1)) == 0:
                return simp(((a_ / IntVal(y_)) % 2) * y_)
        if op == '|' and y_ == 0:
            return a_
        f = {'&': band, '|': bor, '^': bxor}[op]
        r = f(a_, b_)
        self.bi.bit_facts(self, s, op, a_, b_, r, t)
        return r

    def ev_CompoundAssignOperator(self, s, n):
        op = n['opcode'][:-1]
        l_, r_ = n['inner']
        for s1, b_ in self.ev(s, r_):
            for s2, lv_ in self.lv(s1, l_):
                for s3, a_ in self.load(s2, lv_, n):
                    tl = self.ty(l_)
                    if tl.k == 'ptr':
                        gen = self.binop(s3, op, a_, b_, tl, self.ty(r_), tl, n)
                    else:
                        ct_ = self.u.type(n.get('computeResultType', n['type']))
                        a2 = self.conv(s3, a_, tl, self.u.type(n.get('computeLHSType', n['type'])))
                        gen = self.binop(s3, op, a2, b_, ct_, self.ty(r_), ct_, n)
                    for s4, v_ in gen:
                        if tl.k == 'int':
                            v_ = self.conv(s4, v_, self.u.type(n.get('computeResultType', n['type'])), tl)
                        for s5 in self.store(s4, lv_, v_, n):
                            yield s5, v_

    def ev_UnaryOperator(self, s, n):
        op = n['opcode']
        sub = n['inner'][0]
        if op in ('++', '--'):
            for s1, lv_ in self.lv(s, sub):
                for s2, a_ in self.load(s1, lv_, n):
                    t = self.ty(sub)
                    d = 1 if op == '++' else -1
                    if t.k == 'ptr':
                        v_ = simp(a_ + d * self.u.sizeof(t.to))
                    else:
                        v_ = self.fit(s2, a_ + d, t, n, op)
                    for s3 in self.store(s2, lv_, v_, n):
                        yield s3, (a_ if n.get('isPostfix') else v_)
            return
        if op == '&':
            m = unparen(sub)
            if m['kind'] == 'DeclRefExpr' and m['referencedDecl']['kind'] == 'FunctionDecl':
                yield s, FnRef(m['referencedDecl']['name'])
                return
            for s1, lv_ in self.lv(s, sub):
                if lv_[0] == 'g':
                    raise Unsupported('address of a global')
                if lv_[0] != 'm':
                    raise Unsupported('address of a register variable')
                yield s1, lv_[1]
            return
        if op == '*':
            for s1, lv_ in self.lv(s, n):
                yield from self.load(s1, lv_, n)
            return
        if op == '!':
            for s1, b_ in self.evc(s, sub):
                yield s1, IntVal(0 if b_ else 1)
            return
        if op == '-':
            for s1, v_ in self.ev(s, sub):
                yield s1, v_ if isinstance(v_, Dbl) else self.fit(s1, -v_, self.ty(n), n, 'negation')
            return
        if op in ('+', '__extension__'):
            yield from self.ev(s, sub)
            return
        if op == '~':
            for s1, v_ in self.ev(s, sub):
                t = self.ty(n)
                yield s1, simp(-1 - v_) if t.signed else simp(IntVal(2 ** t.bits - 1) - v_)
            return
        raise Unsupported('unary ' + op)

    def ev_MemberExpr(self, s, n):
        for s1, lv_ in self.lv(s, n):
            yield from self.load(s1, lv_, n)
    ev_ArraySubscriptExpr = ev_MemberExpr

    def ev_ConditionalOperator(self, s, n):
        c_, a_, b_ = n['inner']
        for s1, t in self.evc(s, c_):
            yield from self.ev(s1, a_ if t else b_)

    def ev_UnaryExprOrTypeTraitExpr(self, s, n):
        if 'argType' in n:
            t = self.u.type(n['argType'])
        else:
            t = self.ty(unparen(n['inner'][0]))
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        yield s, IntVal(self.u.sizeof(t))

    def ev_ImplicitValueInitExpr(self, s, n):
        yield s, IntVal(0)

    def ev_InitListExpr(self, s, n):
        t = self.ty(n)
        if t.k in ('int', 'ptr') and len(n.get('inner', [])) == 1:
            yield from self.ev(s, n['inner'][0])
            return
        raise Unsupported('initialiser list value')

    def ev_VAArgExpr(self, s, n):
        m = strip(n['inner'][0])
        vid = m['referencedDecl']['id']
        va = s.env.get(vid)
        if not isinstance(va, VaList):
            raise Unsupported('va_arg of an unknown list')
        yield from va.model.next(self, s, vid, va, self.ty(n), n)

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, s, n):
        callee = strip(n['inner'][0])
        args = n['inner'][1:]
        for s0, f in (self.ev(s, n['inner'][0]) if callee.get('kind') != 'DeclRefExpr' or callee['referencedDecl']['kind'] != 'FunctionDecl'
                      else [(s, FnRef(callee['referencedDecl']['name']))]):
            if not isinstance(f, FnRef):
                raise Unsupported('call through an unknown function pointer')
            yield from self.call_named(s0, f.name, args, n)

    def call_named(self, s, name, args, n):
        b_ = self.bi.TABLE.get(name)
        if b_ is not None and not (name in self.funcs and name not in self.bi.FORCE):
            yield from b_(self, s, n, args)
            return
        for s1, vs in self.ev_list(s, args):
            yield from self.call(s1, name, vs, n)

    def call(self, s, name, vs, n):
        """call with evaluated arguments"""
        c_ = self.variant(name, vs) or self.contracts.get(name)
        self.called.add(c_.name if c_ is not None else name)
        if c_ is not None and not (c_.inline and name in self.funcs):
            ret = fresh('ret_' + c_.name)
            try:
                sp = c_.build(self, vs, ret)
            except (IndexError, ValueError):
                sp = None       # the signature is not the one the contract was written for
            if sp is not None:
                yield from self.call_contract(s, c_, vs, n, ret, sp)
                return
        if name in self.funcs:
            yield from self.inline(s, name, vs, n)
            return
        raise Unsupported('no contract for external function %s' % name)

    def variant(self, name, vs):
        """contract of a variadic function for the literal format of this call"""
        for vn in self.variants.get(name, ()):
            c_ = self.contracts[vn]
            if c_.fmtarg < len(vs) and z3.is_expr(vs[c_.fmtarg]):
                l_ = self.lits.get(c_.fmt)
                if l_ is not None and diff(l_[1], vs[c_.fmtarg]) == 0 and len(vs) == c_.fmtarg + 1 + len(c_.extra):
                    return c_
        return None

    def call_contract(self, s, c_, vs, n, ret, sp):
        un = dict(sp.uni)
        self.callstack.append('%s@%s' % (c_.name, self.line(n)))
        s.trace.append('call %s line %s' % (c_.name, self.line(n)))
        out = []
        hook = self.spec.hooks.get(c_.name) if self.spec is not None else None
        if hook is not None:
            hook(self, s, vs, n)
        for s1, bind in self.consume(s, sp.pre, {}, un, n, 'precondition of %s' % c_.name):
            ab = self.inst(sp.abort, bind)
            if not z3.is_false(simp(ab)):
                cur = self.spec_abort()
                if not self.prove(s1, Implies(ab, cur)):
                    self.oblige(s1, Not(ab), 'abort', n, 'callee %s may abort the process' % c_.name)
            live = []
            for (cn, g, post, opt) in sp.cases:
                gi = self.inst(g, bind)
                s2 = s1.copy()
                if self.feasible(s2, gi):
                    self.assume(s2, gi)
                    s2.trace.append('%s -> case %s' % (c_.name, cn))
                    live.append((s2, post))
            for s2, post in live:
                for s3 in self.produce(s2, post, bind):
                    fd = self.proto(c_.name)
                    if fd is not None:
                        rt = self.rettype(fd)
                        if rt.k in ('int', 'ptr'):
                            self.rng(s3, ret, rt)
                    out.append(s3)
        self.callstack.pop()
        after = self.spec.hooks.get(c_.name + ':after') if self.spec is not None else None
        for s3 in out:
            if after is not None:
                after(self, s3, vs, n)
            yield s3, ret

    def spec_abort(self):
        return self.cur_abort

    def proto(self, name):
        name = name.split('@')[0]
        if name in self.funcs:
            return self.funcs[name][1]
        for u in self.units:
            if name in u.protos:
                return u.protos[name]
        return None

    def rettype(self, fd):
        q = fd['type']['qualType']
        return self.u.type(q[:q.index('(')].strip())

    def inline(self, s, name, vs, n):
        if len(self.callstack) > 40 or sum(1 for x_ in self.callstack if x_.startswith('inline ' + name + '@')) >= 1:
            raise Unsupported('recursive function %s has no contract' % name)
        u, fd = self.funcs[name]
        if u is not self.u and False:
            raise Unsupported('cross-unit inline')
        self.inlined.add(name)
        self.callstack.append('inline %s@%s' % (name, self.line(n)))
        sv = (self.u, self.atk, self.locals, self.fdstack)
        res = []
        self.enter(u, fd)
        try:
            for s1, v_ in self.run_body(s, fd, vs, n):
                res.append((s1, v_))
        finally:
            self.u, self.atk, self.locals, self.fdstack = sv
            self.callstack.pop()
        yield from res

    def enter(self, u, fd):
        self.u = u
        self.atk = self.addr_taken(fd) | getattr(self, 'atk', set())
        loc = set(getattr(self, 'locals', set()))
        for x_ in walk(fd):
            if x_.get('kind') in ('VarDecl', 'ParmVarDecl'):
                loc.add(x_['id'])
                self.vnames[x_['id']] = x_.get('name')
                self.vtypes[x_['id']] = u.type(x_['type'])
        self.locals = loc
        self.fdstack = getattr(self, 'fdstack', ()) + (fd['name'],)

    def run_body(self, s, fd, vs, n):
        """execute a function body with argument values; yields (state, return value)"""
        params = [p_ for p_ in fd.get('inner', []) if p_.get('kind') == 'ParmVarDecl']
        body = [c_ for c_ in fd['inner'] if c_.get('kind') == 'CompoundStmt'][0]
        extra = vs[len(params):]
        memp = []
        for p_, v_ in zip(params, vs):
            pty = self.u.type(p_['type'])
            if self.is_mem(p_['id'], pty):
                a_ = self.alloc_local(s, p_['id'], pty, p_.get('name', 'p'))
                s.heap.pop()
                s.heap.append(Cell(a_, self.u.sizeof(pty), v_))
                memp.append(p_['id'])
            else:
                s.env[p_['id']] = v_
        s.ghost['va_extra'] = ('args', extra) if extra else s.ghost.get('va_model')
        rty = self.rettype(fd)
        for s1, o in self.ex(s, body):
            if o is None or o[0] == 'return':
                v_ = o[1] if o else None
                good = True
                for pid in memp:
                    good = good and self.free_local(s1, pid, fd)
                if not good:
                    continue
                for p_ in params:
                    s1.env.pop(p_['id'], None)
                if v_ is None and rty.k != 'void':
                    v_ = fresh('undef')
                yield s1, v_
            else:
                raise Unsupported('stray %s' % (o,))

    # ------------------------------------------------------------ statements
    def ex(self, s, n):
        """yields (state, outcome)"""
        self.tick()
        k_ = n.get('kind')
        if not k_:
            yield s, None
            return
        m = getattr(self, 'ex_' + k_, None)
        if m is not None:
            yield from m(s, n)
        elif k_.endswith('Expr') or k_.endswith('Operator') or k_.endswith('Literal'):
            for s1, _ in self.ev(s, n):
                yield s1, None
        else:
            raise Unsupported('statement %s at line %s' % (k_, n.get('_line')))

    def ex_NullStmt(self, s, n):
        yield s, None

    def ex_CompoundStmt(self, s, n, start=0):
        stmts = n.get('inner', [])
        for s1, o in self.seq(s, stmts, start):
            # scope exit: release memory locals declared here
            dead = [d['id'] for st in stmts if st.get('kind') in ('DeclStmt', 'LabelStmt') for x_ in [st] for d in decls_in(x_)]
            good = True
            for vid in dead:
                if vid in s1.env:
                    if o is not None and o[0] == 'goto' and any(has_label(st, o[1]) for st in stmts):
                        continue
                    good = self.free_local(s1, vid, n) and good
            if good:
                yield s1, o

    def seq(self, s, stmts, i):
        if i >= len(stmts):
            yield s, None
            return
        for s1, o in self.ex(s, stmts[i]):
            if o is None:
                yield from self.seq(s1, stmts, i + 1)
            elif o[0] == 'goto':
                for j, st in enumerate(stmts):
                    if has_label(st, o[1]):
                        if j <= i:
                            raise Unsupported('backward goto')
                        yield from self.seq_from_label(s1, stmts, j, o[1])
                        break
                else:
                    yield s1, o
            else:
                yield s1, o

    def seq_from_label(self, s, stmts, j, label):
        for s1, o in self.ex(s, stmts[j]['inner'][0] if stmts[j]['kind'] == 'LabelStmt' else stmts[j]):
            if o is None:
                yield from self.seq(s1, stmts, j + 1)
            else:
                yield s1, o

    def ex_LabelStmt(self, s, n):
        yield from self.ex(s, n['inner'][0])

    def ex_GotoStmt(self, s, n):
        yield s, ('goto', n['targetLabelDeclId'])

    def ex_DeclStmt(self, s, n):
        yield from self.decls(s, n.get('inner', []), 0)

    def decls(self, s, ds, i):
        if i >= len(ds):
            yield s, None
            return
        d = ds[i]
        if d.get('kind') != 'VarDecl':
            yield from self.decls(s, ds, i + 1)
            return
        for s1 in self.decl(s, d):
            yield from self.decls(s1, ds, i + 1)

    def decl(self, s, d):
        ty = self.u.type(d['type'])
        vid = d['id']
        if ty.k == 'valist' or (ty.k == 'arr' and ty.to.k == 'valist'):
            s.env[vid] = VaList(None, 0)
            yield s
            return
        static = d.get('storageClass') == 'static'
        init = [c_ for c_ in d.get('inner', []) if c_.get('kind', '').endswith(('Expr', 'Operator', 'Literal'))]
        if static:
            a_ = z3.Int('static_%s_%s' % (d.get('name'), d['id']))
            s.env[vid] = ('mem', a_, ty)
            if ('static', vid) not in s.ghost:
                s.ghost[('static', vid)] = True
                self.assume(s, a_ > 0, a_ < 2 ** 62)
                const = 'const' in d['type']['qualType']
                if const and init and ty.k in ('int', 'ptr'):
                    for s1, v_ in self.ev(s, init[0]):
                        s1.heap.append(Cell(a_, self.u.sizeof(ty), v_))
                        yield s1
                    return
                self.global_content(s, a_, ty, d)
            yield s
            return
        if self.is_mem(vid, ty):
            a_ = self.alloc_local(s, vid, ty, d.get('name', 'v'))
            if init:
                yield from self.init_mem(s, a_, ty, init[0], d)
            else:
                yield s
            return
        if not init:
            s.env[vid] = None
            yield s
            return
        for s1, v_ in self.ev(s, init[0]):
            s1.env[vid] = v_
            yield s1

    def init_mem(self, s, a_, ty, e_, d):
        e_ = unparen(e_)
        if e_['kind'] == 'InitListExpr':
            inner = e_.get('inner', [])
            if ty.k == 'arr':
                esz = self.u.sizeof(ty.to)
                vals = inner or []
                af = e_.get('array_filler')
                if af:
                    vals = [x_ for x_ in af if x_.get('kind') != 'ImplicitValueInitExpr']
                def rec(s_, i):
                    if i >= ty.n:
                        yield s_
                        return
                    if i < len(vals):
                        for s1 in self.init_mem(s_, simp(a_ + i * esz), ty.to, vals[i], d):
                            yield from rec(s1, i + 1)
                    elif ty.to.k in ('int', 'ptr') and ty.n <= 64:
                        for s1 in self.write(s_, simp(a_ + i * esz), ty.to, IntVal(0), d):
                            yield from rec(s1, i + 1)
                    else:
                        # zero fill of the tail
                        r = self.take_bytes(s_, simp(a_ + i * esz), IntVal((ty.n - i) * esz), d)
                        if r is not False:
                            s_.heap.append(Bytes(simp(a_ + i * esz), IntVal((ty.n - i) * esz), fresh('zeros', B)))
                            yield s_
                yield from rec(s, 0)
                return
            if ty.k == 'rec':
                _, _, offs = self.u.layout(ty.name)
                fs = self.u.records[ty.name]['fields']
                def rec2(s_, i):
                    if i >= len(fs):
                        yield s_
                        return
                    ft = self.u.type(fs[i][1])
                    if i < len(inner):
                        for s1 in self.init_mem(s_, simp(a_ + offs[i]), ft, inner[i], d):
                            yield from rec2(s1, i + 1)
                    else:
                        for s1 in self.write(s_, simp(a_ + offs[i]), ft, IntVal(0), d):
                            yield from rec2(s1, i + 1)
                yield from rec2(s, 0)
                return
            if inner:
                yield from self.init_mem(s, a_, ty, inner[0], d)
                return
        if ty.k == 'arr' and e_['kind'] == 'StringLiteral':
            text = cstr(e_['value'])
            n_ = ty.n
            r = self.take_bytes(s, a_, IntVal(n_), d)
            if r is False:
                return
            s.heap.append(Bytes(a_, IntVal(len(text) + 1), str0(self.lit_const(s, text))))
            if n_ > len(text) + 1:
                s.heap.append(Bytes(simp(a_ + len(text) + 1), IntVal(n_ - len(text) - 1), fresh('zeros', B)))
            yield s
            return
        if e_['kind'] == 'ImplicitValueInitExpr' and ty.k in ('rec', 'arr'):
            yield s
            return
        for s1, v_ in self.ev(s, e_):
            yield from self.write(s1, a_, ty, v_, d)

    def ex_IfStmt(self, s, n):
        inner = [c_ for c_ in n['inner']]
        c_ = inner[0]
        th = inner[1]
        el = inner[2] if len(inner) > 2 else None
        outs, rs = [], []
        for s1, b_ in self.evc(s, c_):
            o = list(self.ex(s1, th)) if b_ else list(self.ex(s1, el)) if el is not None else [(s1, None)]
            rs.append(o)
            outs += o
        if self.spec is not None and self.spec.only_cands and len(rs) == 2 and all(len(o) == 1 and o[0][1] is None for o in rs):
            m = self.join(rs[0][0][0], rs[1][0][0])
            if m is not None:
                yield m, None
                return
        yield from outs

    def join(self, s1, s2):
        """one state for both branches of an if that differ only in the values of variables, or None"""
        if len(s1.heap) != len(s2.heap) or any(a_ is not b_ for a_, b_ in zip(s1.heap, s2.heap)) or set(s1.env) != set(s2.env):
            return None
        n = 0
        while n < min(len(s1.pc), len(s2.pc)) and s1.pc[n] is s2.pc[n]:
            n += 1
        f1, f2 = s1.pc[n:], s2.pc[n:]
        if len(f1) + len(f2) > 20 or any(z3.is_quantifier(f_) for f_ in f1 + f2):
            return None
        b = fresh('branch', z3.BoolSort())
        m = s1.copy()
        for k_, v1 in s1.env.items():
            v2 = s2.env[k_]
            if v1 is v2:
                continue
            if not z3.is_expr(v1) or not z3.is_expr(v2) or v1.sort() != v2.sort():
                return None
            if not v1.eq(v2):
                m.env[k_] = z3.If(b, v1, v2)
        m.pc = list(s1.pc[:n]) + [Implies(b, And(*f1)), Or(b, And(*f2))]
        return m

    def ex_ReturnStmt(self, s, n):
        if n.get('inner'):
            for s1, v_ in self.ev(s, n['inner'][0]):
                s1.trace.append('return at line %s' % self.line(n))
                yield s1, ('return', v_)
        else:
            yield s, ('return', None)

    def ex_BreakStmt(self, s, n):
        yield s, ('break',)

    def ex_ContinueStmt(self, s, n):
        yield s, ('continue',)

    def ex_SwitchStmt(self, s, n):
        cond, body = n['inner'][0], n['inner'][-1]
        stmts = body.get('inner', [])
        flat = []   # (labels, stmt)
        for st in stmts:
            labs = []
            while st.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    labs.append(st['inner'][0])
                    st = st['inner'][-1]
                else:
                    labs.append('default')
                    st = st['inner'][0]
            flat.append((labs, st))
        code = [st for _, st in flat]
        for s1, v_ in self.ev(s, cond):
            rest = s1
            targets = []
            default = len(code)
            for i, (labs, st) in enumerate(flat):
                for lb in labs:
                    if lb == 'default':
                        default = i
                    else:
                        for _s, c_ in self.ev(s1, lb):
                            targets.append((i, c_))
                            break
            def run(st_, i):
                for s2, o in self.seq(st_, code, i):
                    yield s2, (None if o == ('break',) else o)
            alive = [s1]
            for i, c_ in targets:
                nxt = []
                for st_ in alive:
                    for s2, b_ in self.branch(st_, v_ == c_):
                        if b_:
                            yield from run(s2, i)
                        else:
                            nxt.append(s2)
                alive = nxt
            for st_ in alive:
                if default < len(code):
                    yield from run(st_, default)
                else:
                    yield st_, None

    def unrolled(self, s, n, cond, inc, body, post, k):
        """full unrolling (the contract asks for it: the trip count is fixed by the literal format)"""
        if k > self.spec.unroll:
            raise Unsupported('loop at line %s: more than %d iterations' % (self.line(n), self.spec.unroll))
        for t, s1, o in self.iteration(s, cond, inc, body, post):
            if t == 'back':
                yield from self.unrolled(s1, n, cond, inc, body, post, k + 1)
            else:
                yield s1, (o if t == 'out' else None)

    def ex_WhileStmt(self, s, n):
        yield from self.loop(s, n, None, n['inner'][0], None, n['inner'][1], False)

    def ex_DoStmt(self, s, n):
        yield from self.loop(s, n, None, n['inner'][1], None, n['inner'][0], True)

    def ex_ForStmt(self, s, n):
        init, _cv, cond, inc, body = n['inner']
        def go(s_):
            yield from self.loop(s_, n, None, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, False)
        if init.get('kind'):
            for s1, o in self.ex(s, init):
                for s2, o2 in go(s1):
                    for d in decls_in(init):
                        if d['id'] in s2.env:
                            self.free_local(s2, d['id'], n)
                    yield s2, o2
        else:
            yield from go(s)


def tobool(v_):
    v_ = simp(v_)
    if z3.is_app(v_) and v_.decl().kind() == z3.Z3_OP_ITE:
        a_, b_ = v_.arg(1), v_.arg(2)
        if z3.is_int_value(a_) and z3.is_int_value(b_):
            if a_.as_long() != 0 and b_.as_long() == 0:
                return v_.arg(0)
            if a_.as_long() == 0 and b_.as_long() != 0:
                return Not(v_.arg(0))
    return v_ != 0


def decls_in(st):
    if st.get('kind') == 'DeclStmt':
        return [d for d in st.get('inner', []) if d.get('kind') == 'VarDecl']
    if st.get('kind') == 'LabelStmt':
        return decls_in(st['inner'][0])
    return []


def has_label(st, lid):
    return st.get('kind') == 'LabelStmt' and st.get('declId') == lid


def cstr(v):
    """python text of a clang StringLiteral value"""
    import ast as _ast
    if v.startswith('"'):
        body = v[1:-1]
        body = re.sub(r'\\(\d{1,3})', lambda m: '\\x%02x' % int(m.group(1), 8), body)
        return _ast.literal_eval('"' + body.replace('\n', '\\n') + '"')
    return v
