"""Verification of one function against its contract."""
import time, traceback
import z3
from .engine import *
from .execu import *
from .loops import Loops
from .heap import *
from .theory import *

IGNORED_ADDR = ('litaddr_', 'glob_', 'static_', 'errno_addr')


class FnVerifier(Loops, Verifier):
    def inputs(self, fd):
        vs = []
        for p_ in [x_ for x_ in fd.get('inner', []) if x_.get('kind') == 'ParmVarDecl']:
            ty = self.u.type(p_['type'])
            v_ = fresh(p_.get('name', 'arg'))
            vs.append((v_, ty))
        return vs

    def verify(self, name):
        """-> result dict"""
        t0 = time.time()
        self.fn = name
        res = dict(fn=name, status='proved', reason='', cases=[])
        c_ = self.contracts[name]
        fname = name.split('@')[0].split('#')[0]
        if fname not in self.funcs:
            res.update(status='missing', reason='function %s is not defined in the sources' % name)
            return res
        u, fd = self.funcs[fname]
        self.u, self.atk, self.locals, self.fdstack = u, set(), set(), ()
        try:
            self._verify(u, fd, c_, res)
        except Unsupported as e:
            res.update(status='unsupported', reason=str(e) + ' [near %s]' % ' > '.join(self.callstack[-4:]))
        except Budget as e:
            res.update(status='budget', reason=str(e))
        except RecursionError:
            res.update(status='unsupported', reason='recursion limit of the verifier')
        except (z3.Z3Exception, NotImplementedError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            res.update(status='unsupported', reason='verifier error: %r\n%s' % (e, traceback.format_exc()[-1500:]))
        if res['status'] == 'proved' and self.failures:
            res['status'] = 'failed'
        res['failures'] = self.failures
        res['obligations'] = len(self.obls)
        res['discharged'] = sum(1 for o in self.obls if o['ok'])
        res['nontrivial'] = sum(1 for o in self.obls if not o['trivial'])
        res['kinds'] = sorted({o['kind'] for o in self.obls})
        res['queries'] = self.pv.queries
        res['solver_s'] = round(self.pv.time, 3)
        res['wall_s'] = round(time.time() - t0, 3)
        res['called'] = sorted(self.called)
        res['inlined'] = sorted(self.inlined)
        return res

    def _verify(self, u, fd, c_, res):
        self.spec = None
        nparam = [x_ for x_ in fd.get('inner', []) if x_.get('kind') == 'ParmVarDecl']
        # globally unique argument constants
        args = self.inputs(fd)
        s = St()
        vals = []
        for v_, ty in args:
            if ty.k not in ('int', 'ptr'):
                vals.append(Dbl(fresh('dbl', z3.RealSort())))
                continue
            self.rng(s, v_, ty)
            if ty.k == 'ptr':
                self.assume(s, v_ < 2 ** 62)
            vals.append(v_)
        for i_, q_ in enumerate(getattr(c_, 'extra', ())):
            ty = self.u.type({'qualType': q_})
            v_ = fresh('va%d' % i_)
            if ty.k not in ('int', 'ptr'):
                vals.append(Dbl(fresh('dbl', z3.RealSort())))
                continue
            self.rng(s, v_, ty)
            if ty.k == 'ptr':
                self.assume(s, v_ < 2 ** 62)
            vals.append(v_)
            args.append((v_, ty))
        self.ptrargs = [v_ for v_, ty in args if ty.k == 'ptr']
        self.argterms = [(str(v_), v_) for v_ in vals if z3.is_expr(v_)]
        ret = fresh('result')
        sp = c_.build(self, vals, ret)
        self.spec = sp
        self.cur_abort = sp.abort
        if sp.va is not None:
            s.ghost['va_model'] = sp.va
        self.scope_strs = [g for g in sp.uni.values() if g.sort() == S]
        if len(sp.cases) < 1:
            raise Unsupported('empty contract')
        self.enter(u, fd)
        pres = list(self.produce(s, sp.pre, {}))
        pres = [p_ for p_ in pres if self.feasible(p_)]
        if c_.part is not None:      # one of several parts of the proof: the cases are complete by construction
            cs = [z3.BoolVal(True)] if not sp.split else sp.split + [Not(Or(*sp.split))]
            for p_ in pres:
                self.assume(p_, cs[c_.part], *[Not(x_) for x_ in cs[:c_.part]])
            pres = [p_ for p_ in pres if self.feasible(p_)]
        if not pres:
            self.fail(St(), 'vacuity', fd, 'the precondition is unsatisfiable')
        reached = {cn: False for cn, g, post, opt in sp.cases}
        npaths = 0
        cover = {cn: False for cn, g, post, opt in sp.cases}
        for p0 in pres:
            # vacuity guard: false must not be provable from the precondition
            if self.pv.check_fresh(p0.pc, z3.BoolVal(True), 3000) == 'unsat':
                self.record(p0, 'vacuity', fd, 'false is provable from the precondition')
                continue
            self.entry = p0.copy()
            for s1, v_ in self.run_body(p0, fd, list(vals), fd):
                npaths += 1
                if npaths > self.maxpaths:
                    raise Budget('more than %d paths' % self.maxpaths)
                self.at_return(s1, fd, sp, ret, v_, reached, cover)
        for cn, g, post, opt in sp.cases:
            if not reached[cn] and not opt and (c_.part is None or any(self.feasible(p_, g) for p_ in pres)):
                self.obls.append(dict(fn=self.fn, kind='reachability', line=None, ok=False, ms=0, trivial=False))
                self.failures.append(dict(fn=self.fn, kind='reachability', line=self.line(fd), msg='no execution path ends in case "%s" of the contract' % cn,
                                          stack=[], trace=[]))
        res['paths'] = npaths
        res['cases'] = [cn for cn, r in reached.items() if r]

    def at_return(self, s, fd, sp, ret, v_, reached, cover):
        bind0 = {}
        rty = self.rettype(fd)
        if rty.k != 'void' and z3.is_expr(v_):
            self.assume(s, ret == v_)
            s.define(ret, simp(v_))
            bind0 = {ret.get_id(): (ret, v_)}
        elif isinstance(v_, FnRef) or isinstance(v_, Dbl):
            raise Unsupported('function or floating result')
        guards = [g for cn, g, post, opt in sp.cases]
        self.oblige(s, Or(*[self.inst(g, bind0) for g in guards]), 'cases', fd, 'no case of the contract describes this outcome (returned %s)' % v_)
        for cn, g, post, opt in sp.cases:
            s2 = s.copy()
            gi = self.inst(g, bind0)
            if not self.feasible(s2, gi):
                continue
            self.assume(s2, gi)
            reached[cn] = True
            un = dict(sp.exi)
            s2.trace.append('return (case %s)' % cn)
            for s3, b in self.consume(s2, post, dict(bind0), un, fd, 'postcondition (%s)' % cn):
                self.leak_check(s3, fd, cn)

    def leak_check(self, s, fd, cn):
        for ch in s.heap:
            if isinstance(ch, Res):
                if ch.kind in ('closed', 'ioerr'):
                    continue
                self.fail(s, 'leak', fd, 'resource %s(%s) is neither released nor handed over (case %s)' % (ch.kind, ch.key, cn))
                continue
            a_ = ch.a if isinstance(ch, (Lst, Seg)) else (ch.h if isinstance(ch, Tr) else ch.addr)
            if str(base_off(a_)[0]).startswith(IGNORED_ADDR):
                continue
            if isinstance(ch, Bytes) and (num(ch.n) == 0 or self.prove(s, ch.n == 0)):
                continue
            if isinstance(ch, Tr) and self.prove(s, ch.h == 0):
                continue
            if isinstance(ch, Seg) and self.prove(s, ch.L == Nil):
                continue
            self.fail(s, 'leak', fd, 'memory lost at return (case %s): %s' % (cn, str(ch)[:200]))
            return
        self.ok('no-leak', fd)
