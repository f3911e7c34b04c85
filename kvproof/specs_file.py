"""Contracts of the functions that write and read tree files (kvtree.c)."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import NEED
from .specs import spec, SUCCESS, FAILURE, opt_str, q_
from .specs_buf import persisted, header, HEADER
from .specs_io import fdv, fdr, failed_call, MAXTRY


def closed_file(sp, k, T):
    """the file at path k was closed without error and holds exactly the persisted form of T"""
    return ARes('closed', sp.x('fdno', I), dict(path=k, wr=persisted(T), off=IntVal(0), tr=IntVal(1), dirty=IntVal(0), ok=IntVal(1)))


def after_error(sp):
    """an operation fails only after some system call failed"""
    er = sp.x('errs', I)
    return AOr([[failed_call(sp)], [ARes('closed', sp.x('fdno', I), dict(err=er)), Pure(er > 0)]])


@spec('kvtree_write_fd', props=('C12', 'C15', 'C16', 'C22'))
def _(e, a, ret):
    sp = Spec()
    file, fd, h = a
    k, d, T = sp.u('k', S), fdv(sp), sp.u('T', Tree)
    ok = And(file != 0, fd >= 0, h != 0)
    sp.req(opt_str(file, k), ATree(h, T), AIf(ok, [fdr(fd, d), Pure(d['err'] >= 0), Pure(Implies(NEED == 1, d['lock'] == 2), 'the exclusive lock is held')], []))
    sp.case('missing', And(ret == -1, Not(ok)), opt_str(file, k), ATree(h, T))
    er, dt, w = sp.x('errs', I), sp.x('dirty2', I), sp.x('wr2', B)
    sp.case('written', And(ok, ret >= 0), Pure(ret == HEADER + psz(T) + 4), AStr(file, k), ATree(h, T), fdr(fd, d, wr=w, err=er, dirty=dt),
            Pure(w == cat(d['wr'], persisted(T)), 'exactly the persisted form is written'), Pure(er >= d['err']))
    sp.case('failed', And(ok, ret == -1), AStr(file, k), ATree(h, T), fdr(fd, d, wr=w, err=er, dirty=dt), Pure(er > d['err'], 'failure only after an error'))
    return sp


def writer(name, props, lock):
    @spec(name, props=props)
    def _(e, a, ret):
        sp = Spec()
        file, h = a
        k, T = sp.u('k', S), sp.u('T', Tree)
        ok = And(file != 0, h != 0)
        sp.req(opt_str(file, k), ATree(h, T), *([Pure(NEED == 1, 'content only under the lock')] if lock else [Pure(NEED == 0)]))
        sp.case('missing', And(ret == FAILURE, Not(ok)), opt_str(file, k), ATree(h, T))
        sp.case('written', And(ok, ret == SUCCESS), AStr(file, k), ATree(h, T), closed_file(sp, k, T))
        sp.case('failed', And(ok, ret == FAILURE), AStr(file, k), ATree(h, T), after_error(sp))
        return sp


writer('kvtree_write_file', ('C12', 'C15', 'C22'), False)
writer('kvtree_write_with_lock', ('C12', 'C15', 'C16', 'C22'), True)


@spec('kvtree_read_write_with_lock', props=('C16', 'C15', 'C22'))
def _(e, a, ret):
    sp = Spec()
    file, h, w = a
    k, T, rd = sp.u('k', S), sp.u('T', Tree), sp.x('rd', B)
    sp.req(opt_str(file, k), ATree(h, T), Pure(NEED == 1))
    sp.case('missing', And(ret < 0, Or(file == 0, h == 0)), opt_str(file, k), ATree(h, T))
    sp.case('opened', And(ret >= 0, file != 0, h != 0), AStr(file, k), ATree(h, T), ARes('fd', ret, dict(path=k, lock=z3.If(w != 0, IntVal(2), IntVal(1)), rd=rd, all=rd, wr=eps,
            off=IntVal(0), tr=IntVal(0), dirty=IntVal(0), err=IntVal(0), acc=IntVal(2))), Pure(blen(rd) >= 0))
    sp.case('failed', And(ret < 0, file != 0, h != 0), AStr(file, k), ATree(h, T), failed_call(sp))
    return sp


@spec('kvtree_write_close_unlock', props=('C12', 'C15', 'C16', 'C22'))
def _(e, a, ret):
    sp = Spec()
    file, fdp, h = a
    k, T, fd, d = sp.u('k', S), sp.u('T', Tree), sp.u('fd', I), fdv(sp)
    ok = And(file != 0, h != 0, fd >= 0)
    sp.req(opt_str(file, k), ATree(h, T), Pure(NEED == 1), ANullOr(fdp, [ACell(fdp, 4, fd), Pure(And(fd >= -2 ** 31, fd < 2 ** 31)), AIf(ok, [fdr(fd, d), Pure(And(d['lock'] == 2, d['err'] >= 0,
        d['path'] == k), 'opened and locked by kvtree_lock_open_read')], [])]))
    sp.case('nofd', And(ret == FAILURE, fdp == 0), opt_str(file, k), ATree(h, T))
    sp.case('missing', And(ret == FAILURE, fdp != 0, Not(ok)), opt_str(file, k), ATree(h, T), ACell(fdp, 4, fd))
    sp.case('written', And(ret == SUCCESS, fdp != 0, ok), AStr(file, k), ATree(h, T), ACell(fdp, 4, IntVal(-1)), closed_file(sp, k, T))
    sp.case('failed', And(ret == FAILURE, fdp != 0, ok), AStr(file, k), ATree(h, T), ACell(fdp, 4, IntVal(-1)), after_error(sp))
    return sp


# =============================================================== reading
V_, y_ = Const('V', Tree), Const('y', B)


def marks(V, y):
    """terms that let the solver compare a file's content with the persisted form of V; each marker is true by definition"""
    rest = cat(be(4, crcf(cat(header(HEADER + psz(V) + 4), enc(V)))), y)
    return And(tried(V, rest), cutat(enc(V), rest), cutat(cat(enc(V), eps), eps))


SMALL = lambda V: And(okT(V), psz(V) < 2 ** 62)


# isfile(C, V): the bytes C start with the persisted form of the (representable) tree V, that is: there are bytes y with
# okT(V), psz(V) < 2^62 and C == cat(persisted(V), y). The definition is unfolded where the fact is established (unfold=True).
isfile = z3.Function('isfile', B, Tree, z3.BoolSort())


def not_persisted(C, unfold=False):
    """C does not start with the persisted form of any tree"""
    return Pure(ForAll([V_], Not(isfile(C, V_)), patterns=[isfile(C, V_)]), 'every file holding a persisted tree is accepted',
                goal=ForAll([V_, y_], Not(And(marks(V_, y_), SMALL(V_), C == cat(persisted(V_), y_)))) if unfold else None)


def only_tree(C, U, unfold=False):
    """if C starts with the persisted form of a tree, U has exactly that tree's paths"""
    return Pure(ForAll([V_], Implies(isfile(C, V_), sameT(U, V_)), patterns=[isfile(C, V_)]), 'the written tree is the one read',
                goal=ForAll([V_, y_], Implies(And(marks(V_, y_), SMALL(V_), C == cat(persisted(V_), y_)), sameT(U, V_))) if unfold else None)


def was_read(sp, C, Z, size, T, W, unfold=False):
    """what a successful read of size bytes from content C establishes"""
    U, X, X2, fl = sp.x('U', Tree), sp.x('X', B), sp.x('X2', B), sp.x('flags', I)
    h = header(size, fl)
    crc = fl % 2 == 1
    return [AUnify(cat(h, cat(enc(U), cat(X, Z))), C),
            Pure(And(U != Null, size == HEADER + psz(U) + blen(X)), 'the file starts with a valid header and a complete packed tree'),
            AIf(crc, [AUnify(cat(X2, be(4, crcf(cat(h, cat(enc(U), X2))))), X)], []),
            Pure(ForAll([q_], P(W, q_) == Or(P(T, q_), P(U, q_)), patterns=[P(W, q_)]), 'exactly the paths in the file are added'),
            Pure(Implies(wfT(T), wfT(W)), 'keys stay unique'), only_tree(C, U, unfold)]


@spec('kvtree_read_fd', props=('C12', 'C13', 'C15', 'C16', 'C22'))
def _(e, a, ret):
    sp = Spec()
    file, fd, h = a
    k, d, T = sp.u('k', S), fdv(sp), sp.u('T', Tree)
    ok = And(file != 0, fd >= 0, h != 0)
    sp.req(opt_str(file, k), ATree(h, T), AIf(ok, [fdr(fd, d), Pure(And(d['err'] >= 0, d['off'] >= 0, d['wr'] == eps)), Pure(Implies(NEED == 1, d['lock'] >= 1), 'the lock is held')], []))
    sp.case('missing', And(ret == -1, Not(ok)), opt_str(file, k), ATree(h, T))
    er, off, rd = sp.x('errs', I), sp.x('off2', I), sp.x('rd2', B)
    sp.case('empty', And(ok, ret == 0), AStr(file, k), ATree(h, T), fdr(fd, d, rd=rd, err=er, off=off), Pure(And(er >= d['err'], d['rd'] == eps), 'only an empty file is reported as empty'))
    W = sp.x('W', Tree)
    sp.case('read', And(ok, ret > 0), AStr(file, k), ATree(h, W), fdr(fd, d, rd=rd, err=er, off=off), Pure(er >= d['err']), *was_read(sp, d['rd'], rd, ret, T, W, True))
    sp.case('failed', And(ok, ret == -1), AStr(file, k), ATree(h, T), fdr(fd, d, rd=rd, err=er, off=off), Pure(er >= d['err']),
            AIf(er == d['err'], [not_persisted(d['rd'], True)], []))
    return sp


def read_result(sp, C, T, W, i=''):
    """after a successful read of a file with content C into T: nothing if it is empty, its tree otherwise"""
    Z, n = sp.x('Z' + i, B), sp.x('size' + i, I)
    return AOr([[Pure(And(C == eps, W == T), 'an empty file leaves the destination unchanged')], was_read(sp, C, Z, n, T, W)])


def reader(name, props, lock):
    @spec(name, props=props)
    def _(e, a, ret):
        sp = Spec()
        file, h = a
        k, T, W, C = sp.u('k', S), sp.u('T', Tree), sp.x('W', Tree), sp.x('C', B)
        ok = And(file != 0, h != 0)
        sp.req(opt_str(file, k), ATree(h, T), Pure(NEED == (1 if lock else 0)))
        sp.case('missing', And(ret == FAILURE, Not(ok)), opt_str(file, k), ATree(h, T))
        sp.case('read', And(ok, ret == SUCCESS), AStr(file, k), ATree(h, W), ARes('closed', sp.x('fdno', I), dict(path=k, all=C, ok=IntVal(1))), read_result(sp, C, T, W))
        # on failure nothing was merged, or everything was read and only the close was reported as failed
        er = sp.x('errs', I)
        sp.case('failed', And(ok, ret == FAILURE), AStr(file, k), ATree(h, W),
                AOr([[ARes('closed', sp.x('fdno2', I), dict(path=k, all=C, err=er)), Pure(W == T), Pure(Or(er > 0, not_persisted(C).f), 'a file holding a persisted tree is refused only after an I/O error')],
                     [ARes('closed', sp.x('fdno3', I), dict(path=k, all=C)), failed_call(sp), read_result(sp, C, T, W)],
                     [failed_call(sp), Pure(W == T)]]))
        return sp


reader('kvtree_read_file', ('C12', 'C13', 'C15', 'C22'), False)
reader('kvtree_read_with_lock', ('C12', 'C13', 'C15', 'C16', 'C22'), True)


@spec('kvtree_lock_open_read', props=('C12', 'C13', 'C15', 'C16', 'C22'))
def _(e, a, ret):
    sp = Spec()
    file, fdp, h = a
    k, T, W, C, fd = sp.u('k', S), sp.u('T', Tree), sp.x('W', Tree), sp.x('C', B), sp.x('fd', I)
    ok = And(file != 0, h != 0)
    sp.req(opt_str(file, k), ATree(h, T), ANullOr(fdp, [ACell(fdp, 4, None)]), Pure(NEED == 1))
    sp.case('nofd', And(ret == FAILURE, fdp == 0), opt_str(file, k), ATree(h, T))
    sp.case('missing', And(ret == FAILURE, fdp != 0, Not(ok)), opt_str(file, k), ATree(h, T), ACell(fdp, 4, IntVal(-1)))
    rd, er, off = sp.x('rd', B), sp.x('errs', I), sp.x('off', I)
    sp.case('opened', And(ret == SUCCESS, fdp != 0, ok), AStr(file, k), ATree(h, W), ACell(fdp, 4, fd), Pure(fd >= 0),
            ARes('fd', fd, dict(path=k, all=C, lock=IntVal(2), rd=rd, wr=eps, off=off, tr=IntVal(0), dirty=IntVal(0), err=er, acc=IntVal(2))), Pure(And(blen(rd) >= 0, er >= 0)),
            read_result(sp, C, T, W))
    sp.case('failed', And(ret == FAILURE, fdp != 0, ok), AStr(file, k), ATree(h, T), ACell(fdp, 4, IntVal(-1)),
            AOr([[ARes('closed', sp.x('fdno', I), dict(path=k, all=C, err=er)), Pure(Or(er > 0, not_persisted(C).f), 'a file holding a persisted tree is refused only after an I/O error')],
                 [failed_call(sp)]]))
    return sp
