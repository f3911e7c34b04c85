"""Contracts of the file layer (kvtree_io.c).

A descriptor is a resource owned by whoever opened it: path, lock held (0 none, 1 shared,
2 exclusive), rd = the bytes still to be read from it, wr = the bytes written since it was
opened or last positioned, off = where those start, tr = 1 if the file ends where the written
bytes end (truncated there, or truncated before writing), dirty = 1 if written bytes were not
flushed, err = number of failed system calls that were not interruptions, acc = access mode."""
import z3
from .engine import Spec
from .heap import *
from .theory import *
from .builtins import NEED
from .specs import spec, SUCCESS, FAILURE, opt_str

IO = 'kvtree_io.c'
FIELDS = [('path', S), ('all', B), ('lock', I), ('rd', B), ('wr', B), ('off', I), ('tr', I), ('dirty', I), ('err', I), ('acc', I)]
MAXTRY = 1000


def fdv(sp, x=False):
    f = sp.x if x else sp.u
    return {n: f(n, s) for n, s in FIELDS}


def fdr(fd, d, kind='fd', **over):
    return ARes(kind, fd, dict(d, **over))


def failed_call(sp):
    """some system call failed"""
    return ARes('ioerr', sp.x('ioe', I), {})


def ok_fd(d):
    return [Pure(And(d['lock'] >= 0, d['lock'] <= 2, d['err'] >= 0))]


@spec('kvtree_getmode', file=IO, props=('C15',))
def _(e, a, ret):
    sp = Spec()
    sp.case('mode', And(ret >= 0, ret < 512))
    return sp


@spec('kvtree_open', file=IO, props=('C15', 'C16'))
def _(e, a, ret):
    sp = Spec()
    sp.unroll = 50
    from .builtins import ArgModel
    sp.va = ArgModel([z3.Int('va_mode')])
    file, fl = a[:2]
    k, rd = sp.u('k', S), sp.x('rd', B)
    sp.req(AStr(file, k), Pure(And(fl >= 0, (fl / 1024) % 2 == 0), 'not opened for appending'),
           Pure(Implies(NEED == 1, (fl / 512) % 2 == 0), 'not truncated before it is locked'))
    sp.case('opened', ret >= 0, AStr(file, k), ARes('fd', ret, dict(path=k, lock=IntVal(0), rd=rd, all=rd, wr=eps, off=IntVal(0), tr=(fl / 512) % 2,
            dirty=IntVal(0), err=IntVal(0), acc=fl % 4)), Pure(blen(rd) >= 0))
    sp.case('failed', ret < 0, AStr(file, k), failed_call(sp))
    return sp


@spec('kvtree_close', file=IO, props=('C15', 'C16'))
def _(e, a, ret):
    sp = Spec()
    file, fd = a
    k, d = sp.u('k', S), fdv(sp)
    sp.req(opt_str(file, k), fdr(fd, d))
    sp.case('closed', ret == SUCCESS, opt_str(file, k), fdr(fd, d, 'closed', dirty=IntVal(0), ok=IntVal(1)))
    sp.case('failed', ret == FAILURE, opt_str(file, k), fdr(fd, d, 'closed', dirty=IntVal(0), ok=IntVal(0)), failed_call(sp))
    return sp


@spec('kvtree_file_lock_read_write', file=IO, props=('C16',))
def _(e, a, ret):
    sp = Spec()
    file, fd, w = a
    k, d = sp.u('k', S), fdv(sp)
    sp.req(opt_str(file, k), fdr(fd, d))
    sp.case('locked', ret == SUCCESS, opt_str(file, k), fdr(fd, d, lock=z3.If(w != 0, IntVal(2), IntVal(1))))
    sp.case('failed', ret == FAILURE, opt_str(file, k), fdr(fd, d), failed_call(sp))
    return sp


@spec('kvtree_file_unlock', file=IO, props=('C16',))
def _(e, a, ret):
    sp = Spec()
    file, fd = a
    k, d = sp.u('k', S), fdv(sp)
    sp.req(opt_str(file, k), fdr(fd, d))
    sp.case('unlocked', ret == SUCCESS, opt_str(file, k), fdr(fd, d, lock=IntVal(0)))
    sp.case('failed', ret == FAILURE, opt_str(file, k), fdr(fd, d), failed_call(sp))
    return sp


@spec('kvtree_open_with_lock', file=IO, props=('C16', 'C15'))
def _(e, a, ret):
    sp = Spec()
    file, fl, mode, w = a
    k, rd = sp.u('k', S), sp.x('rd', B)
    sp.req(AStr(file, k), Pure(And(fl >= 0, (fl / 1024) % 2 == 0)), Pure(Implies(NEED == 1, (fl / 512) % 2 == 0)))
    sp.case('opened', ret >= 0, AStr(file, k), ARes('fd', ret, dict(path=k, lock=z3.If(w != 0, IntVal(2), IntVal(1)), rd=rd, all=rd, wr=eps, off=IntVal(0),
            tr=(fl / 512) % 2, dirty=IntVal(0), err=IntVal(0), acc=fl % 4)), Pure(blen(rd) >= 0))
    sp.case('failed', ret < 0, AStr(file, k), failed_call(sp))
    return sp


@spec('kvtree_close_with_unlock', file=IO, props=('C16', 'C15'))
def _(e, a, ret):
    sp = Spec()
    file, fd = a
    k, d, lk = sp.u('k', S), fdv(sp), sp.x('lk', I)
    sp.req(opt_str(file, k), fdr(fd, d))
    sp.case('closed', ret == SUCCESS, opt_str(file, k), fdr(fd, d, 'closed', dirty=IntVal(0), ok=IntVal(1), lock=IntVal(0)))
    o = sp.x('ok', I)
    sp.case('failed', ret == FAILURE, opt_str(file, k), fdr(fd, d, 'closed', dirty=IntVal(0), ok=o, lock=lk), failed_call(sp))
    return sp


@spec('kvtree_lseek', file=IO, props=('C16', 'C15'))
def _(e, a, ret):
    sp = Spec()
    file, fd, pos, wh = a
    k, d, rd, al = sp.u('k', S), fdv(sp), sp.x('rd', B), sp.x('all2', B)
    sp.req(opt_str(file, k), fdr(fd, d), Pure(wh == 0))
    sp.case('moved', ret == SUCCESS, opt_str(file, k), fdr(fd, d, off=pos, wr=eps, tr=IntVal(0), rd=rd, all=al))
    sp.case('failed', ret == FAILURE, opt_str(file, k), fdr(fd, d), failed_call(sp))
    return sp


@spec('kvtree_file_is_readable', file=IO, props=('C15',))
def _(e, a, ret):
    sp = Spec()
    k = sp.u('k', S)
    sp.req(AStr(a[0], k))
    sp.case('yes', ret == SUCCESS, AStr(a[0], k))
    sp.case('no', ret == FAILURE, AStr(a[0], k), failed_call(sp))
    return sp


@spec('kvtree_read_attempt', file=IO, props=('C14', 'C16'))
def _(e, a, ret):
    sp = Spec()
    sp.noterm = True          # interruptions may repeat for ever; every other failure is counted in err
    file, fd, buf, size = a
    k, d = sp.u('k', S), fdv(sp)
    sp.req(opt_str(file, k), fdr(fd, d), ABytes(buf, size, None), Pure(And(size < 2 ** 62, d['err'] >= 0)),
           Pure(Implies(NEED == 1, d['lock'] >= 1), 'the lock is held'))
    x_, y_, er = sp.x('got', B), sp.x('left', B), sp.x('errs', I)
    few = And(er >= d['err'], er < d['err'] + MAXTRY)
    sp.case('all', And(ret >= 0, ret == size), opt_str(file, k), ABytes(buf, size, x_), fdr(fd, d, rd=y_, err=er, off=d['off'] + size),
            Pure(d['rd'] == cat(x_, y_), 'every byte once and in order'), Pure(few, 'bounded number of failed attempts'))
    sp.case('eof', And(ret >= 0, ret < size), opt_str(file, k), ABytes(buf, ret, x_), ABytes(buf + ret, size - ret, None),
            fdr(fd, d, rd=eps, err=er, off=d['off'] + ret), Pure(d['rd'] == x_, 'exactly the bytes up to the end of file'), Pure(few, 'bounded number of failed attempts'))
    rd, off = sp.x('rd2', B), sp.x('off2', I)
    sp.case('failed', ret == -1, opt_str(file, k), ABytes(buf, size, None), fdr(fd, d, rd=rd, err=er, off=off),
            Pure(And(er > d['err'], er < d['err'] + MAXTRY), 'failure only after an error, and after a bounded number of attempts'))
    return sp


@spec('kvtree_write_attempt', file=IO, props=('C14', 'C16'))
def _(e, a, ret):
    sp = Spec()
    sp.noterm = True
    file, fd, buf, size = a
    k, d, x_ = sp.u('k', S), fdv(sp), sp.u('data', B)
    sp.req(opt_str(file, k), fdr(fd, d), ABytes(buf, size, x_), Pure(And(size < 2 ** 62, d['err'] >= 0)),
           Pure(Implies(NEED == 1, d['lock'] == 2), 'the exclusive lock is held'))
    er, dt, w = sp.x('errs', I), sp.x('dirty2', I), sp.x('wr2', B)
    few = And(er >= d['err'], er < d['err'] + MAXTRY)
    sp.case('all', And(ret >= 0, ret == size), opt_str(file, k), ABytes(buf, size, x_), fdr(fd, d, wr=w, err=er, dirty=dt),
            Pure(w == cat(d['wr'], x_), 'every byte once and in order'), Pure(few, 'bounded number of failed attempts'))
    sp.case('failed', ret == -1, opt_str(file, k), ABytes(buf, size, x_), fdr(fd, d, wr=w, err=er, dirty=dt),
            Pure(And(er > d['err'], er < d['err'] + MAXTRY), 'failure only after an error, and after a bounded number of attempts'))
    return sp
