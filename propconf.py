"""What each check claims, and which failed obligations concern which property."""

FNDEADLINE = 150        # seconds of one verification attempt of one function (a failed or unfinished one is tried again, longer)
SLOW = {'kvtree_exchange_direction_hops': 2, 'kvtree_write_to_gather': 2, 'kvtree_read_scatter_single': 2}      # more time for these

TRUSTED = [
    'kvproof: the verification-condition generator of this framework (symbolic execution of clang\'s AST)',
    'clang 18 parsing of /repo/src into the AST (macro expansion, types, implicit conversions)',
    'z3 (every obligation); lemmas over lists and trees are proved by z3 from the definitions by induction schemes generated by kvproof/theory.py',
    'contracts of libc, zlib and MPI functions in kvproof/builtins.py (malloc, calloc, free, strdup, strcmp, strlen, memcpy, memset, snprintf/asprintf formats, read, write, ...)',
]
ASSUMPTIONS = [
    'allocation either succeeds or the library aborts (kvtree_malloc/strdup failure is fatal or assumed not to happen)',
    'fewer than 2^31 elements per level and a packed size below 2^62',
    'strings passed by the caller do not overlap the tree they are used on',
    'recursion depth and stack use, alignment and signal handlers are not modelled; logging functions have no effect on the properties',
    'partial correctness for recursion on trees: termination of recursive calls follows from the finite trees in the contracts, loop termination is proved where a variant obligation is listed',
]

_h = 'seeded random trees (depth <= 4, adversarial keys: empty, long, bytes > 127, numbers at the integer limits) and operations on the compiled code under AddressSanitizer/UBSan, compared with a reference model written independently; a case is distinct by a hash of its inputs and non-trivial when its tree has at least one element'
_io = 'seeded random trees and fault schedules (short counts, EINTR, persistent errors at every system call, lock failures) against shadowed system calls of the compiled code; distinct by a hash of tree and schedule, non-trivial when a tree with elements or a fault is involved'
_mpi = 'ranks as threads over a simulated MPI scheduled one at a time by the seed (both eager and synchronous sends); distinct by a hash of ranks, pattern and trees, non-trivial when at least one message is sent'

PROPS = {
 'C01': dict(level='proof', rule=_h, bounded='random operation sequences against a reference map (search for a failing input)'),
 'C02': dict(level='proof', rule=_h, bounded='allocation tracking and AddressSanitizer over random operation sequences of the whole tree interface'),
 'C03': dict(level='proof', rule=_h, bounded='random pairs of trees merged and compared with the reference union'),
 'C04': dict(level='proof', rule=_h, bounded='random key/value sequences against the reference model'),
 'C05': dict(level='proof', rule=_h, bounded='typed setters and getters on random and extreme values'),
 'C06': dict(level='proof', rule=_h, bounded='random formats and arguments against the reference path'),
 'C07': dict(level='proof', rule=_h, bounded='random trees with keys at the integer limits sorted and listed'),
 'C08': dict(level='proof', rule=_h, bounded='random trees packed into exactly sized guarded buffers, bytes compared with the documented format'),
 'C09': dict(level='proof', rule=_h, bounded='random trees packed and unpacked from exactly sized guarded buffers'),
 'C10': dict(level='proof', rule=_h, bounded='all positions and sizes around the limits, random values'),
 'C11': dict(level='proof', rule=_h, bounded='random trees persisted and compared with an independent encoder'),
 'C12': dict(level='proof', rule=_io, bounded='write and read back through shadowed system calls with short counts'),
 'C13': dict(level='proof', rule=_io, bounded='mutated, truncated and random files read under AddressSanitizer'),
 'C14': dict(level='proof', rule=_io, bounded='transfers under random schedules of short counts, EINTR and errors'),
 'C15': dict(level='proof', rule=_io, bounded='a fault at every system call of every file operation'),
 'C16': dict(level='proof', rule=_io, bounded='lock discipline checked at every system call, plus concurrent processes'),
 'C17': dict(level='proof', rule=_mpi, bounded='random trees and partners'),
 'C18': dict(level='proof', rule=_mpi, bounded='all destination patterns on few ranks and random sparse patterns on more; absence of deadlock',
             assumptions=['each rank is proved against what the others send (assume-guarantee); that the ranks together satisfy the assumptions of each other follows by induction over the steps (DESIGN.md), not by the verifier',
                          'absence of deadlock between the transfers of the ranks is explored (bounded), not proved', 'fewer than 2^30 ranks']),
 'C19': dict(level='exploration', rule=_mpi, bounded='random trees over 1..n ranks, several segment sizes, damaged sets'),
 'C20': dict(level='exploration', rule=_io, bounded='random sets, prefixes with special characters, damaged parts'),
 'C21': dict(level='proof', rule=_h, bounded='random trees printed and compared line by line'),
 'C22': dict(level='exploration', rule=_h, bounded='every operation with every combination of missing arguments'),
}

MEMORY = {'memory', 'free', 'ownership', 'leak', 'no-leak', 'uninitialised', 'block-size', 'null-dereference', 'dirty', 'list-structure'}
LEAK = {'leak', 'no-leak'}
ALLOC_FNS = {'kvtree_new', 'kvtree_elem_new', 'kvtree_delete', 'kvtree_elem_delete', 'kvtree_elem_init', 'kvtree_malloc', 'kvtree_free'}
NULLCASES = ('null', 'nokey', 'missing', 'refused', 'empty', 'noval', 'discarded')
DESC = {'descriptor', 'lock', 'flush'}


def relevant(prop, fn, f):
    """does failed obligation f of function fn concern the property (fn carries it)?"""
    kind = f['kind']
    nullpath = bool(f.get('null')) or any(kind == 'postcondition (%s)' % c for c in NULLCASES)
    if prop == 'C02':
        return kind in MEMORY or fn in ALLOC_FNS or kind == 'overflow'
    if prop == 'C22':
        return nullpath
    if kind in LEAK:
        return False
    if prop == 'C15':
        return True
    if prop == 'C16':
        return kind in DESC or kind.startswith('postcondition') or kind == 'cases'
    if kind in DESC and prop not in ('C14',):
        return False
    return True
