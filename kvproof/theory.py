"""Logical theory: trees, paths, strings, byte sequences.

Definitional axioms (recursive definitions unfolded on constructors, with triggers),
assumed facts about the C string/number conversions, and LEMMAS that are proved by
structural induction on every run (prove_lemmas) before they may be used."""
import z3
from z3 import (Int, IntVal, Bool, And, Or, Not, Implies, ForAll, Exists, If, Const, Function, IntSort,
                BoolSort, DeclareSort, Datatype, CreateDatatypes, MultiPattern)

I = IntSort()
S = DeclareSort('Str')
B = DeclareSort('Byt')
# trees and element lists: free datatypes.  They are axiomatised here instead of using z3's datatype
# theory so that case splits happen only where the verifier asks for them.
Tree, List = DeclareSort('Tree'), DeclareSort('List')
Null, Nil = Const('Null', Tree), Const('Nil', List)
Node = Function('Node', List, Tree)
nl = Function('nl', Tree, List)
Cons = Function('Cons', I, I, S, I, Tree, List, List)
ce, ckp, ck, chp, ct, ctl = [Function(n_, List, s_) for n_, s_ in
                             (('ce', I), ('ckp', I), ('ck', S), ('chp', I), ('ct', Tree), ('ctl', List))]
isCons = Function('isCons', List, BoolSort())
isNode = Function('isNode', Tree, BoolSort())


def isNil(l_):
    return l_ == Nil


def isNull(t_):
    return t_ == Null


_P = Datatype('Path')
_P.declare('PNil')
_P.declare('PCons', ('ph', S), ('pt', _P))
Path = _P.create()
PNil, PCons, ph, pt = Path.PNil, Path.PCons, Path.ph, Path.pt

F = Function
app = F('app', List, List, List)
len_ = F('len', List, I)
has = F('has', List, S, BoolSort())
PL = F('PL', List, S, Path, BoolSort())
P = F('P', Tree, Path, BoolSort())
lkh = F('lkh', List, S, I)
lkt = F('lkt', List, S, Tree)
wfL = F('wfL', List, BoolSort())
wfT = F('wfT', Tree, BoolSort())
disj = F('disj', List, List, BoolSort())
djw = F('djw', List, List, S)
psz = F('psz', Tree, I)
pszL = F('pszL', List, I)
okL = F('okL', List, BoolSort())      # every count at every level < 2^31
okT = F('okT', Tree, BoolSort())
lst = F('lst', Tree, List)
# strings
slen = F('slen', S, I)
ssuf = F('ssuf', I, S, S)       # the text from a position on
schr = F('schr', I, S, I)       # the character at a position
sid = F('sid', S, I)                  # identity of literals
itos = F('itos', I, S)                # "%d" / "%lld"
utos = F('utos', I, S)                # "%lu" "%llu"
xtos = F('xtos', I, S)                # "%#x" "%#lx"
ptos = F('ptos', I, S)                # "%p"
atoi = F('atoi', S, I)
strtoul0 = F('strtoul0', S, I)
strtoll0 = F('strtoll0', S, I)
sscanp = F('sscanp', S, I)
sscanp_ok = F('sscanp_ok', S, BoolSort())
scmp = F('scmp', S, S, I)             # sign of strcmp: -1/0/1
# bytes
cat = F('cat', B, B, B)
eps = Const('eps', B)
blen = F('blen', B, I)
be = F('be', I, I, B)
le = F('le', I, I, B)
str0 = F('str0', S, B)
enc = F('enc', Tree, B)
encL = F('encL', List, B)
hdi = F('hdi', I, B, I)               # first n bytes as a big-endian number
tli = F('tli', I, B, B)
hds = F('hds', B, S)
tls = F('tls', B, B)
crcf = F('crc32', B, I)
nonul = F('nonul', B, BoolSort())         # no NUL byte
dropl = F('dropl', List, List, List)       # the second list without its first len(first) elements
catD = F('catD', List, B, B)              # encL(d) ++ y, opened only at its head
rst = F('rst', List, B, B)                # encL(tail of d) ++ y; its definition is used only in the proof of the lemma 'parse'
tried = F('tried', Tree, B, BoolSort())   # always true: marks a candidate for unique parsing
# sorting: multiplicity of an element (given as a one-element list), permutations, parts of a list, array contents
AI = z3.ArraySort(I, I)
cnt = F('cnt', List, List, I)
perm = F('perm', List, List, BoolSort())
permw = F('permw', List, List, List)
dropn = F('dropn', List, I, List)         # without the first n elements
taken = F('taken', List, I, List)         # the first n elements
sgl = F('sgl', List, List)                # the first element alone
cutF = F('cutF', List, List, List)        # elements before / after the first occurrence of an element
cutB = F('cutB', List, List, List)
repE = F('repE', AI, List, I, BoolSort())  # array entries from position n on are the element addresses / key pointers / key numbers
repK = F('repK', AI, List, I, BoolSort())
repI = F('repI', AI, List, I, BoolSort())
lek = F('lek', I, S, S, BoolSort())       # order of two keys: 0 text ascending, 1 text descending, 2 number ascending, 3 number descending
sortedL = F('sortedL', I, List, BoolSort())
cutat = F('cutat', B, B, BoolSort())        # always true: marks a place where equal byte sequences are cut at equal lengths
triedL = F('triedL', List, B, BoolSort())
sameT = F('sameT', Tree, Tree, BoolSort())
sameL = F('sameL', List, List, BoolSort())
swT = F('swT', Tree, Tree, Path)
swk = F('swk', List, List, S)
swq = F('swq', List, List, Path)
bswap = {2: F('bswap16', I, I), 4: F('bswap32', I, I), 8: F('bswap64', I, I)}
band = F('band', I, I, I)
bor = F('bor', I, I, I)
bxor = F('bxor', I, I, I)
bnot = F('bnot', I, I)

a, b, c = Const('a', List), Const('b', List), Const('c', List)
l = Const('l', List)
t, t2 = Const('t', Tree), Const('t2', Tree)
e, kp, hp, n, m, v, w = [Int(x) for x in ['e', 'kp', 'hp', 'n', 'm', 'v', 'w']]
k, k2, k3 = Const('k', S), Const('k2', S), Const('k3', S)
q = Const('q', Path)
x, y, zz = Const('x', B), Const('y', B), Const('zz', B)
cons = Cons(e, kp, k, hp, t, l)
CV = [e, kp, k, hp, t, l]


def FA(vs, body, *pats):
    return ForAll(vs, body, patterns=list(pats))


LIM32 = 2 ** 32
DEFS = []      # (name, formula)
ASSUMED = []   # facts about libc text conversions etc. (trusted)


def D(name, f):
    DEFS.append((name, f))


def A(name, f):
    ASSUMED.append((name, f))


D('cons_free', FA(CV, And(cons != Nil, ce(cons) == e, ckp(cons) == kp, ck(cons) == k, chp(cons) == hp, ct(cons) == t, ctl(cons) == l, isCons(cons)), cons))
D('cons_inv', FA([l], If(isCons(l), l == Cons(ce(l), ckp(l), ck(l), chp(l), ct(l), ctl(l)), l == Nil), isCons(l)))
D('nil_free', Not(isCons(Nil)))
D('node_free', FA([l], And(Node(l) != Null, nl(Node(l)) == l, isNode(Node(l))), Node(l)))
D('node_inv', FA([t], If(isNode(t), t == Node(nl(t)), t == Null), isNode(t)))
D('null_free', Not(isNode(Null)))
D('app_nil', FA([b], app(Nil, b) == b, app(Nil, b)))
D('app_cons', FA(CV + [b], app(cons, b) == Cons(e, kp, k, hp, t, app(l, b)), app(cons, b)))
D('len_nil', len_(Nil) == 0)
D('len_cons', FA(CV, len_(cons) == 1 + len_(l), len_(cons)))
D('has_nil', FA([k2], Not(has(Nil, k2)), has(Nil, k2)))
D('has_cons', FA(CV + [k2], has(cons, k2) == Or(k == k2, has(l, k2)), has(cons, k2)))
D('P_def', FA([t, q], P(t, q) == Or(q == PNil, And(Path.is_PCons(q), PL(lst(t), ph(q), pt(q)))), P(t, q)))
D('PL_nil', FA([k2, q], Not(PL(Nil, k2, q)), PL(Nil, k2, q)))
D('PL_cons', FA(CV + [k2, q], PL(cons, k2, q) == Or(And(k == k2, P(t, q)), PL(l, k2, q)), PL(cons, k2, q)))
D('lkh_cons', FA(CV + [k2], lkh(cons, k2) == If(k == k2, hp, lkh(l, k2)), lkh(cons, k2)))
D('lkh_nil', FA([k2], lkh(Nil, k2) == 0, lkh(Nil, k2)))
D('lkt_cons', FA(CV + [k2], lkt(cons, k2) == If(k == k2, t, lkt(l, k2)), lkt(cons, k2)))
D('lkt_nil', FA([k2], lkt(Nil, k2) == Null, lkt(Nil, k2)))
D('wfL_nil', wfL(Nil))
D('wfL_cons', FA(CV, wfL(cons) == And(Not(has(l, k)), wfT(t), wfL(l)), wfL(cons)))
D('wfT_def', FA([t], wfT(t) == wfL(lst(t)), wfT(t)))
D('disj_1', FA([a, b, k2], Implies(And(disj(a, b), has(a, k2)), Not(has(b, k2))), MultiPattern(disj(a, b), has(a, k2))))
D('disj_2', FA([a, b, k2], Implies(And(disj(a, b), has(b, k2)), Not(has(a, k2))), MultiPattern(disj(a, b), has(b, k2))))
D('disj_3', FA([a, b], Or(disj(a, b), And(has(a, djw(a, b)), has(b, djw(a, b)))), disj(a, b)))
D('psz_def', FA([t], psz(t) == 4 + pszL(lst(t)), psz(t)))
D('pszL_nil', pszL(Nil) == 0)
D('pszL_cons', FA(CV, pszL(cons) == slen(k) + 1 + psz(t) + pszL(l), pszL(cons)))
D('okT_def', FA([t], okT(t) == And(len_(lst(t)) < 2 ** 31, okL(lst(t))), okT(t)))
D('okL_nil', okL(Nil))
D('okL_cons', FA(CV, okL(cons) == And(okT(t), (hp == 0) == (t == Null), okL(l)), okL(cons)))
D('lst_null', lst(Null) == Nil)
D('lst_node', FA([l], lst(Node(l)) == l, lst(Node(l))))
D('slen_ge', FA([k], slen(k) >= 0, slen(k)))
D('enc_def', FA([t], enc(t) == cat(be(4, len_(lst(t))), encL(lst(t))), enc(t)))
D('encL_nil', encL(Nil) == eps)
D('encL_cons', FA(CV, encL(cons) == cat(str0(k), cat(enc(t), encL(l))), encL(cons)))
# byte sequences
D('cat_assoc', FA([x, y, zz], cat(cat(x, y), zz) == cat(x, cat(y, zz)), cat(cat(x, y), zz)))
D('cat_eps_l', FA([x], cat(eps, x) == x, cat(eps, x)))
D('cat_eps_r', FA([x], cat(x, eps) == x, cat(x, eps)))
D('blen_eps', blen(eps) == 0)
D('blen_ge', FA([x], blen(x) >= 0, blen(x)))
D('blen_0', FA([x], Implies(blen(x) == 0, x == eps), blen(x)))
D('blen_cat', FA([x, y], blen(cat(x, y)) == blen(x) + blen(y), cat(x, y)))
_w = Const('w_', B)
D('cut', FA([x, y, zz, _w], And(cutat(zz, _w), Implies(And(cat(x, y) == cat(zz, _w), blen(x) == blen(zz)), And(x == zz, y == _w))), MultiPattern(cat(x, y), cutat(zz, _w))))
D('blen_be', FA([n, v], Implies(n >= 0, blen(be(n, v)) == n), be(n, v)))
D('blen_le', FA([n, v], Implies(n >= 0, blen(le(n, v)) == n), le(n, v)))
D('blen_str0', FA([k], blen(str0(k)) == slen(k) + 1, str0(k)))
D('hdi', FA([n, v, x], Implies(Or(And(n == 2, v >= 0, v < 2 ** 16), And(n == 4, v >= 0, v < 2 ** 32), And(n == 8, v >= 0, v < 2 ** 64)),
                               And(hdi(n, cat(be(n, v), x)) == v, tli(n, cat(be(n, v), x)) == x)), cat(be(n, v), x)))
D('hdi1', FA([n, v], Implies(Or(And(n == 2, v >= 0, v < 2 ** 16), And(n == 4, v >= 0, v < 2 ** 32), And(n == 8, v >= 0, v < 2 ** 64)),
                             hdi(n, be(n, v)) == v), be(n, v)))
D('hds', FA([k, x], And(hds(cat(str0(k), x)) == k, tls(cat(str0(k), x)) == x), cat(str0(k), x)))
D('nonul', FA([k, x], Not(nonul(cat(str0(k), x))), cat(str0(k), x)))
D('nonul1', FA([k], Not(nonul(str0(k))), str0(k)))
D('dropl_nil', FA([b], dropl(Nil, b) == b, dropl(Nil, b)))
D('dropl_cons', FA(CV + [b], dropl(cons, b) == dropl(l, ctl(b)), dropl(cons, b)))
D('catD', FA([a, y], catD(a, y) == If(isCons(a), cat(str0(ck(a)), cat(enc(ct(a)), rst(a, y))), y), catD(a, y)))
D('tried', FA([t, y], And(tried(t, y), triedL(lst(t), y)), tried(t, y)))
D('sameT_1', FA([t, t2, q], Implies(sameT(t, t2), P(t, q) == P(t2, q)), MultiPattern(sameT(t, t2), P(t, q)), MultiPattern(sameT(t, t2), P(t2, q))))
D('sameT_2', FA([t, t2], Or(sameT(t, t2), P(t, swT(t, t2)) != P(t2, swT(t, t2))), sameT(t, t2)))
D('sameL_1', FA([a, b, k2, q], Implies(sameL(a, b), PL(a, k2, q) == PL(b, k2, q)), MultiPattern(sameL(a, b), PL(a, k2, q)), MultiPattern(sameL(a, b), PL(b, k2, q))))
D('sameL_2', FA([a, b], Or(sameL(a, b), PL(a, swk(a, b), swq(a, b)) != PL(b, swk(a, b), swq(a, b))), sameL(a, b)))
for _n in (2, 4, 8):
    _M = 2 ** (8 * _n)
    _bs = bswap[_n]
    D('bswap%d' % _n, FA([v], Implies(And(v >= 0, v < _M), And(_bs(_bs(v)) == v, _bs(v) >= 0, _bs(v) < _M,
                                                               le(_n, _bs(v)) == be(_n, v), be(_n, _bs(v)) == le(_n, v))), _bs(v)))
D('scmp_eq', FA([k, k2], And((scmp(k, k2) == 0) == (k == k2), scmp(k, k2) >= -1, scmp(k, k2) <= 1,
                             scmp(k2, k) == -scmp(k, k2)), scmp(k, k2)))
arr_, o_, j_ = Const('arr', AI), Const('o', I), Const('j', I)
D('cnt_nil', FA([b], cnt(Nil, b) == 0, cnt(Nil, b)))
D('cnt_cons', FA(CV + [b], cnt(cons, b) == cnt(l, b) + If(b == Cons(e, kp, k, hp, t, Nil), 1, 0), cnt(cons, b)))
D('perm_1', FA([a, b, c], Implies(perm(a, b), cnt(a, c) == cnt(b, c)), MultiPattern(perm(a, b), cnt(a, c)), MultiPattern(perm(a, b), cnt(b, c))))
D('perm_2', FA([a, b], Or(perm(a, b), cnt(a, permw(a, b)) != cnt(b, permw(a, b))), perm(a, b)))
D('sgl', FA(CV, sgl(cons) == Cons(e, kp, k, hp, t, Nil), sgl(cons)))
D('dropn', FA([a, n], dropn(a, n) == If(And(n > 0, isCons(a)), dropn(ctl(a), n - 1), a), MultiPattern(dropn(a, n), isCons(a))))
D('dropn_cons', FA(CV + [n], dropn(cons, n) == If(n > 0, dropn(l, n - 1), cons), dropn(cons, n)))
D('taken', FA([a, n], taken(a, n) == If(And(n > 0, isCons(a)), Cons(ce(a), ckp(a), ck(a), chp(a), ct(a), taken(ctl(a), n - 1)), Nil), MultiPattern(taken(a, n), isCons(a))))
D('cutF', FA(CV + [b], cutF(cons, b) == If(b == Cons(e, kp, k, hp, t, Nil), Nil, Cons(e, kp, k, hp, t, cutF(l, b))), cutF(cons, b)))
D('cutB', FA(CV + [b], cutB(cons, b) == If(b == Cons(e, kp, k, hp, t, Nil), l, cutB(l, b)), cutB(cons, b)))
for _r, _f in ((repE, lambda: e), (repK, lambda: kp), (repI, lambda: atoi(k))):
    D('%s_nil' % _r.name(), FA([arr_, n], _r(arr_, Nil, n), _r(arr_, Nil, n)))
    D('%s_cons' % _r.name(), FA([arr_, n] + CV, _r(arr_, cons, n) == And(z3.Select(arr_, n) == _f(), _r(arr_, l, n + 1)), _r(arr_, cons, n)))
D('lek', FA([o_, k, k2], lek(o_, k, k2) == If(o_ == 0, scmp(k, k2) <= 0, If(o_ == 1, scmp(k2, k) <= 0, If(o_ == 2, atoi(k) <= atoi(k2), atoi(k2) <= atoi(k)))), lek(o_, k, k2)))
D('sorted_nil', FA([o_], sortedL(o_, Nil), sortedL(o_, Nil)))
D('sorted_cons', FA([o_] + CV, sortedL(o_, cons) == And(Or(l == Nil, lek(o_, k, ck(l))), sortedL(o_, l)), sortedL(o_, cons)))
# text on standard output: single characters, runs of blanks, strings; the lines of a printed tree
# (mode 1: a line per key, mode 2: key = value).  hgt: number of levels below.
KEYVAL = 2
chB = F('chB', I, B)
blanks = F('blanks', I, B)
txt = F('txt', S, B)
prT = F('prT', I, Tree, I, B)
prL = F('prL', I, List, I, B)
single = F('single', Tree, BoolSort())
hgt = F('hgt', Tree, I)
hgtL = F('hgtL', List, I)


def chars(text, rest):
    for ch_ in reversed(text):
        rest = cat(chB(IntVal(ord(ch_))), rest)
    return rest


i_ = Int('ind')
wid = lambda z: If(z > 0, z, 0)
D('prL_nil', FA([m, i_], prL(m, Nil, i_) == eps, prL(m, Nil, i_)))
D('prT', FA([m, t, i_], prT(m, t, i_) == If(t == Null, cat(blanks(wid(i_)), chars('NULL LIST\n', eps)), prL(m, lst(t), i_ + 2)), prT(m, t, i_)))
D('prL_cons', FA([m, i_] + CV, prL(m, cons, i_) == cat(blanks(wid(i_)), cat(txt(k), If(
    And(m == KEYVAL, single(t)), cat(chars(' = ', eps), cat(txt(ck(lst(t))), cat(chars('\n', eps), prL(m, l, i_)))),
    cat(chars('\n', eps), cat(prT(m, t, i_), prL(m, l, i_)))))), prL(m, cons, i_)))
D('single', FA([t], single(t) == And(isCons(lst(t)), ctl(lst(t)) == Nil, lst(ct(lst(t))) == Nil), single(t)))
D('hgt', FA([t], hgt(t) == hgtL(lst(t)), hgt(t)))
D('hgtL_nil', hgtL(Nil) == 0)
D('hgtL_cons', FA(CV, hgtL(cons) == If(1 + hgt(t) > hgtL(l), 1 + hgt(t), hgtL(l)), hgtL(cons)))
D('blanks_0', blanks(0) == eps)
# numbers <-> text: what libc's printf/scanf families guarantee (trusted)
A('atoi_itos', FA([n], Implies(And(n >= -2 ** 31, n < 2 ** 31), atoi(itos(n)) == n), itos(n)))
A('slen_itos', FA([n], Implies(And(n >= -2 ** 63, n < 2 ** 63), And(slen(itos(n)) >= 1, slen(itos(n)) <= 20,
                               Implies(And(n >= -2 ** 31, n < 2 ** 31), slen(itos(n)) <= 11))), itos(n)))
A('strtoul_utos', FA([n], Implies(And(n >= 0, n < 2 ** 64), And(strtoul0(utos(n)) == n, slen(utos(n)) >= 1, slen(utos(n)) <= 20)), utos(n)))
A('strtoul_xtos', FA([n], Implies(And(n >= 0, n < 2 ** 64), And(strtoul0(xtos(n)) == n, slen(xtos(n)) >= 1, slen(xtos(n)) <= 18)), xtos(n)))
A('strtoll_itos', FA([n], Implies(And(n >= -2 ** 63, n < 2 ** 63), strtoll0(itos(n)) == n), itos(n)))
A('sscanf_ptos', FA([n], Implies(And(n >= 0, n < 2 ** 64), And(sscanp(ptos(n)) == n, sscanp_ok(ptos(n)), slen(ptos(n)) >= 1, slen(ptos(n)) <= 18)), ptos(n)))
A('itos_utos', FA([n], Implies(n >= 0, utos(n) == itos(n)), utos(n)))
# atoi / strtoul agree on short non-negative decimal text
A('strtoul_itos', FA([n], Implies(And(n >= 0, n < 2 ** 63), strtoul0(itos(n)) == n), itos(n)))
A('crc_range', FA([x], And(crcf(x) >= 0, crcf(x) < 2 ** 32), crcf(x)))
A('atoi_range', FA([k], And(atoi(k) >= -2 ** 31, atoi(k) < 2 ** 31), atoi(k)))
A('strtoul_range', FA([k], And(strtoul0(k) >= 0, strtoul0(k) < 2 ** 64, strtoll0(k) >= -2 ** 63, strtoll0(k) < 2 ** 63), strtoul0(k)))
A('strtoll_range', FA([k], And(strtoll0(k) >= -2 ** 63, strtoll0(k) < 2 ** 63), strtoll0(k)))
A('sscanp_range', FA([k], And(sscanp(k) >= 0, sscanp(k) < 2 ** 64), sscanp(k)))

# ---- lemmas, proved by induction over the List argument (trees: over the pair Tree/List)
# each: name, kind, vars, body(list var first), pattern
LEMMAS = []


def L(name, var, others, body, pats, tree_body=None, tree_pats=None, uses=(), tree_others=(), ih_pats=None, tree_ih_pats=None):
    """forall var, others. body.  Proved by induction on var (List).  When tree_body is given the
    statement is proved simultaneously for trees and lists (mutual induction).  uses: definitions used in the proof only;
    ih_pats: triggers of the induction hypotheses."""
    LEMMAS.append(dict(name=name, var=var, others=others, body=body, pats=pats, tree_body=tree_body, tree_pats=tree_pats, uses=list(uses),
                       tree_others=list(tree_others), ih_pats=ih_pats or pats, tree_ih_pats=tree_ih_pats or tree_pats))


L('app_nil_r', a, [], lambda z: app(z, Nil) == z, [lambda z: app(z, Nil)])
L('app_assoc', a, [b, c], lambda z, bb, cc: app(app(z, bb), cc) == app(z, app(bb, cc)), [lambda z, bb, cc: app(app(z, bb), cc)])
L('len_ge', a, [], lambda z: And(len_(z) >= 0, (len_(z) == 0) == (z == Nil)), [lambda z: len_(z)])
L('len_app', a, [b], lambda z, bb: len_(app(z, bb)) == len_(z) + len_(bb), [lambda z, bb: len_(app(z, bb)), lambda z, bb: MultiPattern(app(z, bb), len_(z))])
L('has_app', a, [b, k2], lambda z, bb, kk: has(app(z, bb), kk) == Or(has(z, kk), has(bb, kk)),
  [lambda z, bb, kk: has(app(z, bb), kk), lambda z, bb, kk: MultiPattern(app(z, bb), has(z, kk)), lambda z, bb, kk: MultiPattern(app(z, bb), has(bb, kk))])
L('PL_app', a, [b, k2, q], lambda z, bb, kk, qq: PL(app(z, bb), kk, qq) == Or(PL(z, kk, qq), PL(bb, kk, qq)),
  [lambda z, bb, kk, qq: PL(app(z, bb), kk, qq), lambda z, bb, kk, qq: MultiPattern(app(z, bb), PL(z, kk, qq)), lambda z, bb, kk, qq: MultiPattern(app(z, bb), PL(bb, kk, qq))])
L('P_cons', None, [t, k2, q], lambda tt, kk, qq: PL(lst(tt), kk, qq) == P(tt, PCons(kk, qq)), [lambda tt, kk, qq: PL(lst(tt), kk, qq)])
L('P_nil', None, [t], lambda tt: P(tt, PNil), [lambda tt: P(tt, PNil)])
L('PL_has', a, [k2, q], lambda z, kk, qq: Implies(PL(z, kk, qq), has(z, kk)), [lambda z, kk, qq: PL(z, kk, qq)])
L('has_PL', a, [k2], lambda z, kk: has(z, kk) == PL(z, kk, PNil), [lambda z, kk: has(z, kk), lambda z, kk: PL(z, kk, PNil)])
L('lkh_app', a, [b, k2], lambda z, bb, kk: lkh(app(z, bb), kk) == If(has(z, kk), lkh(z, kk), lkh(bb, kk)), [lambda z, bb, kk: lkh(app(z, bb), kk)])
L('lkt_app', a, [b, k2], lambda z, bb, kk: lkt(app(z, bb), kk) == If(has(z, kk), lkt(z, kk), lkt(bb, kk)), [lambda z, bb, kk: lkt(app(z, bb), kk)])
L('lk_none', a, [k2], lambda z, kk: Implies(Not(has(z, kk)), And(lkh(z, kk) == 0, lkt(z, kk) == Null)), [lambda z, kk: lkh(z, kk), lambda z, kk: lkt(z, kk)])
L('wfL_app', a, [b], lambda z, bb: wfL(app(z, bb)) == And(wfL(z), wfL(bb), disj(z, bb)), [lambda z, bb: wfL(app(z, bb))])
L('psz_ge', a, [], lambda z: And(pszL(z) >= 5 * len_(z), len_(z) >= 0), [lambda z: pszL(z)], tree_body=lambda tt: psz(tt) >= 4, tree_pats=[lambda tt: psz(tt)])
L('pszL_app', a, [b], lambda z, bb: pszL(app(z, bb)) == pszL(z) + pszL(bb), [lambda z, bb: pszL(app(z, bb))])
L('okL_app', a, [b], lambda z, bb: okL(app(z, bb)) == And(okL(z), okL(bb)), [lambda z, bb: okL(app(z, bb))])
L('encL_app', a, [b], lambda z, bb: encL(app(z, bb)) == cat(encL(z), encL(bb)), [lambda z, bb: encL(app(z, bb))])
L('prL_app', a, [b, m, i_], lambda z, bb, mm, ii: prL(mm, app(z, bb), ii) == cat(prL(mm, z, ii), prL(mm, bb, ii)), [lambda z, bb, mm, ii: prL(mm, app(z, bb), ii)])
L('hgtL_ge', a, [], lambda z: hgtL(z) >= 0, [lambda z: hgtL(z)], tree_body=lambda tt: hgt(tt) >= 0, tree_pats=[lambda tt: hgt(tt)])
L('hgtL_app', a, [b], lambda z, bb: hgtL(app(z, bb)) == If(hgtL(z) > hgtL(bb), hgtL(z), hgtL(bb)), [lambda z, bb: hgtL(app(z, bb))])
L('blen_enc', a, [], lambda z: blen(encL(z)) == pszL(z), [lambda z: encL(z)], tree_body=lambda tt: blen(enc(tt)) == psz(tt), tree_pats=[lambda tt: enc(tt)])
L('PL_lk', a, [k2, q], lambda z, kk, qq: Implies(wfL(z), PL(z, kk, qq) == And(has(z, kk), P(lkt(z, kk), qq))), [lambda z, kk, qq: MultiPattern(lkt(z, kk), PL(z, kk, qq))])
L('wf_lk', a, [k2], lambda z, kk: Implies(wfL(z), wfT(lkt(z, kk))), [lambda z, kk: MultiPattern(lkt(z, kk), wfL(z))])
L('okT_lk', a, [k2], lambda z, kk: Implies(okL(z), okT(lkt(z, kk))), [lambda z, kk: MultiPattern(lkt(z, kk), okL(z))])
L('ok_lk', a, [k2], lambda z, kk: Implies(okL(z), (lkh(z, kk) == 0) == (lkt(z, kk) == Null)),
  [lambda z, kk: MultiPattern(lkh(z, kk), okL(z)), lambda z, kk: MultiPattern(lkt(z, kk), okL(z))])


def _parse(z, bb, xx, yy):
    d = dropl(z, bb)
    return Implies(And(cat(encL(z), xx) == cat(encL(bb), yy), okL(z), okL(bb), len_(z) <= len_(bb)),
                   And(xx == catD(d, yy), len_(d) == len_(bb) - len_(z), okL(d),
                       Implies(len_(z) == len_(bb), And(d == Nil, xx == yy, sameL(z, bb), pszL(z) == pszL(bb), encL(z) == encL(bb)))))


def _parseT(U, V, xx, yy):
    return Implies(And(cat(enc(U), xx) == cat(enc(V), yy), okT(U), okT(V)), And(xx == yy, sameT(U, V), psz(U) == psz(V), enc(U) == enc(V)))


# a packed tree can be parsed in one way only
L('parse', a, [b, x, y], _parse, [lambda z, bb, xx, yy: MultiPattern(cat(encL(z), xx), triedL(bb, yy))],
  tree_body=_parseT, tree_others=[t2, x, y], tree_pats=[lambda U, V, xx, yy: MultiPattern(cat(enc(U), xx), tried(V, yy))],
  ih_pats=[lambda z, bb, xx, yy: MultiPattern(cat(encL(z), xx), cat(encL(bb), yy))],
  tree_ih_pats=[lambda U, V, xx, yy: MultiPattern(cat(enc(U), xx), cat(enc(V), yy))],
  uses=[FA([a, y], rst(a, y) == cat(encL(ctl(a)), y), rst(a, y))])


L('cnt_app', a, [b, c], lambda z, bb, cc: cnt(app(z, bb), cc) == cnt(z, cc) + cnt(bb, cc), [lambda z, bb, cc: cnt(app(z, bb), cc)])
L('cnt_ge', a, [b], lambda z, bb: cnt(z, bb) >= 0, [lambda z, bb: cnt(z, bb)])
L('perm_nil', a, [b], lambda z, bb: Implies(And(perm(z, bb), bb == Nil), z == Nil), [lambda z, bb: perm(z, bb)],
  uses=[FA(CV + [b], cnt(cons, sgl(cons)) == cnt(l, sgl(cons)) + 1, perm(cons, b))])
L('drop_end', a, [n], lambda z, nn: And(Implies(nn == len_(z), And(dropn(z, nn) == Nil, taken(z, nn) == z)), Implies(nn == 0, And(dropn(z, nn) == z, taken(z, nn) == Nil))),
  [lambda z, nn: dropn(z, nn), lambda z, nn: taken(z, nn)], uses=[FA([a, n], Or(isCons(a), Not(isCons(a))), dropn(a, n)), FA([a, n], Or(isCons(a), Not(isCons(a))), taken(a, n))])
L('drop_is', a, [n], lambda z, nn: Implies(And(nn >= 0, nn < len_(z)), isCons(dropn(z, nn))), [lambda z, nn: dropn(z, nn)])
L('drop_next', a, [n, j_], lambda z, nn, jj: Implies(And(nn >= 0, nn < len_(z), jj == nn + 1), ctl(dropn(z, nn)) == dropn(z, jj)),
  [lambda z, nn, jj: MultiPattern(dropn(z, nn), dropn(z, jj))])
L('take_next', a, [n, j_], lambda z, nn, jj: Implies(And(jj >= 0, nn == jj + 1, nn <= len_(z)), taken(z, nn) == app(taken(z, jj), sgl(dropn(z, jj)))),
  [lambda z, nn, jj: MultiPattern(taken(z, nn), dropn(z, jj))])
L('cut', a, [b], lambda z, bb: Implies(cnt(z, bb) >= 1, z == app(cutF(z, bb), app(bb, cutB(z, bb)))), [lambda z, bb: MultiPattern(cutF(z, bb), cutB(z, bb))])
for _r, _f in ((repE, ce), (repK, ckp), (repI, lambda z: atoi(ck(z)))):
    L('%s_at' % _r.name(), a, [arr_, n, j_], lambda z, ar, nn, jj, _r=_r, _f=_f: Implies(And(_r(ar, z, nn), nn <= jj, jj < nn + len_(z)), z3.Select(ar, jj) == _f(dropn(z, jj - nn))),
      [lambda z, ar, nn, jj, _r=_r: MultiPattern(_r(ar, z, nn), z3.Select(ar, jj))])
    L('%s_app' % _r.name(), a, [arr_, b, n], lambda z, ar, bb, nn, _r=_r: _r(ar, app(z, bb), nn) == And(_r(ar, z, nn), _r(ar, bb, nn + len_(z))), [lambda z, ar, bb, nn, _r=_r: _r(ar, app(z, bb), nn)])
    L('%s_store' % _r.name(), a, [arr_, n, j_, o_], lambda z, ar, nn, jj, vv, _r=_r: Implies(Or(jj < nn, jj >= nn + len_(z)), _r(z3.Store(ar, jj, vv), z, nn) == _r(ar, z, nn)),
      [lambda z, ar, nn, jj, vv, _r=_r: _r(z3.Store(ar, jj, vv), z, nn)])


def lemma_formula(lm):
    out = []
    vs = ([lm['var']] if lm['var'] is not None else []) + lm['others']
    out.append(FA(vs, lm['body'](*vs), *[p(*vs) for p in lm['pats']]))
    if lm['tree_body']:
        tv = [t] + lm['tree_others']
        out.append(FA(tv, lm['tree_body'](*tv), *[p(*tv) for p in lm['tree_pats']]))
    return out


def mk_solver(timeout=10000, seed=0, relevancy=2):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('smt.relevancy', relevancy)
    s.set('timeout', timeout)
    if seed:
        s.set('smt.random_seed', seed)
    return s


def prove_lemmas(extra=()):
    """-> list of (name, ok, seconds)"""
    import time
    res = []
    known = [f for _, f in DEFS] + [f for _, f in ASSUMED]
    for lm in LEMMAS + list(extra):
        t0 = time.time()
        ok = True
        body, others = lm['body'], lm['others']
        goals = []   # (hyps, goal)
        sk = [z3.FreshConst(o.sort(), 'sk') for o in others]
        if lm['var'] is None:
            # case split on the first (tree) argument
            tt = sk[0]
            goals.append(([Or(tt == Null, tt == Node(nl(tt)))], body(*sk)))
        else:
            def ih(z):
                if others:
                    return [FA(others, body(z, *others), *[p(z, *others) for p in lm['ih_pats']])]
                return [body(z)]
            e0, kp0, hp0 = [z3.FreshConst(I, 'n') for _ in range(3)]
            k0 = z3.FreshConst(S, 'k')
            t0_ = z3.FreshConst(Tree, 't')
            l0 = z3.FreshConst(List, 'l')
            hy = ih(l0)
            if lm['tree_body']:
                to = lm['tree_others']
                tsk = [z3.FreshConst(o.sort(), 'sk') for o in to]
                tc = [Or(x_ == Null, x_ == Node(nl(x_))) for x_ in tsk if x_.sort() == Tree]
                hy = hy + ([FA(to, lm['tree_body'](t0_, *to), *[p(t0_, *to) for p in lm['tree_ih_pats']])] if to else [lm['tree_body'](t0_)])
                # the list of a missing tree is Nil, for which the list statement is proved below without hypotheses
                goals.append((tc + ih(Nil), lm['tree_body'](Null, *tsk)))
                goals.append((tc + ih(l0), lm['tree_body'](Node(l0), *tsk)))
            lc = [Or(x_ == Nil, x_ == Cons(ce(x_), ckp(x_), ck(x_), chp(x_), ct(x_), ctl(x_))) for x_ in sk if x_.sort() == List]
            goals.append((lc, body(Nil, *sk)))
            goals.append((lc + hy, body(Cons(e0, kp0, k0, hp0, t0_, l0), *sk)))
        for hy, g in goals:
            s = mk_solver(20000)
            s.add(*known)
            s.add(*hy)
            s.add(*lm.get('uses', ()))
            parts = [g]
            if z3.is_implies(g):
                s.add(g.arg(0))
                parts = g.arg(1).children() if z3.is_and(g.arg(1)) else [g.arg(1)]
            for part in parts:
                s.push()
                s.add(Not(part))
                if s.check() != z3.unsat:
                    ok = False
                s.pop()
        res.append((lm['name'], ok, time.time() - t0))
        known += lemma_formula(lm)
    # consistency guard: the axioms alone must not prove false
    s = mk_solver(20000)
    s.add(*known)
    res.append(('axioms-not-contradictory', s.check() != z3.unsat, 0.0))
    return res


def background(extra=()):
    fs = [f for _, f in DEFS] + [f for _, f in ASSUMED]
    for lm in LEMMAS + list(extra):
        fs += lemma_formula(lm)
    return fs


if __name__ == '__main__':
    for r in prove_lemmas():
        print(r)
