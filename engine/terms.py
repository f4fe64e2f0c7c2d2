"""Hash-consed value terms and their canonical forms.

A *value* is either a switch node ('sw': a piecewise-constant split of the line
of one linear form) or a leaf: a polynomial over atoms ('poly'), a record
('rec'), a sequence in concatenation / comprehension form ('seq'), or an opaque
atom of record type.  Every constructor in this file returns the canonical form
of the value it builds, so that equality of values is identity of nodes.
"""
import hashlib
import os
import sys
import time
from fractions import Fraction as Fr
from bisect import bisect_right

sys.setrecursionlimit(100000)


class Budget(Exception):
    pass


class Limits:
    deadline = None
    max_nodes = 4000000
    count = 0


def set_budget(seconds):
    Limits.deadline = time.time() + seconds
    Limits.count = 0
    _symn[0] = SYMSEED
    for d in MEMOS:
        d.clear()


MEMOS = []


def memo_table():
    d = {}
    MEMOS.append(d)
    return d


_tbl = {}
_uid = [0]


class T:
    __slots__ = ('op', 'a', 'key', 'h', 'unk', 'kind', 'vt', 'uid', '_at')

    def __repr__(self):
        return show(self)


def _ser(x, out):
    if isinstance(x, T):
        out.append(x.key)
    elif isinstance(x, tuple):
        out.append(b'(')
        for y in x:
            _ser(y, out)
            out.append(b',')
        out.append(b')')
    else:
        out.append(repr(x).encode())


def _hmax(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        m = 0
        for y in x:
            v = _hmax(y)
            if v > m:
                m = v
        return m
    return 0


def _unk(x):
    if isinstance(x, T):
        return x.unk
    if isinstance(x, tuple):
        return any(_unk(y) for y in x)
    return False


def mk(op, a, kind, vt=None, h=None, unk=False):
    k = (op, a, vt)
    t = _tbl.get(k)
    if t is not None:
        return t
    Limits.count += 1
    if Limits.deadline and (Limits.count & 255) == 0 and time.time() > Limits.deadline:
        raise Budget()
    out = [op.encode(), b'|', repr(vt).encode()]
    _ser(a, out)
    t = T()
    t.op = op
    t.a = a
    t.key = hashlib.blake2b(b''.join(out), digest_size=10).digest()
    t.h = _hmax(a) if h is None else h
    t.unk = unk or _unk(a)
    t.kind = kind
    t.vt = vt
    _uid[0] += 1
    t.uid = _uid[0]
    t._at = None
    _tbl[k] = t
    return t


BINDERS = {'for': 2, 'sum': 2, 'prod': 2, 'exists': 2, 'first': 2, 'mu': 0}
# op of every non-atom node
STRUCT = {'poly', 'sw', 'rec', 'seq', 'one', 'spl', 'for'}


def atoms(t):
    """identities of all atoms occurring in t (bound variables excluded)"""
    if t._at is not None:
        return t._at
    s = set()

    def go(x):
        if isinstance(x, T):
            s.update(atoms(x))
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t.a)
    if t.op in ('for', 'sum', 'prod', 'exists', 'first'):
        s.discard(bv(t.a[1]).uid)
    elif t.op == 'mu':
        h = t.a[3]
        s.discard(bv(h).uid)
        for j, vt in enumerate(t.a[4]):
            s.discard(bvx(h, j, vt).uid)
    if t.op not in STRUCT:
        s.add(t.uid)
    t._at = frozenset(s)
    return t._at


def occurs(a, t):
    return a.uid in atoms(t)


# ----------------------------------------------------------------- types
class Types:
    records = {}   # type name -> [(field, type)]
    enums = {}     # type name -> max enumerator value
    aliases = {}


def split_targs(s):
    """'std::vector<int, std::allocator<int>>' -> ('std::vector', ['int', ...])"""
    s = s.strip()
    i = s.find('<')
    if i < 0 or not s.endswith('>'):
        return s, []
    name = s[:i]
    body = s[i + 1:-1]
    out, d, cur = [], 0, ''
    for c in body:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return name, out


def strip_type(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for p in (' const', ' volatile', '&&', '&'):
            if t.endswith(p):
                t = t[:-len(p)].strip()
                ch = True
    return t


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long'}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}
REALS = {'double', 'float', 'long double'}
_tc = {}


def tclass(t):
    """('b'|'i'|'r'|'c',) scalar; ('vec', elem); ('rec', name); ('other', t)"""
    r = _tc.get(t)
    if r is not None:
        return r
    r = _tclass(t)
    _tc[t] = r
    return r


def _tclass(t0):
    t = strip_type(t0)
    t = Types.aliases.get(t, t)
    if t == 'bool':
        return ('b',)
    if t in INTS:
        return ('i',)
    if t in REALS:
        return ('r',)
    if t in Types.enums:
        return ('i',)
    n, a = split_targs(t)
    if n.endswith('multiprecision::number') and a:
        return ('c',) if 'complex' in a[0] else ('r',)
    if n.startswith('boost::multiprecision::detail::expression'):
        return ('r',)
    if n == 'std::complex':
        return ('c',)
    if n in ('std::vector', 'std::deque') and a:
        return ('vec', a[0])
    if n in ('std::array',) and a:
        return ('vec', a[0])
    if n == 'std::initializer_list' and a:
        return ('vec', a[0])
    if n == 'std::pair' and len(a) == 2:
        return ('rec', t)
    if n == 'std::tuple':
        return ('rec', t)
    if t in Types.records:
        return ('rec', t)
    return ('other', t)


def rec_fields(name):
    n, a = split_targs(name)
    if n == 'std::pair':
        return [('first', a[0]), ('second', a[1])]
    if n == 'std::tuple':
        return [(str(i), x) for i, x in enumerate(a)]
    return Types.records[name]


def canon_vt(t):
    t = strip_type(t)
    return Types.aliases.get(t, t)


# ----------------------------------------------------------------- polynomials
KR = {'b': 0, 'i': 1, 'r': 2, 'c': 3}
RK = 'birc'


def _mk_mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    k = 0
    for m, c in items:
        if c.denominator != 1:
            k = max(k, 2)
        else:
            k = max(k, 1)
        for a, e in m:
            k = max(k, KR[a.kind])
            if e < 0:
                k = max(k, 2)
    return mk('poly', tuple(items), RK[k] if items else 'i')


def const(c):
    c = Fr(c)
    return mkpoly({(): c} if c else {})


def pdict(p):
    return dict(p.a)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TRUE, FALSE = ONE, ZERO


def is_const(p):
    return p.op == 'poly' and (not p.a or (len(p.a) == 1 and p.a[0][0] == ()))


def cval(p):
    return p.a[0][1] if p.a else Fr(0)


def apoly(a):
    """polynomial of one atom"""
    return mkpoly({((a, 1),): Fr(1)})


def sym(name, vt, n=None):
    """fresh symbol of a type"""
    _symn[0] += 1
    t = mk('sym', (name, _symn[0]), scalar_kind(vt), vt)
    if n is not None:
        FACTS[t] = n
    else:
        FACTS.pop(t, None)
    return t


_symn = [0]
SYMSEED = int(os.environ.get('SYMSEED', '0'))
RANGES = {}  # atom -> (lo, hi) given by the contract of the function under analysis
FACTS = {}   # bound variable -> exclusive upper bound (poly leaf)
I_ATOM = mk('I', (), 'c')
INF = mk('inf', (), 'i')


def scalar_kind(vt):
    c = tclass(vt)
    if c[0] in KR:
        return c[0]
    return c[0]


def bv(h):
    return mk('bv', (h,), 'i', 'int')


def bvx(h, j, vt):
    return mk('bvx', (h, j), scalar_kind(vt), vt)


def padd(p, q, s=1):
    if not q.a:
        return p
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, Fr(0)) + s * c
    return mkpoly(d)


def pscale(p, c):
    if c == 0:
        return ZERO
    return mkpoly({m: x * c for m, x in p.a})


def mono_mul(m1, m2):
    if not m1:
        return m2, Fr(1)
    if not m2:
        return m1, Fr(1)
    d = dict(m1)
    f = Fr(1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    e = d.get(I_ATOM, 0)
    if e not in (0, 1):
        q, r = divmod(e, 2)
        if q % 2:
            f = -f
        d[I_ATOM] = r
    return _mk_mono(d), f


def pmul(p, q):
    if is_const(q):
        return pscale(p, cval(q))
    if is_const(p):
        return pscale(q, cval(p))
    if len(p.a) * len(q.a) > 4000:
        raise Budget()
    d = {}
    for m1, c1 in p.a:
        for m2, c2 in q.a:
            m, f = mono_mul(m1, m2)
            d[m] = d.get(m, Fr(0)) + c1 * c2 * f
    return mkpoly(d)


def content(p):
    """(coeff, monomial dict, primitive part): p = coeff*mono*prim; leading coeff of prim is 1"""
    g = None
    for m, c in p.a:
        dm = dict(m)
        if g is None:
            g = dict(dm)
        else:
            for a in list(g):
                g[a] = min(g[a], dm.get(a, 0))
            for a in dm:
                if a not in g:
                    g[a] = min(0, dm[a])
    # atoms with negative exponent in only some monomials
    for m, c in p.a:
        dm = dict(m)
        for a, e in dm.items():
            if e < g.get(a, 0):
                g[a] = e
    g = {a: e for a, e in g.items() if e != 0 and a is not I_ATOM}
    d = {}
    for m, c in p.a:
        mm, f = mono_mul(m, _mk_mono({a: -e for a, e in g.items()}))
        d[mm] = d.get(mm, Fr(0)) + c * f
    pr = mkpoly(d)
    lead = pr.a[0][1] if pr.a else Fr(1)
    return lead, g, pscale(pr, 1 / lead)


def pa_atom(prim):
    return mk('pa', (prim,), prim.kind if prim.kind != 'b' else 'i')


def pinv(p):
    if is_const(p):
        if cval(p) == 0:
            return apoly(mk('inv0', (), 'r'))
        return const(1 / cval(p))
    if len(p.a) == 1:
        m, c = p.a[0]
        d = {}
        f = Fr(1)
        for a, e in m:
            if a is I_ATOM:      # 1/I = -I
                f = -f
                d[a] = 1
            else:
                d[a] = -e
        return mkpoly({_mk_mono(d): f / c})
    c, g, pr = content(p)
    d = {a: -e for a, e in g.items()}
    at = pa_atom(pr)
    d[at] = d.get(at, 0) - 1
    return mkpoly({_mk_mono(d): 1 / c})


def factored(p):
    """product form of a polynomial: (coeff, {atom: exp}); a sum becomes one pa atom"""
    if not p.a:
        return Fr(0), {}
    if len(p.a) == 1:
        m, c = p.a[0]
        return c, dict(m)
    c, g, pr = content(p)
    d = dict(g)
    at = pa_atom(pr)
    d[at] = d.get(at, 0) + 1
    return c, d


def pdiv(p, q):
    if is_const(q):
        if cval(q) == 0:
            return pmul(p, pinv(q))
        return pscale(p, 1 / cval(q))
    if len(q.a) > 1 and len(p.a) > 1:
        c1, g1, r1 = content(p)
        c2, g2, r2 = content(q)
        if r1 is r2:
            g = dict(g1)
            for a, e in g2.items():
                g[a] = g.get(a, 0) - e
            return mkpoly({_mk_mono(g): c1 / c2})
    return pmul(p, pinv(q))


def expand_pa(p):
    """clear every denominator sum: multiply p by the product of its pa denominators, expanded"""
    for _ in range(20):
        worst = None
        for m, c in p.a:
            for a, e in m:
                if a.op == 'pa' and (e < 0 or e > 0):
                    worst = a
                    break
            if worst:
                break
        if worst is None:
            return p
        mn = min((dict(m).get(worst, 0) for m, c in p.a))
        base = worst.a[0]
        tot = ZERO
        for m, c in p.a:
            dm = dict(m)
            e = dm.pop(worst, 0) - min(mn, 0)
            q = mkpoly({_mk_mono(dm): c})
            for _i in range(e):
                q = pmul(q, base)
            tot = padd(tot, q)
        p = tot
    return p


# ----------------------------------------------------------------- ranges
def arange(a):
    """(lo, hi) of an atom; None = unbounded"""
    if a in RANGES:
        lo, hi = RANGES[a]
        l, h = arange0(a)
        return (l if lo is None else lo if l is None else max(l, lo),
                h if hi is None else hi if h is None else min(h, hi))
    return arange0(a)


def arange0(a):
    op = a.op
    if op in ('size', 'first', 'bv', 'abs'):
        return (Fr(0), None)
    if a.kind == 'b':
        return (Fr(0), Fr(1))
    if op == 'sym':
        if a in FACTS:
            n = FACTS[a]
            if is_const(n):
                return (Fr(0), cval(n) - 1)
            return (Fr(0), None)
    if op == 'sum':
        if _nonneg_leaves(a.a[2]):
            return (Fr(0), None)
    if a.vt:
        if a.vt in Types.enums:
            return (Fr(0), Fr(Types.enums[a.vt]))
        if a.vt in UNSIGNED:
            return (Fr(0), None)
    if op == 'par':
        return (Fr(0), Fr(1))
    return (None, None)


def ranges_of(c):
    """bounds of single atoms implied by the condition c"""
    out = {}
    while c.op == 'sw' and len(c.a[1]) == 1:
        Q, bs, ch = c.a
        a = Q.a[0][0][0][0] if len(Q.a) == 1 and len(Q.a[0][0]) == 1 and Q.a[0][1] == 1 \
            and Q.a[0][0][0][1] == 1 else None
        lo, hi = out.get(a, (None, None))
        if ch[0] is FALSE:
            if a is not None:
                out[a] = (bs[0][0], hi)
            c = ch[1]
        elif ch[1] is FALSE:
            if a is not None and a.kind in ('b', 'i'):
                out[a] = (lo, bs[0][0] - 1)
            c = ch[0]
        else:
            break
    return out


def _nonneg_leaves(v):
    if v.op == 'sw':
        return all(_nonneg_leaves(c) for c in v.a[2])
    if v.op != 'poly':
        return False
    lo, hi = prange(v, False)
    return lo is not None and lo >= 0


def prange(p, facts=True):
    lo = hi = Fr(0)
    for m, c in p.a:
        if m == ():
            l, h = Fr(1), Fr(1)
        elif len(m) == 1 and m[0][1] == 1:
            l, h = arange(m[0][0])
        else:
            ok = True
            for a, e in m:
                l1, h1 = arange(a)
                if e % 2 == 0 and a.kind in ('i', 'r', 'b'):
                    continue
                if l1 is None or l1 < 0:
                    ok = False
            l, h = (Fr(0) if ok else None), None
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    if facts and p.kind in ('b', 'i', 'r'):
        for m, c in p.a:
            if len(m) == 1 and m[0][1] == 1 and (m[0][0] in FACTS or m[0][0].op == 'first'):
                k = m[0][0]
                # a first index is only meaningful where one exists
                n = FACTS[k] if k in FACTS else k.a[0]
                if n.op != 'poly':
                    continue
                if n is apoly(INF):
                    continue
                # c*k + rest, k <= n-1  (n may be any form)
                q = padd(p, pscale(padd(apoly(k), n, -1), c), -1)
                l2, h2 = prange(q, False)
                if c > 0 and h2 is not None:
                    h2 = h2 - c
                    hi = h2 if hi is None else min(hi, h2)
                if c < 0 and l2 is not None:
                    l2 = l2 - c
                    lo = l2 if lo is None else max(lo, l2)
    return lo, hi


# ----------------------------------------------------------------- switches
_swmemo = memo_table()


def select(v, Q, b, j):
    """the part of v valid in piece j of boundaries b of Q (b refines v's own boundaries)"""
    if v.op == 'sw' and v.a[0] is Q:
        vb = v.a[1]
        pos = 0 if j == 0 else bisect_right(vb, b[j - 1])
        return v.a[2][pos]
    return v


SOLVABLE = ('sym', 'bv', 'fld', 'arg', 'self', 'idx', 'size', 'bvx')


def solve_eq(Q):
    """atom of Q that the equation Q = v determines, with its coefficient"""
    best = None
    for m, c in Q.a:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a in (I_ATOM, INF) or a.op not in (('sym', 'bv') if len(Q.a) > 1 else SOLVABLE):
                continue
            if Q.kind in ('b', 'i'):
                if abs(c) != 1:
                    continue
            elif len(Q.a) > 1:
                continue
            n = 0
            for m2, c2 in Q.a:
                for a2, e2 in m2:
                    if occurs(a, a2):
                        n += 1
            if n != 1:
                continue
            # prefer to eliminate bound variables last-created, otherwise by key
            if best is None or a.key > best[0].key:
                best = (a, c)
    return best


DC = None


def hasdc(Q):
    return DC is not None and any(a.op == 'unk' and a.a == ('idx-empty',) for m, _ in Q.a for a, _e in m)


def join(children):
    """the value of a switch whose condition is an undefined read: canonical ordering may have moved
    that condition out of the guard that makes it irrelevant, so what all outcomes agree on stands"""
    def f(*ls):
        d = [l for l in ls if l is not DC]
        return d[0] if d and all(x is d[0] for x in d) else DC
    return lift(f, *children, strict=False)


def mk_sw(Q, bounds, children):
    """canonical piecewise value.  bounds: sorted tuple of (Fr, side); len(children)=len(bounds)+1"""
    bounds = tuple(bounds)
    children = tuple(children)
    if not bounds:
        return children[0]
    f = children[0]
    if all(c is f for c in children):
        return f
    r = _swmemo.get((Q, bounds, children))
    if r is not None:
        return r
    b, ch = list(bounds), list(children)
    # 0. reads outside an empty vector: such a branch has no defined behaviour
    if Q.unk and hasdc(Q):
        return join(children)
    if DC is not None and not UNROLL:
        while b and ch[0] is DC:
            b.pop(0)
            ch.pop(0)
        while b and ch[-1] is DC:
            b.pop()
            ch.pop()
        if not b:
            return ch[0]
    isint = Q.kind in ('b', 'i')
    # 1. domain
    lo, hi = prange(Q)
    if lo is not None:
        while b and (b[0][0] < lo or (b[0] == (lo, 0))):
            b.pop(0)
            ch.pop(0)
    if hi is not None:
        while b and (b[-1][0] > hi or (b[-1] == (hi, 1)) ):
            b.pop()
            ch.pop()
    if not b:
        return ch[0]
    # 2. equality pieces
    se = None
    tried = False
    for j in range(len(ch)):
        pt = None
        if j > 0 and j < len(b):
            if isint:
                if b[j][0] - b[j - 1][0] == 1:
                    pt = b[j - 1][0]
            elif b[j][0] == b[j - 1][0]:
                pt = b[j][0]
        elif isint and j == 0 and lo is not None and b[0][0] == lo + 1:
            pt = lo
        elif isint and j == len(b) and hi is not None and b[-1][0] == hi:
            pt = hi
        elif not isint and j == 0 and lo is not None and b[0] == (lo, 1):
            pt = lo
        if pt is None:
            continue
        if not tried:
            se = solve_eq(Q)
            tried = True
        if se is None:
            break
        a, c = se
        rest = padd(const(pt), mkpoly({m: x for m, x in Q.a if m != ((a, 1),)}), -1)
        val = pscale(rest, 1 / c)
        m = {a: val}
        if a.op == 'size' and val is ZERO:
            if occurs(a.a[0], ch[j]):
                ch[j] = subst(ch[j], {a: val, a.a[0]: EMPTY})
        elif occurs(a, ch[j]):
            ch[j] = subst(ch[j], m)
        # a neighbour that already describes this point absorbs it
        for nb in (j + 1, j - 1):
            if 0 <= nb < len(ch) and ch[nb] is not ch[j] and occurs(a, ch[nb]):
                if subst(ch[nb], m) is ch[j] or a.op == 'size' and val is ZERO and \
                        subst(ch[nb], {a: val, a.a[0]: EMPTY}) is ch[j]:
                    ch[j] = ch[nb]
                    break
    # 3. order
    minq = None
    for c in ch:
        if c.op == 'sw' and c.a[0] is not Q and c.a[0].key < Q.key:
            if minq is None or c.a[0].key < minq.key:
                minq = c.a[0]
    if minq is not None:
        bs = sorted(set(x for c in ch if c.op == 'sw' and c.a[0] is minq for x in c.a[1]))
        bs = tuple(bs)
        r = mk_sw(minq, bs, [mk_sw(Q, tuple(b), [select(c, minq, bs, j) for c in ch])
                             for j in range(len(bs) + 1)])
        _swmemo[(Q, bounds, children)] = r
        return r
    # 4. same-form children
    if any(c.op == 'sw' and c.a[0] is Q for c in ch):
        nb, nc = [], []
        for j, c in enumerate(ch):
            l = b[j - 1] if j else None
            h = b[j] if j < len(b) else None
            if j:
                nb.append(l)
            if c.op == 'sw' and c.a[0] is Q:
                vb, vc = c.a[1], c.a[2]
                s = 0 if l is None else bisect_right(vb, l)
                nc.append(vc[s])
                while s < len(vb) and (h is None or vb[s] < h):
                    nb.append(vb[s])
                    s += 1
                    nc.append(vc[s])
            else:
                nc.append(c)
        r = mk_sw(Q, nb, nc)
        return r
    # 5. merge
    nb, nc = [], [ch[0]]
    for j in range(len(b)):
        if ch[j + 1] is nc[-1]:
            continue
        nb.append(b[j])
        nc.append(ch[j + 1])
    if not nb:
        return nc[0]
    k = nc[0].kind
    for c in nc:
        if c.kind in KR and k in KR and KR[c.kind] > KR[k]:
            k = c.kind
    r = mk('sw', (Q, tuple(nb), tuple(nc)), k)
    # (the result depends on the facts of Q's symbols, which never change)
    _swmemo[(Q, bounds, children)] = r
    return r


def nleaves(v, memo=None):
    if v.op != 'sw':
        return 1
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = sum(nleaves(c, memo) for c in v.a[2])
        memo[v] = r
    return r


def lift(f, *vals, strict=True):
    """apply f on the leaves of vals, switches moved outwards"""
    memo = {}

    def go(vs):
        r = memo.get(vs)
        if r is not None:
            return r
        q = None
        for v in vs:
            if v.op == 'sw' and (q is None or v.a[0].key < q.key):
                q = v.a[0]
        if q is None:
            r = DC if strict and DC in vs else f(*vs)
        else:
            bs = tuple(sorted(set(x for v in vs if v.op == 'sw' and v.a[0] is q for x in v.a[1])))
            r = mk_sw(q, bs, [go(tuple(select(v, q, bs, j) for v in vs))
                              for j in range(len(bs) + 1)])
        memo[vs] = r
        if len(memo) > 60000:
            raise Budget()
        return r
    return go(tuple(vals))


_itememo = memo_table()


def ite(c, a, b):
    if a is b:
        return a
    r = _itememo.get((c, a, b))
    if r is None:
        r = _itememo[(c, a, b)] = _ite(c, a, b)
    return r


def _ite(c, a, b):
    if c.op == 'poly':
        if is_const(c):
            return a if cval(c) != 0 else b
        if c.unk and hasdc(c):
            return join((a, b))
        return ite(ne(c, ZERO), a, b)
    q = c.a[0]
    for v in (a, b):
        if v.op == 'sw' and v.a[0].key < q.key:
            q = v.a[0]
    vs = (c, a, b)
    bs = tuple(sorted(set(x for v in vs if v.op == 'sw' and v.a[0] is q for x in v.a[1])))
    return mk_sw(q, bs, [ite(*[select(v, q, bs, j) for v in vs]) for j in range(len(bs) + 1)])


def not_(c):
    return lift(lambda p: (FALSE if (is_const(p) and cval(p) != 0) else TRUE) if is_const(p)
                else eq(p, ZERO), c)


def and_(a, b):
    return ite(a, tobool(b), FALSE)


def or_(a, b):
    return ite(a, TRUE, tobool(b))


def tobool(v):
    return lift(lambda p: (TRUE if cval(p) != 0 else FALSE) if is_const(p) else ne(p, ZERO), v)


def constrain(v, c):
    """v simplified where only its value under c matters"""
    memo = {}

    def go(v, c):
        if c is TRUE or v.op != 'sw':
            return v
        if c.op != 'sw':
            return v
        r = memo.get((v, c))
        if r is not None:
            return r
        q = v.a[0] if v.a[0].key <= c.a[0].key else c.a[0]
        bs = tuple(sorted(set(x for w in (v, c) if w.a[0] is q for x in w.a[1])))
        parts = []
        for j in range(len(bs) + 1):
            cj = select(c, q, bs, j)
            parts.append(None if cj is FALSE else go(select(v, q, bs, j), cj))
        last = next((p for p in parts if p is not None), v)
        out = []
        for p in parts:
            if p is None:
                out.append(last)
            else:
                out.append(p)
                last = p
        r = mk_sw(q, bs, out)
        memo[(v, c)] = r
        return r
    return go(v, c)


# ----------------------------------------------------------------- scalar operations
def add(x, y):
    return lift(padd, x, y)


def sub_(x, y):
    return lift(lambda p, q: padd(p, q, -1), x, y)


def mul(x, y):
    return lift(pmul, x, y)


def div(x, y):
    return lift(pdiv, x, y)


def neg(x):
    return lift(lambda p: pscale(p, -1), x)


def scale(x, c):
    return lift(lambda p: pscale(p, Fr(c)), x)


def _norm(d):
    """d = g*Q + c with Q canonical"""
    dd = dict(d.a)
    c = dd.pop((), Fr(0))
    items = sorted(dd.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    if d.kind in ('b', 'i') and all(x.denominator == 1 for _, x in items):
        from math import gcd
        g = 0
        for _, x in items:
            g = gcd(g, abs(x.numerator))
        g = Fr(g) if lead > 0 else Fr(-g)
    else:
        g = lead
    return mkpoly({m: x / g for m, x in items}), g, c


def _ceil(x):
    return Fr(-((-x.numerator) // x.denominator))


def _floor(x):
    return Fr(x.numerator // x.denominator)


def zero_one_complement(Q):
    """Q = n - sum_{k<n} [c]  ->  sum_{k<n} [not c];  also undoes a complemented count"""
    if len(Q.a) < 2:
        return None
    for m, c in Q.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and abs(c) == 1:
            s = m[0][0]
            n, h, body = s.a
            if not _is01(body):
                continue
            rest = padd(Q, mkpoly({m: c}), -1)
            if rest is pscale(n, -c):
                fs = sym('k', 'int', n)
                b2 = subst(body, {bv(h): apoly(fs)})
                return pscale1(sum_(n, fs, not_(b2)), -c)
    return None


def pscale1(v, c):
    return lift(lambda p: pscale(p, c), v)


def _is01(v):
    if v.op == 'sw':
        return all(_is01(c) for c in v.a[2])
    return v is ZERO or v is ONE


def _cmp0(d, rel):
    """d rel 0 for a polynomial d; rel in lt, le, eq"""
    if is_const(d):
        c = cval(d)
        return TRUE if {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[rel] else FALSE
    if rel == 'eq' and len(d.a) == 1:
        # a product is zero iff a factor is
        m, c = d.a[0]
        pos = [a for a, e in m if e > 0 and a is not I_ATOM and a.op not in ('exp',)]
        if not pos:
            return FALSE
        if len(pos) > 1 or m != ((pos[0], 1),):
            r = FALSE
            for a in pos:
                r = or_(r, _cmp0(apoly(a), 'eq'))
            return r
        a = pos[0]
        if a.op == 'pa':
            return _cmp0(a.a[0], 'eq')
        if a.op == 'abs':
            return eq(a.a[0], ZERO)
        if a.op == 'prod':
            n, h, body = a.a
            fs = sym('k', 'int', n)
            return exists_(n, fs, eq(subst(body, {bv(h): apoly(fs)}), ZERO))
    if rel == 'eq' and d.kind == 'c':
        re, im = _reim(d, 're'), _reim(d, 'im')
        if re is not d:
            return and_(_cmp0(re, 'eq'), _cmp0(im, 'eq'))
    Q, g, c = _norm(d)
    isint = d.kind in ('b', 'i')
    z = zero_one_complement(Q) if isint else None
    if z is not None:
        v = add(scale(z, g), const(c))
        return lift(lambda p: _cmp0(p, rel), v)
    x = -c / g
    if rel == 'eq':
        if isint:
            if x.denominator != 1:
                return FALSE
            r = mk_sw(Q, ((x, 0), (x + 1, 0)), (FALSE, TRUE, FALSE))
        else:
            r = mk_sw(Q, ((x, 0), (x, 1)), (FALSE, TRUE, FALSE))
        return _count_exists(r)
    strict = rel == 'lt'
    if isint:
        if g > 0:      # Q < x / Q <= x
            b = _ceil(x) if strict else _floor(x) + 1
            r = mk_sw(Q, ((b, 0),), (TRUE, FALSE))
        else:
            b = _floor(x) + 1 if strict else _ceil(x)
            r = mk_sw(Q, ((b, 0),), (FALSE, TRUE))
        return _count_exists(r)
    if g > 0:
        return mk_sw(Q, ((x, 0 if strict else 1),), (TRUE, FALSE))
    return mk_sw(Q, ((x, 1 if strict else 0),), (FALSE, TRUE))


def _count_exists(r):
    """a 0/1 count compared with zero is an existential"""
    if r.op == 'sw' and r.a[1] == ((Fr(1), 0),):
        Q = r.a[0]
        if len(Q.a) == 1 and Q.a[0][1] == 1 and len(Q.a[0][0]) == 1:
            a, e = Q.a[0][0][0]
            if e == 1 and a.op == 'sum' and _nonneg_const(a.a[2]):
                n, h, body = a.a
                fs = sym('k', 'int', n)
                ex = exists_(n, fs, ne(subst(body, {bv(h): apoly(fs)}), ZERO))
                return ite(ex, r.a[2][1], r.a[2][0])
    return r


def _nonneg_const(v):
    if v.op == 'sw':
        return all(_nonneg_const(c) for c in v.a[2])
    return v.op == 'poly' and is_const(v) and cval(v) >= 0


def _leafop(l):
    return l.op == 'poly'


def cmpv(x, y, rel):
    def f(p, q):
        if p.op != 'poly' or q.op != 'poly':
            return unkb('cmp', p, q)
        return _cmp0(padd(p, q, -1), rel)
    return lift(f, x, y)


def lt(x, y):
    return cmpv(x, y, 'lt')


def le(x, y):
    return cmpv(x, y, 'le')


def eq(x, y):
    def f(p, q):
        if p is q:
            return TRUE
        if p.op == 'poly' and q.op == 'poly':
            return _cmp0(padd(p, q, -1), 'eq')
        if p.op == 'seq' and q.op == 'seq':
            return seq_eq(p, q)
        if p.op == 'rec' or q.op == 'rec' or (p.vt and tclass(p.vt)[0] == 'rec'):
            t = p.a[0] if p.op == 'rec' else p.vt
            n, _ = split_targs(t)
            if n in ('std::pair', 'std::tuple'):
                r = TRUE
                for fn, ft in rec_fields(t):
                    r = and_(r, eq(fld(p, fn), fld(q, fn)))
                return r
        return unkb('eq', p, q)
    return lift(f, x, y)


def ne(x, y):
    return not1(eq(x, y))


def not1(c):
    return lift(lambda p: TRUE if p is FALSE else FALSE if p is TRUE else eq(p, ZERO), c)


def unkb(tag, *a):
    t = mk('unk', (tag,) + a, 'b', 'bool', unk=True)
    return from_atom(t)


def unkv(tag, vt, *a):
    c = tclass(vt)
    t = mk('unk', (tag,) + a, c[0], canon_vt(vt), unk=True)
    return from_atom(t)


def from_atom(a):
    """value of an atom according to its type"""
    c = tclass(a.vt) if a.vt else (a.kind,)
    if c[0] == 'b':
        lo_hi = mk_sw(apoly(a), ((Fr(1), 0),), (FALSE, TRUE))
        return lo_hi
    if c[0] in KR:
        return apoly(a)
    if c[0] == 'vec':
        return mk_seq([mk('spl', (a,), 'seq')])
    return a


def absv(x):
    def f(p):
        if is_const(p):
            return const(abs(cval(p)))
        if p.kind in ('b', 'i'):
            lo, hi = prange(p)
            if lo is not None and lo >= 0:
                return p
            if hi is not None and hi <= 0:
                return pscale(p, -1)
        c, d = factored(p)
        r = const(abs(c))
        for a, e in d.items():
            if a is I_ATOM:
                continue
            if a.kind in ('b', 'i', 'r'):
                l, h = arange(a)
                if (l is not None and l >= 0) or e % 2 == 0:
                    r = pmul(r, mkpoly({((a, e),): Fr(1)}))
                    continue
            base = a.a[0] if a.op == 'pa' else apoly(a)
            at = mk('abs', (base,), 'i' if base.kind in ('b', 'i') else 'r')
            r = pmul(r, mkpoly({((at, e),): Fr(1)}))
        return r
    return lift(f, x)


def un(op, x, kind='r', ident=None):
    def f(p):
        if p.op != 'poly':
            return unkv('un-' + op, 'double', p)
        if ident and p.kind in ident:
            return p
        return apoly(mk(op, (p,), kind))
    return lift(f, x)


def real(x):
    def f(p):
        return _reim(p, 're')
    return lift(f, x)


def imag(x):
    return lift(lambda p: _reim(p, 'im'), x)


def _reim(p, w):
    """real/imaginary part: linear over real-valued monomials, I times real split off"""
    d_re, d_im, rest = {}, {}, {}
    for m, c in p.a:
        cx = [a for a, e in m if a.kind == 'c' and a is not I_ATOM]
        if cx:
            rest[m] = c
        else:
            dm = dict(m)
            if dm.pop(I_ATOM, 0):
                d_im[_mk_mono(dm)] = c
            else:
                d_re[m] = c
    out = mkpoly(d_re if w == 're' else d_im)
    # group the complex monomials by their real cofactor
    groups = {}
    for m, c in rest.items():
        realpart = _mk_mono({a: e for a, e in m if a.kind != 'c'})
        cpart = _mk_mono({a: e for a, e in m if a.kind == 'c'})
        groups.setdefault(realpart, {})
        groups[realpart][cpart] = groups[realpart].get(cpart, 0) + c
    for rp, dd in groups.items():
        q = mkpoly(dd)
        s = Fr(1)
        lead = q.a[0][1]
        if lead != 1:
            q, s = pscale(q, 1 / lead), lead
        out = padd(out, mkpoly({mono_mul(rp, ((mk(w, (q,), 'r'), 1),))[0]: s}))
    return out


def complex_(re, im):
    def f(p, q):
        # complex(re(x), im(x)) = x
        if p.kind == 'c' or q.kind == 'c':
            return apoly(mk('cplx', (p, q), 'c'))
        d = dict(p.a)
        e = dict(q.a)
        out = ZERO
        for m, c in list(d.items()):
            for a, ex in m:
                if a.op == 're' and ex == 1:
                    m2 = dict(m)
                    m2.pop(a)
                    im_a = mk('im', a.a, 'r')
                    m2[im_a] = 1
                    mm = _mk_mono(m2)
                    if e.get(mm) == c:
                        m3 = dict(m)
                        m3.pop(a)
                        out = padd(out, pmul(mkpoly({_mk_mono(m3): c}), a.a[0]))
                        d.pop(m)
                        e.pop(mm)
                        break
        out = padd(out, mkpoly(d))
        return padd(out, pmul(mkpoly(e), apoly(I_ATOM)))
    return lift(f, re, im)


def expv(x):
    def f(p):
        r = ONE
        for m, c in p.a:
            if c.denominator == 1:
                r = pmul(r, mkpoly({((mk('exp', (mkpoly({m: Fr(1)}),), _ek(p)), int(c)),): Fr(1)}))
            else:
                s = 1 if c > 0 else -1
                r = pmul(r, mkpoly({((mk('exp', (mkpoly({m: abs(c)}),), _ek(p)), s),): Fr(1)}))
        return r
    return lift(f, x)


def _ek(p):
    return 'c' if p.kind == 'c' else 'r'


def parity(p):
    """p mod 2 for an integer polynomial -> 0/1 value"""
    if p.kind not in ('b', 'i'):
        return None
    d = {}
    for m, c in p.a:
        if c.denominator != 1:
            return None
        if c.numerator % 2:
            mm = tuple((a, 1) for a, e in m)
            d[mm] = d.get(mm, 0) + 1
    odd = 0
    q = {}
    for m, c in d.items():
        if c % 2:
            if m == ():
                odd = 1
            else:
                q[m] = Fr(1)
    if not q:
        return ONE if odd else ZERO
    at = mk('par', (mkpoly(q),), 'b', 'bool')
    v = mk_sw(apoly(at), ((Fr(1), 0),), (ZERO, ONE))
    return not_(v) if odd else v


def powv(b, e):
    def f(p, q):
        if p.op != 'poly' or q.op != 'poly':
            return unkv('pow', 'double', p, q)
        return _pow(p, q)
    return lift(f, b, e)


def _pow(p, q):
    if is_const(q) and cval(q).denominator == 1:
        n = int(cval(q))
        if abs(n) <= 12:
            r = ONE
            base = p if n >= 0 else pinv(p)
            for _ in range(abs(n)):
                r = pmul(r, base)
            return r
    if p is ONE:
        return ONE
    if is_const(p) and cval(p) < 0:
        if q.kind in ('b', 'i'):
            par = parity(q)
            if par is not None:
                mag = _pow(const(-cval(p)), q)
                return mul(ite(par, MONE, ONE), mag)
    if p is ZERO:
        if is_const(q):
            return ZERO if cval(q) > 0 else apoly(mk('inv0', (), 'r'))
        return ite(_cmp0(q, 'eq'), ONE, ZERO)
    c, d = factored(p)
    r = ONE
    if c != 1:
        if c < 0:
            if q.kind in ('b', 'i') and parity(q) is not None:
                r = mul(ite(parity(q), MONE, ONE), _patom(const(-c), q))
            else:
                r = _patom(const(c), q)
        else:
            r = _patom(const(c), q)
    for a, e in sorted(d.items(), key=lambda x: x[0].key):
        r = mul(r, _patom(apoly(a), pscale(q, e)))
    return r


def _patom(base, q):
    """base (atom or positive constant) ^ q"""
    dd = dict(q.a)
    c = dd.pop((), Fr(0))
    out = ONE
    if c.denominator == 1 and c != 0:
        b = base if c > 0 else pinv(base)
        if abs(c) > 12:
            dd[()] = c
        else:
            for _ in range(abs(int(c))):
                out = pmul(out, b)
    elif c != 0:
        dd[()] = c
    if not dd:
        return out
    q2 = mkpoly(dd)
    s = 1
    if q2.a[0][1] < 0:
        q2 = pscale(q2, -1)
        s = -1
    if len(base.a) == 1 and base.a[0][1] == 1 and base.a[0][0] and base.a[0][0][0][0].op == 'exp' and base.a[0][0][0][1] == 1:
        x = expv(pmul(base.a[0][0][0][0].a[0], q2))
        return pmul(out, x if s == 1 else pinv(x))
    if q2.kind in ('b', 'i') and len(q2.a) > 1:
        # split x^(a+b) into x^a x^b
        for m, cc in q2.a:
            out = pmul(out, _patom(base, mkpoly({m: s * cc})))
        return out
    at = mk('pow', (base, q2), 'c' if base.kind == 'c' else 'r')
    return pmul(out, mkpoly({((at, s),): Fr(1)}))


def mod2(x):
    def f(p):
        r = parity(p)
        return r if r is not None else unkv('mod', 'int', p)
    return lift(f, x)


def modv(x, y):
    def f(p, q):
        if is_const(p) and is_const(q) and cval(q) != 0:
            import math
            return const(int(math.fmod(int(cval(p)), int(cval(q)))))
        if q is const(2):
            lo, hi = prange(p)
            r = parity(p)
            if r is not None:
                if lo is not None and lo >= 0:
                    return r
                return ite(r, ite(_cmp0(p, 'lt'), MONE, ONE), ZERO)
        return apoly(mk('mod', (p, q), 'i'))
    return lift(f, x, y)


def idiv(x, y):
    def f(p, q):
        if is_const(q) and abs(cval(q)) == 1:
            return pscale(p, cval(q))
        if is_const(p) and is_const(q) and cval(q) != 0:
            return const(int(cval(p) / cval(q)))
        return apoly(mk('idiv', (p, q), 'i'))
    return lift(f, x, y)


def minmax(x, y, w):
    c = lt(y, x)
    return ite(c, y, x) if w == 'min' else ite(c, x, y)


# ----------------------------------------------------------------- records
def mk_rec(tname, fields):
    """fields: dict name -> value"""
    names = [f for f, _ in rec_fields(tname)]

    def f(*leaves):
        base = None
        ok = bool(names)
        for n, l in zip(names, leaves):
            b = _fld_base(l, n)
            if b is None or (base is not None and b is not base):
                ok = False
                break
            base = b
        if ok and base is not None and canon_vt(base.vt) == canon_vt(tname):
            return base
        return mk('rec', (tname, tuple(zip(names, leaves))), 'rec', tname)
    vals = []
    bools = []
    for n, t in rec_fields(tname):
        v = fields[n]
        vals.append(v)
    return lift(f, *vals)


def _fld_base(l, n):
    a = None
    if l.op == 'poly':
        if len(l.a) == 1 and l.a[0][1] == 1 and len(l.a[0][0]) == 1 and l.a[0][0][0][1] == 1:
            a = l.a[0][0][0][0]
    elif l.op == 'seq':
        if len(l.a) == 1 and l.a[0].op == 'spl':
            a = l.a[0].a[0]
    else:
        a = l
    if a is not None and a.op == 'fld' and a.a[1] == n:
        return a.a[0]
    return None


def fld(v, name):
    def f(l):
        if l.op == 'rec':
            for n, x in l.a[1]:
                if n == name:
                    return x
            return unkv('field-' + name, 'int', l)
        c = tclass(l.vt) if l.vt else ('?',)
        if c[0] == 'rec':
            for n, t in rec_fields(c[1]):
                if n == name:
                    return from_atom(mk('fld', (l, name), scalar_kind(t), canon_vt(t)))
        return unkv('field-' + name, 'int', l)
    return lift(f, v)


def set_fld(v, name, val):
    def f(l, x):
        t = l.a[0] if l.op == 'rec' else l.vt
        if t is None:
            return mk('unk', ('setfld', l, name, x), 'rec', 'int', unk=True)
        if tclass(t)[0] != 'rec':
            return mk('unk', ('setfld', l, name, x), 'rec', t, unk=True)
        d = {n: fld(l, n) for n, _ in rec_fields(t)}
        d[name] = x
        return mk_rec(t, d)
    return lift(f, v, val)


def default_value(t):
    """value-initialised object of type t (records: caller handles constructors)"""
    c = tclass(t)
    if c[0] in KR:
        return ZERO
    if c[0] == 'vec':
        return EMPTY
    if c[0] == 'rec' and split_targs(c[1])[0] in ('std::pair', 'std::tuple'):
        return mk_rec(c[1], {n: default_value(ft) for n, ft in rec_fields(c[1])})
    return None


# ----------------------------------------------------------------- sequences
def mk_seq(segs):
    segs = [s for s in segs]
    # merge a comprehension with an adjacent element that continues it
    ch = True
    while ch:
        ch = False
        for i in range(len(segs) - 1):
            x, y = segs[i], segs[i + 1]
            if x.op == 'for' and y.op == 'one':
                n, h, body = x.a
                b = _single(body)
                if b is not None:
                    if subst(b, {bv(h): n}) is y.a[0]:
                        fs = sym('k', 'int', None)
                        v = for_(padd(n, ONE), fs, subst(body, {bv(h): apoly(fs)}))
                        if v.op == 'seq' and len(v.a) == 1:
                            segs[i:i + 2] = list(v.a)
                            ch = True
                            break
            if x.op == 'one' and y.op == 'for':
                n, h, body = y.a
                fs = sym('k', 'int', None)
                b = _single(body)
                if b is not None:
                    b1 = subst(b, {bv(h): padd(apoly(fs), MONE)})
                    if subst(b1, {fs: ZERO}) is x.a[0] and b1 is not x.a[0]:
                        v = for_(padd(n, ONE), fs, one(b1))
                        if v.op == 'seq' and len(v.a) == 1:
                            segs[i:i + 2] = list(v.a)
                            ch = True
                            break
            if (x.op == 'for' and y.op == 'for' and x.a[2] is y.a[2]
                    and bv(x.a[1]).uid not in atoms(x.a[2])):
                fs = sym('k', 'int', None)
                v = for_(padd(x.a[0], y.a[0]), fs, x.a[2])
                if v.op == 'seq' and len(v.a) == 1:
                    segs[i:i + 2] = list(v.a)
                    ch = True
                    break
    return mk('seq', tuple(segs), 'vec')


def _single(body):
    """body is exactly one element (whatever the switches): its element value, else None"""
    if body.op == 'sw':
        parts = [_single(c) for c in body.a[2]]
        if any(p is None for p in parts):
            return None
        return mk_sw(body.a[0], body.a[1], parts)
    if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'one':
        return body.a[0].a[0]
    return None


EMPTY = mk('seq', (), 'vec')


def one(v):
    return lift(lambda l: mk('seq', (mk('one', (l,), 'one'),), 'vec'), v)


def concat(*vs):
    def f(*ls):
        segs = []
        for l in ls:
            if l.op != 'seq':
                segs.append(mk('spl', (mk('unk', ('notseq', l), 'vec', 'std::vector<int>', unk=True),), 'seq'))
            else:
                segs.extend(l.a)
        return mk_seq(segs)
    return lift(f, *vs)


def spl(atom):
    return mk('seq', (mk('spl', (atom,), 'seq'),), 'vec')


def size_atom(s):
    return mk('size', (s,), 'i', 'unsigned long')


def size(v):
    def f(l):
        if l.op != 'seq':
            return unkv('size', 'int', l)
        r = ZERO
        for s in l.a:
            if s.op == 'one':
                r = add(r, ONE)
            elif s.op == 'spl':
                r = add(r, apoly(size_atom(s.a[0])))
            else:
                n, h, body = s.a
                fs = sym('k', 'int', n)
                r = add(r, sum_(n, fs, size(subst(body, {bv(h): apoly(fs)}))))
        return r
    return lift(f, v)


def empty(v):
    """v has no elements"""
    def f(l):
        if l.op == 'seq' and any(s.op == 'one' for s in l.a):
            return FALSE
        return eq(size(l), ZERO)
    return lift(f, v)


def elem_vt(atom):
    c = tclass(atom.vt)
    return canon_vt(c[1]) if c[0] == 'vec' else None


def seq_elem_vt(l):
    if l.op != 'seq':
        return None
    for s in l.a:
        if s.op == 'spl':
            return elem_vt(s.a[0])
        if s.op == 'one':
            return leaf_vt(s.a[0])
        if s.op == 'for':
            r = _body_vt(s.a[2])
            if r:
                return r
    return None


def _body_vt(b):
    if b.op == 'sw':
        for c in b.a[2]:
            r = _body_vt(c)
            if r:
                return r
        return None
    return seq_elem_vt(b)


def leaf_vt(l):
    if l.op == 'sw':
        return leaf_vt(l.a[2][0])
    if l.op == 'poly':
        return {'b': 'bool', 'i': 'int', 'r': 'double', 'c': 'std::complex<double>'}[l.kind]
    if l.op == 'seq':
        e = seq_elem_vt(l)
        return 'std::vector<%s>' % (e or 'int')
    if l.op == 'rec':
        return l.a[0]
    return l.vt


def idx(v, i):
    def f(l, p):
        if l.op != 'seq':
            return unkv('idx', 'int', l, p)
        return _idx(l, p)
    return lift(f, v, i)


def _idx_spl(s, p):
    vt = elem_vt(s)
    return from_atom(mk('idx', (s, p), scalar_kind(vt), vt))


def _idx(l, p):
    segs = l.a
    if not segs:
        return mk_unk_leaf('idx-empty')
    x = segs[0]
    if len(segs) == 1 and x.op == 'spl':
        return _idx_spl(x.a[0], p)
    # from the back
    if len(segs) > 1 or x.op == 'one':
        j = len(segs) - 1
        if segs[j].op == 'one' and not is_const(p):
            sz = size(mk('seq', segs, 'vec'))
            if sz.op == 'poly':
                d = padd(sz, p, -1)
                if is_const(d):
                    c = cval(d)
                    while j >= 0 and segs[j].op == 'one' and c > 1:
                        j -= 1
                        c -= 1
                    if c == 1 and j >= 0 and segs[j].op == 'one':
                        return segs[j].a[0]
    if x.op == 'one':
        if is_const(p):
            c = cval(p)
            if c == 0:
                return x.a[0]
            if c < 0:
                return mk_unk_leaf('idx-neg')
            return _idx(mk('seq', segs[1:], 'vec'), padd(p, MONE))
        if len(segs) == 1:
            return x.a[0]
        return ite(_cmp0(p, 'eq'), x.a[0], _idx(mk('seq', segs[1:], 'vec'), padd(p, MONE)))
    if x.op == 'spl':
        n = apoly(size_atom(x.a[0]))
        return ite(_cmp0(padd(p, n, -1), 'lt'), _idx_spl(x.a[0], p),
                   _idx(mk('seq', segs[1:], 'vec'), padd(p, n, -1)))
    n, h, body = x.a
    b = _single(body)
    if b is not None:
        here = subst(b, {bv(h): p})
        if len(segs) == 1:
            return here
        return ite(_cmp0(padd(p, n, -1), 'lt'), here,
                   _idx(mk('seq', segs[1:], 'vec'), padd(p, n, -1)))
    vt = seq_elem_vt(l) or 'int'
    return from_atom(mk('cidx', (l, p), scalar_kind(vt), canon_vt(vt)))


def mk_unk_leaf(tag):
    return apoly(mk('unk', (tag,), 'i', 'int', unk=True))


DC = mk_unk_leaf('idx-empty')

def upd(v, i, val):
    """v with element i replaced"""
    def f(l, p):
        if l.op != 'seq':
            return mk('unk', ('upd', l, p), 'vec', 'std::vector<int>', unk=True)
        if is_const(p) and cval(p) >= 0:
            c = int(cval(p))
            if c < len(l.a) and all(s.op == 'one' for s in l.a[:c + 1]):
                return lift(lambda x: mk_seq(list(l.a[:c]) + [mk('one', (x,), 'one')] + list(l.a[c + 1:])), val)
        n = size(l)
        if n.op == 'poly' and not is_const(p):
            d = padd(n, p, -1)
            if is_const(d):
                c = int(cval(d))
                if 0 < c <= len(l.a) and all(s.op == 'one' for s in l.a[-c:]):
                    k = len(l.a) - c
                    return lift(lambda x: mk_seq(list(l.a[:k]) + [mk('one', (x,), 'one')] + list(l.a[k + 1:])), val)
        fs = None

        def g(nn):
            fs = sym('k', 'int', nn)
            k = apoly(fs)
            return for_(nn, fs, one(ite(eq(k, p), val, idx(l, k))))
        return lift(g, n)
    return lift(f, v, i)


def take(v, n):
    """first n elements"""
    def f(l, p):
        k = len(l.a)
        if l.op == 'seq':
            sz = size(l)
            if sz is p:
                return l
            d = None
            if sz.op == 'poly':
                d = padd(sz, p, -1)
            if d is not None and is_const(d):
                c = int(cval(d))
                if 0 <= c <= k and all(s.op == 'one' for s in l.a[k - c:]):
                    return mk_seq(l.a[:k - c])
        fs = sym('k', 'int', p)
        return for_(p, fs, one(idx(l, apoly(fs))))
    return lift(f, v, n)


def slice_(v, lo, hi):
    def f(l, a, b):
        if a is ZERO:
            return take(l, b)
        if is_const(a) and size(l) is b:
            c = int(cval(a))
            if c <= len(l.a) and all(s.op == 'one' for s in l.a[:c]):
                return mk_seq(l.a[c:])
        n = padd(b, a, -1)
        fs = sym('k', 'int', n)
        return for_(n, fs, one(idx(l, padd(apoly(fs), a))))
    return lift(f, v, lo, hi)


def reverse(v):
    def f(l):
        def g(n):
            fs = sym('k', 'int', n)
            return for_(n, fs, one(idx(l, padd(padd(n, MONE), apoly(fs), -1))))
        if l.op == 'seq' and all(s.op == 'one' for s in l.a):
            return mk_seq(l.a[::-1])
        return lift(g, size(l))
    return lift(f, v)


def seq_eq(p, q):
    n, m = size(p), size(q)

    def g(a):
        fs = sym('k', 'int', a)
        k = apoly(fs)
        return not_(exists_(a, fs, ne(idx(p, k), idx(q, k))))
    return and_(eq(n, m), lift(g, n))


# ----------------------------------------------------------------- binders
def hoist(v, s, f, extra=()):
    """apply f on v after splitting on every switch of v that does not depend on s"""
    def indep(v, seen, acc):
        if v.op != 'sw' or v in seen:
            return
        seen.add(v)
        if not occurs(s, v.a[0]):
            acc.append(v)
        for c in v.a[2]:
            indep(c, seen, acc)
    acc = []
    indep(v, set(), acc)
    if not acc:
        return f(v)
    q = min((x.a[0] for x in acc), key=lambda q: q.key)
    bs = tuple(sorted(set(b for x in acc if x.a[0] is q for b in x.a[1])))
    return mk_sw(q, bs, [hoist(cof(v, q, bs, j, {}), s, f) for j in range(len(bs) + 1)])


def cof(v, Q, bs, j, memo):
    if v.op != 'sw':
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if v.a[0] is Q:
        r = select(v, Q, bs, j)
    elif v.a[0].key > Q.key:
        r = v
    else:
        r = mk_sw(v.a[0], v.a[1], [cof(c, Q, bs, j, memo) for c in v.a[2]])
    memo[v] = r
    return r


def close(s, body):
    """replace free symbol s by the canonical bound variable of the body's height"""
    for _ in range(6):
        h = 1 + body_h(body)
        b = subst(body, {s: apoly(bv(h))}) if s.op == 'sym' else body
        if body_h(b) == h - 1:
            return h, b
        if body_h(b) < h:
            # the body got shallower
            h2 = 1 + body_h(b)
            b2 = subst(b, {bv(h): apoly(bv(h2))})
            return (h2, b2) if body_h(b2) == h2 - 1 else (h, b)
        body = b
    h = 1 + body_h(body) + 1
    return h, subst(body, {s: apoly(bv(h))})


def body_h(b):
    return b.h


def _is_inf(n):
    return n is apoly(INF)


def tabular(v, s):
    """v is given by a table over s"""
    while v.op == 'sw':
        if atoms(v.a[0]) == {s.uid}:
            return True
        v = v.a[2][0]
    return False


def for_(n, s, body):
    """concatenation over s in [0,n) of body(s)"""
    def f(nn):
        if nn.op != 'poly':
            return mk('seq', (mk('spl', (mk('unk', ('for', nn), 'vec', 'std::vector<int>', unk=True),), 'seq'),), 'vec')
        if is_const(nn):
            c = cval(nn)
            if c <= 0:
                return EMPTY
            if c.denominator == 1 and (c <= 4 or c <= 16 and tabular(body, s)):
                return concat(*[subst(body, {s: const(i)}) for i in range(int(c))])
        lo, hi = prange(nn)
        if hi is not None and hi <= 0:
            return EMPTY
        return hoist(body, s, lambda b: _for(nn, s, b))
    return lift(f, n)


def _for(n, s, body):
    if body is EMPTY:
        return EMPTY
    k = apoly(s)
    # eta
    if body.op == 'seq' and len(body.a) == 1:
        x = body.a[0]
        if x.op == 'one':
            at = _leaf_atom(x.a[0])
            if at is not None and at.op == 'idx' and at.a[1] is k and not occurs(s, at.a[0]) \
                    and n is apoly(size_atom(at.a[0])):
                return spl(at.a[0])
            if at is not None and at.op == 'cidx' and at.a[1] is k and not occurs(s, at.a[0]) \
                    and n is size(at.a[0]):
                return at.a[0]
    r = _fuse(n, s, body, lambda seq, y, ys: flatmap(seq, y, body, ys))
    if r is not None:
        return r
    if n.op == 'poly' and not occurs(s, body):
        r = _repeat(n, body)
        if r is not None:
            return r
    if n.op == 'poly' and body.op == 'sw' and len(body.a[1]) == 1:
        r = _for_cut(n, s, body)
        if r is not None:
            return r
    h, b = close(s, body)
    return mk('seq', (mk('for', (n, h, b), 'seg', None, h=max(h, n.h)),), 'vec')


def _for_cut(n, s, body):
    """a body that changes at a position of the range: two ranges"""
    Q, bs, (lo, hi) = body.a
    rest = dict(Q.a)
    e = rest.pop(((s, 1),), None)
    if e is None or abs(e) != 1 or any(c.denominator != 1 for c in rest.values()):
        return None
    b, side = bs[0]
    if b.denominator != 1:
        return None
    b += side
    r = mkpoly(rest)
    if occurs(s, r):
        return None
    if e == 1:
        m = padd(const(b), r, -1)
    else:
        m = padd(r, const(1 - b))
        lo, hi = hi, lo
    l, h = prange(padd(n, m, -1))
    if h is not None and h <= 0:
        return for_(n, s, lo)
    if l is None or l < 0:
        return None
    if hi is EMPTY:
        return for_(m, s, lo)
    l, h = prange(m)
    if l is None or l < 0:
        return None
    return concat(for_(m, s, lo), for_(padd(n, m, -1), s, subst(hi, {s: padd(apoly(s), m)})))


def _repeat(n, body):
    """body repeated a counted number of times, one for every counted element"""
    if not any(m and m[0][0].op == 'sum' for m, c in n.a):
        return None
    parts = []
    for m, c in n.a:
        if c <= 0 or c.denominator != 1 or c > 4:
            return None
        if not m:
            parts += [body] * int(c)
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        lo, hi = prange(apoly(a))
        if lo is None or lo < 0:
            return None
        if a.op == 'sum':
            n2, h2, b2 = a.a
            fs = sym('k', 'int', n2)
            fr = sym('k', 'int')
            x = for_(n2, fs, for_(subst(b2, {bv(h2): apoly(fs)}), fr, body))
        else:
            x = for_(apoly(a), sym('k', 'int'), body)
        parts += [x] * int(c)
    return concat(*parts)


def _leaf_atom(l):
    if l.op == 'poly':
        if len(l.a) == 1 and l.a[0][1] == 1 and len(l.a[0][0]) == 1 and l.a[0][0][0][1] == 1:
            return l.a[0][0][0][0]
        return None
    if l.op == 'seq':
        if len(l.a) == 1 and l.a[0].op == 'spl':
            return l.a[0].a[0]
        return None
    if l.op == 'rec':
        return None
    return l


def find_atoms(t, pred, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()

    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if x.op not in STRUCT and pred(x):
                acc.append(x)
            go(x.a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return acc


def _fuse(n, s, body, build):
    """loop over the elements of a composite sequence: distribute over its segments"""
    if s.uid not in atoms(body):
        return None
    k = apoly(s)
    cs = find_atoms(body, lambda a: a.op == 'cidx' and a.a[1] is k)
    seqs = set(a.a[0] for a in cs)
    if len(seqs) != 1:
        return None
    seq = seqs.pop()
    if occurs(s, seq) or size(seq) is not n:
        return None
    c = cs[0]
    ys = sym('y', c.vt)
    b2 = subst(body, {c: from_atom(ys)})
    if occurs(s, b2):
        return None
    return build(seq, b2, ys)


def flatmap(seq, body_y, body, ys):
    parts = []
    for x in seq.a:
        if x.op == 'one':
            parts.append(subst(body_y, {ys: x.a[0]}))
        elif x.op == 'spl':
            nn = apoly(size_atom(x.a[0]))
            fs = sym('k', 'int', nn)
            parts.append(for_(nn, fs, subst(body_y, {ys: _idx_spl(x.a[0], apoly(fs))})))
        else:
            n, h, b = x.a
            fs = sym('k', 'int', n)
            inner = lift(lambda l: flatmap(l, body_y, body, ys), subst(b, {bv(h): apoly(fs)}))
            parts.append(for_(n, fs, inner))
    return concat(*parts)


def summap(seq, body_y, ys):
    r = ZERO
    for x in seq.a:
        if x.op == 'one':
            r = add(r, subst(body_y, {ys: x.a[0]}))
        elif x.op == 'spl':
            nn = apoly(size_atom(x.a[0]))
            fs = sym('k', 'int', nn)
            r = add(r, sum_(nn, fs, subst(body_y, {ys: _idx_spl(x.a[0], apoly(fs))})))
        else:
            n, h, b = x.a
            fs = sym('k', 'int', n)
            inner = lift(lambda l: summap(l, body_y, ys), subst(b, {bv(h): apoly(fs)}))
            r = add(r, sum_(n, fs, inner))
    return r


def trip(n):
    """number of iterations of a loop bounded by n"""
    def f(p):
        lo, hi = prange(p)
        if lo is not None and lo >= 0:
            return p
        return ite(_cmp0(p, 'lt'), ZERO, p)
    return lift(f, n)


def min_offset(body, s):
    """smallest constant c such that body indexes with s + c"""
    best = [None]

    def pred(a):
        if a.op in ('idx', 'cidx'):
            p = a.a[1]
            d = dict(p.a) if p.op == 'poly' else {}
            if d.get(((s, 1),)) == 1 and set(d) <= {((s, 1),), ()}:
                c = d.get((), Fr(0))
                if best[0] is None or c < best[0]:
                    best[0] = c
        return False
    find_atoms(body, pred)
    return best[0]


def sum_(n, s, body):
    def f(nn):
        if nn.op != 'poly':
            return unkv('sum', 'double', nn)
        if is_const(nn):
            c = cval(nn)
            if c <= 0:
                return ZERO
            if c.denominator == 1 and (c <= 4 or c <= 16 and tabular(body, s)):
                r = ZERO
                for i in range(int(c)):
                    r = add(r, subst(body, {s: const(i)}))
                return r
        lo, hi = prange(nn)
        if hi is not None and hi <= 0:
            return ZERO
        return hoist(body, s, lambda b: _sum(nn, s, b))
    return lift(f, n)


def _sum(n, s, body):
    if not occurs(s, body):
        return mul(trip(n), body)
    k = apoly(s)
    r = _fuse(n, s, body, lambda seq, y, ys: summap(seq, y, ys))
    if r is not None:
        return r
    # start of the index range
    off = min_offset(body, s)
    if off is not None and off != 0 and abs(off) <= 4:
        b2 = subst(body, {s: padd(k, const(-off))})
        tot = _sum(padd(n, const(off)), s, b2)
        if off > 0:
            for i in range(int(off)):
                tot = sub_(tot, subst(b2, {s: const(i)}))
        else:
            for i in range(int(off), 0):
                tot = add(tot, subst(b2, {s: const(i)}))
        return tot
    # constant part of the bound
    c = dict(n.a).get((), Fr(0))
    if c != 0 and not is_const(n) and abs(c) <= 4 and c.denominator == 1:
        L = padd(n, const(c), -1)
        tot = sum_(L, s, body)
        for i in range(int(abs(c))):
            if c < 0:
                tot = sub_(tot, subst(body, {s: padd(L, const(-1 - i))}))
            else:
                tot = add(tot, subst(body, {s: padd(L, const(i))}))
        return tot
    # linear decomposition
    groups = []
    seen = set()

    def collect(v):
        if v.op == 'sw':
            for c in v.a[2]:
                collect(c)
        elif v.op == 'poly':
            for m, c in v.a:
                if m not in seen:
                    seen.add(m)
                    groups.append(m)
        else:
            raise Budget()
    collect(body)
    out = ZERO
    for m in sorted(groups, key=_mono_key):
        dep = _mk_mono({a: e for a, e in m if occurs(s, a)})
        ind = mkpoly({_mk_mono({a: e for a, e in m if not occurs(s, a)}): Fr(1)})

        def coef(v):
            if v.op == 'sw':
                return mk_sw(v.a[0], v.a[1], [coef(c) for c in v.a[2]])
            return const(dict(v.a).get(m, Fr(0)))
        cd = coef(body)
        if cd.op == 'poly':
            sc = cval(cd)
            if not dep:
                out = add(out, mul(trip(n), pscale(ind, sc)))
                continue
            out = add(out, pscale(pmul(_sum_atom(n, s, mkpoly({dep: Fr(1)})), ind), sc))
            continue

        def lead(v):
            if v.op == 'sw':
                for c in v.a[2]:
                    x = lead(c)
                    if x != 0:
                        return x
                return Fr(0)
            return cval(v)
        # hoisting again: the coefficient may depend on s through fewer switches
        def fin(cdh):
            if not occurs(s, cdh) and not dep:
                return mul(trip(n), mul(cdh, ind))
            sc = lead(cdh)
            if sc == 0:
                return ZERO
            b = mul(pscale1(cdh, 1 / sc), mkpoly({dep: Fr(1)}))
            return pscale1(mul(_sum_atom(n, s, b), ind), sc)
        out = add(out, hoist(cd, s, fin))
    return out


def _sum_atom(n, s, b):
    # normalise direction: k -> n-1-k
    h, c = close(s, b)
    k2 = kind_of(c)
    return apoly(mk('sum', (n, h, c), k2, None, h=max(h, n.h)))


def kind_of(v):
    if v.op == 'sw':
        k = 'i'
        for c in v.a[2]:
            x = kind_of(c)
            if KR.get(x, 3) > KR[k]:
                k = x
        return k
    if v.op == 'poly':
        return v.kind if v.kind != 'b' else 'i'
    return 'c'


def prod_(n, s, body):
    def f(nn):
        if nn.op != 'poly':
            return unkv('prod', 'double', nn)
        if is_const(nn):
            c = cval(nn)
            if c <= 0:
                return ONE
            if c.denominator == 1 and (c <= 4 or c <= 16 and tabular(body, s)):
                r = ONE
                for i in range(int(c)):
                    r = mul(r, subst(body, {s: const(i)}))
                return r
        return hoist(body, s, lambda b: _prod(nn, s, b))
    return lift(f, n)


def _prod(n, s, body):
    if not occurs(s, body):
        return powv(body, trip(n))
    if body.op == 'poly':
        k = apoly(s)
        cs = find_atoms(body, lambda a: a.op == 'cidx' and a.a[1] is k)
        c, d = factored(body)
        r = ONE
        if c != 1:
            r = powv(const(c), trip(n))
        for a, e in sorted(d.items(), key=lambda x: x[0].key):
            if not occurs(s, a):
                r = mul(r, powv(mkpoly({((a, e),): Fr(1)}), trip(n)))
            elif a.op == 'pow' and not occurs(s, a.a[1]):
                inner = _prod(n, s, a.a[0])
                r = mul(r, powv(inner, pscale(a.a[1], e)))
            else:
                b = a.a[0] if a.op == 'pa' else apoly(a)
                h, cb = close(s, b)
                at = mk('prod', (n, h, cb), kind_of(cb), None, h=max(h, n.h))
                r = mul(r, mkpoly({((at, e),): Fr(1)}))
        return r
    h, cb = close(s, body)
    return apoly(mk('prod', (n, h, cb), kind_of(cb), None, h=max(h, n.h)))


def exists_(n, s, cond):
    def f(nn):
        if nn.op != 'poly':
            return unkb('exists', nn)
        if is_const(nn):
            c = cval(nn)
            if c <= 0:
                return FALSE
            if c.denominator == 1 and (c <= 4 or c <= 16 and tabular(cond, s)):
                r = FALSE
                for i in range(int(c)):
                    r = or_(r, subst(cond, {s: const(i)}))
                return r
        lo, hi = prange(nn)
        if hi is not None and hi <= 0:
            return FALSE
        return hoist(cond, s, lambda b: _exists(nn, s, b))
    return lift(f, n)


def _exists(n, s, cond):
    if cond is FALSE:
        return FALSE
    if cond is TRUE:
        return not_(_cmp0(n, 'le'))
    if not occurs(s, cond):
        return and_(not_(_cmp0(n, 'le')), cond)
    k = apoly(s)
    if cond.op == 'sw' and cond.a[2][0] is FALSE and cond.a[2][-1] is FALSE and len(cond.a[2]) == 3:
        # an equation for the index: it is the only candidate
        Q, bs, ch = cond.a
        (v0, s0), (v1, s1) = bs
        if v0 == v1 or (s0 == 0 and s1 == 0 and v1 == v0 + 1):
            c = dict(Q.a).get(((s, 1),))
            rest = padd(Q, pscale(k, c), -1) if c in (1, -1) else None
            if rest is not None and rest.kind in ('b', 'i') and not occurs(s, rest) and v0.denominator == 1:
                k0 = pscale(padd(const(v0), rest, -1), c)
                return and_(and_(not_(_cmp0(k0, 'lt')), not_(_cmp0(padd(n, k0, -1), 'le'))), subst(ch[1], {s: k0}))
    r = _fuse(n, s, cond, lambda seq, y, ys: existsmap(seq, y, ys))
    if r is not None:
        return r
    h, c = close(s, cond)
    return from_atom(mk('exists', (n, h, c), 'b', 'bool', h=max(h, n.h)))


def existsmap(seq, y, ys):
    r = FALSE
    for x in seq.a:
        if x.op == 'one':
            r = or_(r, subst(y, {ys: x.a[0]}))
        elif x.op == 'spl':
            nn = apoly(size_atom(x.a[0]))
            fs = sym('k', 'int', nn)
            r = or_(r, exists_(nn, fs, subst(y, {ys: _idx_spl(x.a[0], apoly(fs))})))
        else:
            n, h, b = x.a
            fs = sym('k', 'int', n)
            inner = lift(lambda l: existsmap(l, y, ys), subst(b, {bv(h): apoly(fs)}))
            r = or_(r, exists_(n, fs, inner))
    return r


TRIP = None     # set by loops


def atoms_list(t):
    return find_atoms(t, lambda a: a is INF)


def first_(n, s, cond):
    def f(nn):
        return hoist(cond, s, lambda b: _first(nn, s, b))
    return lift(f, n)


def _first(n, s, cond):
    if cond is TRUE:
        return ZERO
    t = TRIP(not_(cond), s)
    if t is not None and not any(a is INF for a in atoms_list(t)):
        return t
    h, c = close(s, cond)
    return apoly(mk('first', (n, h, c), 'i', None, h=max(h, n.h)))


def mu_order(inits, kb, xs, bodies):
    """canonical order of the components of a recurrence"""
    n = len(xs)
    k0 = apoly(mk('sym', ('mu-k', 0), 'i', 'int'))
    key = [(str(xs[q].vt), inits[q].key) for q in range(n)]
    rank = None
    for _ in range(n + 1):
        ks = sorted(set(key))
        nr = [ks.index(key[q]) for q in range(n)]
        if nr == rank:
            break
        rank = nr
        if len(ks) == n:
            break
        m = {kb: k0}
        for q, x in enumerate(xs):
            m[x] = from_atom(mk('sym', ('mu-x', rank[q]), scalar_kind(x.vt), x.vt))
        key = [(rank[q], subst(bodies[q], m).key) for q in range(n)]
    return sorted(range(n), key=lambda q: (rank[q], q))


UNROLL = False     # expand recurrences of known length (small.py)


def mu_(j, k, inits, kb, xs, bodies):
    """j-th component after k steps of the recurrence x <- bodies(kb, x) from inits"""
    nx = len(xs)

    def f(*ls):
        kk, ii = ls[0], ls[1:]
        if is_const(kk) and cval(kk) <= 0:
            return ii[j]
        if nx > 1:
            p = mu_order(ii, kb, xs, bodies)
            if p != list(range(nx)):
                return mu_f(p.index(j), kk, [ii[q] for q in p], [xs[q] for q in p], [bodies[q] for q in p])
        return mu_f(j, kk, ii, xs, bodies)

    def mu_f(j, kk, ii, xs, bodies):
        p = mu_peel(ii, kb, xs, bodies)
        if p is not None:
            return ite(lt(kk, ONE), ii[j], mu_(j, kk, p[0], kb, xs, p[1]))
        if is_const(kk) and cval(kk).denominator == 1 and \
                (UNROLL and cval(kk) <= 4 or cval(kk) <= 16 and any(tabular(b, kb) for b in bodies)):
            for i in range(int(cval(kk))):
                m = dict(zip(xs, ii))
                m[kb] = const(i)
                ii = [subst(b, m) for b in bodies]
            return ii[j]
        h, top = 1 + max([body_h(b) for b in bodies] + [0]), 0
        for _ in range(8):
            m = {kb: apoly(bv(h))}
            for q, x in enumerate(xs):
                m[x] = from_atom(bvx(h, q, x.vt))
            bs = tuple(subst(b, m) for b in bodies)
            h2 = 1 + max(body_h(b) for b in bs)
            if h2 == h or h2 < h <= top:
                break
            top, h = max(top, h2), h2
        else:
            raise Budget()
        vts = tuple(x.vt for x in xs)
        at = mk('mu', (j, kk, tuple(ii), h, vts, bs), scalar_kind(vts[j]), vts[j],
                h=max([h, kk.h] + [x.h for x in ii]))
        return from_atom(at)
    return lift(f, k, *inits)


def call_(fname, out, vt, args):
    """opaque result of a named operation"""
    def f(*ls):
        return from_atom(mk('call', (fname, out) + tuple(ls), scalar_kind(vt), canon_vt(vt)))
    return lift(f, *[_boolatom(a) for a in args])


def _boolatom(v):
    """truth value of one atom, without the case distinction"""
    if v.op == 'sw' and len(v.a[1]) == 1 and v.a[2] == (FALSE, TRUE) and v.a[1][0] == (1, 0):
        a = v.a[0]
        if len(a.a) == 1 and a.a[0][1] == 1 and len(a.a[0][0]) == 1 and a.a[0][0][0][1] == 1 \
                and a.a[0][0][0][0].kind == 'b':
            return a
    return v


def mu_peel(inits, kb, xs, bodies):
    """a first step that is special only because it overrides the initial value:
    bodies(0, inits) = B(0, V) and bodies(k, .) = B(k, .) for k >= 1.
    Returns (V, B) or None."""
    if not any(occurs(kb, b) for b in bodies):
        return None
    k2 = sym('k', 'int', apoly(INF))
    kk = add(apoly(k2), ONE)
    back = sub_(apoly(kb), ONE)
    B = [subst(subst(b, {kb: kk}), {k2: back}) for b in bodies]
    if all(x is y for x, y in zip(B, bodies)):
        return None
    mI = dict(zip(xs, inits))
    z = {kb: ZERO}
    A1 = [subst(subst(b, z), mI) for b in bodies]
    B0 = [subst(b, z) for b in B]
    V = {}
    xset = set(xs)

    def match(p, t, seen):
        """bind the components of the state so that p becomes t"""
        if p is t or not isinstance(p, T) and not isinstance(p, tuple):
            return
        if isinstance(p, tuple):
            if isinstance(t, tuple) and len(p) == len(t):
                for a, b in zip(p, t):
                    match(a, b, seen)
            return
        if not isinstance(t, T) or (p, t) in seen:
            return
        seen.add((p, t))
        la = _leaf_atom(p) if p.op in ('poly', 'seq') else p
        if la is not None and la in xset:
            if p is not la or p.op not in STRUCT:
                V.setdefault(la, t)
            return
        if p.op == t.op:
            match(p.a, t.a, seen)
    for p, t in zip(B0, A1):
        match(p, t, set())
    if not V:
        return None
    nv = [V.get(x, i) for x, i in zip(xs, inits)]
    if any(not isinstance(v, T) or occurs(kb, v) or any(occurs(x, v) for x in xs) for v in nv):
        return None
    m = dict(zip(xs, nv))
    try:
        if all(subst(p, m) is t for p, t in zip(B0, A1)):
            return nv, B
    except (TypeError, AttributeError):
        pass
    return None


# ----------------------------------------------------------------- substitution
_submemo = memo_table()


def subst(v, m):
    """replace atoms by values, rebuilding canonical forms"""
    uids = frozenset(a.uid for a in m)
    if len(m) == 1:
        memo = _submemo.setdefault(next(iter(m.items())), {})
    else:
        memo = {}

    def hit(x):
        return not uids.isdisjoint(atoms(x))

    def atom(a):
        """value of the atom a after substitution"""
        if a in m:
            return m[a]
        if not hit(a):
            return from_atom_any(a)
        op = a.op
        if op == 'fld':
            return fld(val(a.a[0]), a.a[1])
        if op == 'idx':
            return idx(seqval(a.a[0]), val(a.a[1]))
        if op == 'cidx':
            return idx(val(a.a[0]), val(a.a[1]))
        if op == 'size':
            return size(seqval(a.a[0]))
        if op == 'pa':
            return val(a.a[0])
        if op == 'exp':
            return expv(val(a.a[0]))
        if op == 'pow':
            return powv(val(a.a[0]), val(a.a[1]))
        if op == 'abs':
            return absv(val(a.a[0]))
        if op == 're':
            return real(val(a.a[0]))
        if op == 'im':
            return imag(val(a.a[0]))
        if op == 'cplx':
            return complex_(val(a.a[0]), val(a.a[1]))
        if op == 'par':
            return lift(lambda p: parity(p), val(a.a[0]))
        if op == 'mod':
            return modv(val(a.a[0]), val(a.a[1]))
        if op == 'idiv':
            return idiv(val(a.a[0]), val(a.a[1]))
        if op in ('sum', 'prod', 'exists', 'first', 'for'):
            n, h, body = a.a
            n2 = val(n)
            b = bv(h)

            def g(nn):
                fs = sym('k', 'int', nn)
                mm = {x: y for x, y in m.items() if x is not b}
                mm[b] = apoly(fs)
                b2 = subst(body, mm)
                return {'sum': sum_, 'prod': prod_, 'exists': exists_, 'first': first_,
                        'for': for_}[op](nn, fs, b2)
            return lift(g, n2)
        if op == 'mu':
            j, kk, ii, h, vts, bs = a.a
            kb = sym('k', 'int')
            xs = [sym('x', vt) for vt in vts]
            mm = {x: y for x, y in m.items() if not (x.op in ('bv', 'bvx') and x.a[0] == h)}
            mm[bv(h)] = apoly(kb)
            for q, x in enumerate(xs):
                mm[bvx(h, q, vts[q])] = from_atom(x)
            return mu_(j, val(kk), [val(i) for i in ii], kb, xs, [subst(b, mm) for b in bs])
        if op == 'call':
            return call_(a.a[0], a.a[1], a.vt, [val(x) for x in a.a[2:]])
        # generic operator: arguments are values
        vals, shape = [], []
        for x in a.a:
            if isinstance(x, T):
                shape.append(len(vals))
                vals.append(val(x))
            else:
                shape.append(x if not isinstance(x, int) else ('c', x))

        def gen(*ls):
            args = tuple(ls[q] if isinstance(q, int) else (q[1] if isinstance(q, tuple) and q and q[0] == 'c' else q)
                         for q in shape)
            return from_atom_any(mk(op, args, a.kind, a.vt, unk=(op == 'unk')))
        return lift(gen, *vals) if vals else gen()

    def seqval(s):
        """value of a sequence-typed atom"""
        if not hit(s) and s not in m:
            return spl(s)
        return atom(s)

    def val(x):
        if x in memo:
            return memo[x]
        r = val0(x)
        memo[x] = r
        return r

    def val0(x):
        if x.op not in STRUCT:
            if x in m:
                return m[x]
            if not hit(x):
                return x
            return atom(x)
        if not hit(x):
            return x
        if x.op == 'sw':
            Q, bs, ch = x.a
            q2 = val(Q)
            if q2 is Q:
                return mk_sw(Q, bs, [val(c) for c in ch])
            chs = {}

            def pick(p, lo, hi):
                """children[lo..hi] selected by the value of polynomial p"""
                if lo == hi:
                    return val(ch[lo])
                mid = (lo + hi) // 2          # boundary mid separates ch[..mid] | ch[mid+1..]
                b, side = bs[mid]
                c = _cmp0(padd(p, const(b), -1), 'lt' if side == 0 else 'le')
                if c is TRUE:
                    return pick(p, lo, mid)
                if c is FALSE:
                    return pick(p, mid + 1, hi)
                return ite(c, pick(p, lo, mid), pick(p, mid + 1, hi))

            def g(p):
                if p.unk and hasdc(p):
                    return join([val(c) for c in ch])
                # complex or equality-only splits
                if len(bs) == 2 and ch[0] is ch[2] and (p.kind == 'c' or Q.kind == 'c' or True):
                    pt = bs[0][0]
                    isint = bs[0][1] == 0 and bs[1][1] == 0
                    if not isint or bs[1][0] == pt + 1:
                        return ite(_cmp0(padd(p, const(pt), -1), 'eq'), val(ch[1]), val(ch[0]))
                return pick(p, 0, len(ch) - 1)
            return lift(g, q2, strict=False)
        if x.op == 'poly':
            r = ZERO
            base = {}
            for mn, c in x.a:
                if any(hit(a) for a, e in mn):
                    t = const(c)
                    keep = {}
                    for a, e in mn:
                        if hit(a):
                            y = atom(a)
                            if e != 1:
                                if e < 0:
                                    y = div(ONE, y)
                                z = y
                                for _ in range(abs(e) - 1):
                                    z = mul(z, y)
                                y = z
                            t = mul(t, y)
                        else:
                            keep[a] = e
                    if keep:
                        t = mul(t, mkpoly({_mk_mono(keep): Fr(1)}))
                    r = add(r, t)
                else:
                    base[mn] = c
            return add(r, mkpoly(base)) if base else r
        if x.op == 'rec':
            return mk_rec(x.a[0], {n: val(y) for n, y in x.a[1]})
        if x.op == 'seq':
            return concat(*[segval(s) for s in x.a])
        raise AssertionError(x.op)

    def segval(s):
        if not hit(s):
            return mk('seq', (s,), 'vec')
        if s.op == 'one':
            return one(val(s.a[0]))
        if s.op == 'spl':
            return seqval(s.a[0])
        return atom(s)

    def from_atom_any(a):
        if a.op in ('one', 'spl', 'for'):
            return mk('seq', (a,), 'vec')
        return from_atom(a)

    return val(v)


# ----------------------------------------------------------------- display
def show(t, d=0, lim=40):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > lim:
        return '...'
    op = t.op

    def s(x):
        return show(x, d + 1, lim)
    if op == 'poly':
        if not t.a:
            return '0'
        out = []
        for m, c in t.a:
            ms = '*'.join(s(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'sw':
        Q, bs, ch = t.a
        parts = []
        for j, c in enumerate(ch):
            l = bs[j - 1] if j else None
            h = bs[j] if j < len(bs) else None
            isint = Q.kind in ('b', 'i')
            if isint:
                if l and h and h[0] - l[0] == 1:
                    g = '==%s' % l[0]
                elif l and h:
                    g = '%s..%s' % (l[0], h[0] - 1)
                elif l:
                    g = '>=%s' % l[0]
                else:
                    g = '<%s' % h[0]
            else:
                if l and h and l[0] == h[0]:
                    g = '==%s' % l[0]
                else:
                    g = ''
                    if l:
                        g += ('>' if l[1] else '>=') + str(l[0])
                    if h:
                        g += ('<=' if h[1] else '<') + str(h[0])
            parts.append(g + ': ' + s(c))
        return 'case %s {%s}' % (s(Q), '; '.join(parts))
    if op == 'rec':
        return '{' + ', '.join('%s=%s' % (n, s(x)) for n, x in t.a[1]) + '}'
    if op == 'seq':
        return '[' + ' ++ '.join(s(x) for x in t.a) + ']'
    if op == 'one':
        return '<' + s(t.a[0]) + '>'
    if op == 'spl':
        return s(t.a[0])
    if op in ('for', 'sum', 'prod', 'exists', 'first'):
        return '%s(#%d<%s: %s)' % (op, t.a[1], s(t.a[0]), s(t.a[2]))
    if op == 'bv':
        return '#%d' % t.a[0]
    if op == 'bvx':
        return '#%d.%d' % t.a
    if op == 'sym':
        return str(t.a[0]) if not t.vt or t.a[0] not in ('k', 'y') else '%s!%d' % t.a
    if op == 'fld':
        return s(t.a[0]) + '.' + t.a[1]
    if op in ('idx', 'cidx'):
        return s(t.a[0]) + '[' + s(t.a[1]) + ']'
    if op == 'size':
        return '|' + s(t.a[0]) + '|'
    if op == 'pa':
        return s(t.a[0])
    if op == 'call':
        return '%s%s(%s)' % (t.a[0].split('#')[0], '' if t.a[1] == 'ret' else '.' + str(t.a[1]),
                             ', '.join(s(x) for x in t.a[2:]))
    if op == 'mu':
        j, kk, ii, h, vts, bs = t.a
        return 'rec%d[%d](steps=%s; init=%s; step=%s)' % (h, j, s(kk), ', '.join(s(i) for i in ii),
                                                         ' | '.join(s(b) for b in bs))
    return op + '(' + ', '.join(s(x) for x in t.a) + ')'


def ops_of(t):
    """operator vocabulary of a term"""
    acc = set()
    seen = set()

    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            acc.add(x.op)
            go(x.a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return acc


def diff(x, y, path=''):
    """smallest differing sub-terms (path, x', y')"""
    if x is y:
        return None
    if x.op != y.op:
        return (path, x, y)
    if x.op == 'sw':
        if x.a[0] is not y.a[0]:
            return (path, x, y)
        if x.a[1] != y.a[1]:
            return (path + '/bounds', x, y)
        ds = [diff(a, b, path + '/case%d' % i) for i, (a, b) in enumerate(zip(x.a[2], y.a[2])) if a is not b]
        if len(ds) == 1:
            return ds[0]
        return ds[0] if ds else (path, x, y)
    if x.op == 'rec':
        for (n, a), (n2, b) in zip(x.a[1], y.a[1]):
            if a is not b:
                return diff(a, b, path + '.' + n)
    if x.op == 'seq' and len(x.a) == len(y.a):
        ds = [(a, b) for a, b in zip(x.a, y.a) if a is not b]
        if len(ds) == 1:
            return diff(ds[0][0], ds[0][1], path + '/seg')
    if x.op in ('one',):
        return diff(x.a[0], y.a[0], path)
    if x.op in ('for', 'sum', 'prod', 'exists', 'first') and x.a[1] == y.a[1]:
        if x.a[0] is not y.a[0]:
            return (path + '/' + x.op + '-range', x.a[0], y.a[0])
        return diff(x.a[2], y.a[2], path + '/' + x.op + '-body')
    if x.op == 'poly' and len(x.a) == 1 and len(y.a) == 1:
        (m1, c1), (m2, c2) = x.a[0], y.a[0]
        if c1 == c2 and len(m1) == len(m2):
            ds = [(p, q) for p, q in zip(m1, m2) if p != q]
            if len(ds) == 1 and ds[0][0][1] == ds[0][1][1]:
                return diff(ds[0][0][0], ds[0][1][0], path)
    if x.op in ('idx', 'cidx', 'fld', 'size', 'pa', 'exp', 'pow', 'abs', 'call', 'mu') and len(x.a) == len(y.a):
        ds = [(p, q) for p, q in zip(x.a, y.a) if p is not q and p != q]
        if len(ds) == 1 and isinstance(ds[0][0], T) and isinstance(ds[0][1], T):
            return diff(ds[0][0], ds[0][1], path + '/' + x.op)
    return (path, x, y)
