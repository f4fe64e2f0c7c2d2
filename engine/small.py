"""Instances of a pair of normal forms: containers of a given small length, recurrences of a given small number of steps.

A recurrence outside the closed forms stands for itself; two different ones may still be equal. Replacing every container
of the inputs by one of n unnamed elements turns each recurrence, sum, product and search over them into a finite
expression. If the two sides differ there, they differ.
"""
import hashlib
import os
import sys
import terms as tm
from loops import Unsupported
from terms import *


def _root(a):
    """a names a container of the inputs directly: no bound variable, no computed index"""
    while True:
        if a.op in ('arg', 'self', 'sym'):
            return True
        if a.op == 'call':
            return free(a) and not unmodelled(a)
        if a.op == 'fld':
            a = a.a[0]
        elif a.op == 'idx' and is_const(a.a[1]):
            a = a.a[0]
        else:
            return False
        if not isinstance(a, T):
            return False
        if a.op == 'poly' and len(a.a) == 1 and len(a.a[0][0]) == 1:
            a = a.a[0][0][0][0]


def _depth(a):
    d = 0
    while a.op in ('fld', 'idx') and isinstance(a.a[0], T):
        d += a.op == 'idx'
        a = a.a[0]
    return d


def containers(*vs):
    acc, seen = [], set()
    for v in vs:
        for x in find_atoms(v, lambda t: t.op in ('size', 'idx')):
            a = x.a[0]
            if isinstance(a, T) and a not in seen and a.vt and tclass(a.vt)[0] == 'vec' and _root(a):
                seen.add(a)
                acc.append(a)
        for a in _spl(v):
            if a not in seen and a.vt and tclass(a.vt)[0] == 'vec' and _root(a):
                seen.add(a)
                acc.append(a)
    return acc


def _spl(v):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'spl':
                out.append(x.a[0])
            go(x.a)
    go(v)
    return out


def inside(a, cs):
    """a hangs below another of the containers"""
    b = a
    while b.op in ('fld', 'idx') and isinstance(b.a[0], T):
        b = b.a[0]
        if b in cs:
            return True
    return b.op == 'call' and bool(find_atoms(tuple(b.a[2:]), lambda x: x in cs))


def free(t):
    return not find_atoms(t, lambda a: a.op in ('bv', 'bvx'))


def steps(*vs):
    """scalar inputs that bound a recurrence, sum, product, sequence or search: atom -> (bound, coefficient)"""
    out = {}
    for v in vs:
        for a in _bounded(v):
            kk = a.a[1] if a.op == 'mu' else a.a[0]
            if kk.op != 'poly' or not free(kk):
                continue
            at = [(m, c) for m, c in kk.a if m]
            if len(at) == 1 and abs(at[0][1]) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
                x = at[0][0][0][0]
                if x.op in ('fld', 'arg', 'idx') and x.kind == 'i':
                    out[x] = (kk, at[0][1])
    return out


def _bounded(v):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ('mu', 'sum', 'prod', 'exists', 'for'):
                out.append(x)
            go(x.a)
    go(v)
    return out


def nest(vt, lens, d, name, cnt, lo=0, key=()):
    """a value of a type, all of whose containers have a definite length"""
    c = tclass(vt)
    cnt[0] += 1
    n = cnt[0]
    if c[0] == 'vec':
        L = lens(d, name, n)
        if L:
            L = max(L, lo)
        same = getattr(lens, 'alike', None)
        return concat(EMPTY, *[one(nest(c[1], lens, d + 1, name, cnt, key=key + (('i', i % same if same and d == 0 else i),)))
                               for i in range(L)])
    if c[0] == 'rec' and rec_fields(c[1]):
        return mk_rec(c[1], {f: nest(t, lens, d, f, cnt, key=key + (f,)) for f, t in rec_fields(c[1])})
    if getattr(lens, 'ints', None) is not None and scalar_kind(vt) == 'i':
        return const(number(lens.ints, name, key))
    if getattr(lens, 'alike', None):
        n = ('k',) + key
    return from_atom(mk('sym', ('e', n), scalar_kind(vt), canon_vt(vt)))


def number(seed, name, key):
    """the number an integer member of an element has in a plan that settles them"""
    u = int.from_bytes(hashlib.blake2b(repr((seed, key)).encode(), digest_size=4).digest(), 'big') / 2.0 ** 32
    c = {'alpha_': (-1, 0, 0, 1, 1, -1), 'eps_': (-1, 0, 0, 1, 1, 2), 'x_alpha_': (-1, 0, 1), 'second': (-1, 1),
         'multiplicity_': (1, 2, 3), 'der_': (0, 1, 2)}.get(name, (0, 1, 0, 1, 2))
    return c[int(u * len(c))]


class Lens:
    """lengths by a rule; elements that repeat with a period; settled integers"""

    def __init__(self, f, alike=None, ints=None):
        self.f, self.alike, self.ints = f, alike, ints

    def __call__(self, d, name, n):
        return self.f(d, name, n)


def shape(a):
    """(name, depth) under which nest() meets the container a"""
    d = _depth(a)
    while a.op == 'idx' and isinstance(a.a[0], T):
        a = a.a[0]
    return _name(a), d


def _name(a):
    b = a
    while b.op == 'idx' and isinstance(b.a[0], T):
        b = b.a[0]
    return b.a[1] if b.op == 'fld' else 'result' if b.op == 'call' else ('arg', b.a[0])


def shapes(v):
    """what is asked about the lengths of the containers: shape -> numbers they are compared with"""
    out = {}
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == 'sw' and isinstance(x.a[0], T) and x.a[0].op == 'poly':
            for m, c in x.a[0].a:
                for a, e in m:
                    if a.op == 'size' and isinstance(a.a[0], T) and a.a[0].op in ('idx', 'fld', 'arg', 'self'):
                        try:
                            out.setdefault(shape(a.a[0]), set()).update((b[0], len(x.a[0].a)) for b in x.a[1])
                        except (IndexError, AttributeError):
                            pass
        go(x.a)
    go(v)
    return out


def guided(v, w):
    """plans about the lengths that only one side asks about, and the numbers only one side compares lengths with"""
    A, B = shapes(v), shapes(w)
    plans = []
    for sh in sorted(set(A) | set(B), key=str):
        odd = A.get(sh, set()) ^ B.get(sh, set())
        if not odd:
            continue
        for base, pat, k in (('up', (1, 0), 1), ('up', (0, 1), 1), (1, (1, 0), 1), (2, (1, 0), 2), (1, (0, 1), 2), (2, (2, 0, 1), 2), (1, (0,), 2), (2, (1, 1, 0), 3)):
            plans.append(('%s only %s else %s' % (sh, pat, base), only(sh, pat, base), k))
        for c in sorted(set(int(b) for b, _ in odd if 2 <= b <= 70))[:3]:
            for L in (c + 1, c):
                plans.append(('%s only %d else 1' % (sh, L), Lens(only(sh, (L,), 1), alike=1, ints=1), 1))
                plans.append(('%s only %d else 1' % (sh, L), only(sh, (L,), 1), 1))
    return plans[:40]


def only(sh, pat, base):
    st = [0, 0]

    def f(d, name, n):
        if (name, d) != sh:
            return base if base != 'up' else 2 if d <= sh[1] and not isinstance(name, str) else 1
        if n <= st[0]:
            st[1] = 0
        st[0] = n
        st[1] += 1
        return pat[(st[1] - 1) % len(pat)]
    return f


def ids(v):
    return set(a.a[0] for a in find_atoms(v, lambda a: a.op == 'call'))


def expand(v, w, contract):
    """calls that only one side makes, with inputs that are settled, replaced by what their contract says"""
    odd = ids(v) ^ ids(w)
    m = {}
    for x in (v, w):
        for a in find_atoms(x, lambda a: a.op == 'call' and a.a[0] in odd):
            if a not in m and free(a) and not find_atoms(tuple(a.a[2:]), lambda b: b.op == 'call' and b.a[0] in odd):
                r = contract(a)
                if r is not None:
                    m[a] = r
    if not m:
        return None
    return subst(v, m), subst(w, m)


def instance(v, w, lens, k, contract=None):
    cnt = [0]
    long = False
    for x, (kk, c) in sorted(steps(v, w).items(), key=lambda q: q[0].key) if k is not None else ():
        r = subst(kk, {x: const(0)})
        if not is_const(r):
            continue
        val = const((k - cval(r)) / c)
        v, w = subst(v, {x: val}), subst(w, {x: val})
        long = True
    for rnd in range(14):
        cs = containers(v, w)
        cs = [a for a in cs if not inside(a, set(cs))]
        if contract is not None and all(_called(a) for a in cs):
            r = expand(v, w, contract)
            if r is not None:
                v, w = r
                continue
        if not cs:
            break
        m = {}
        for a in sorted(cs, key=lambda a: a.key):
            lo = k + 2 if long and not _deep(a) else 0
            m[a] = nest(a.vt, lens, _depth(a), _name(a), cnt, lo, key=(a.key,))
        v, w = subst(v, m), subst(w, m)
    return v, w


def _called(a):
    while a.op in ('fld', 'idx') and isinstance(a.a[0], T):
        a = a.a[0]
    return a.op == 'call'


def _deep(a):
    while a.op == 'fld' and isinstance(a.a[0], T):
        a = a.a[0]
    return a.op not in ('arg', 'self')


def by_depth(*ls):
    return lambda d, name, n: ls[min(d, len(ls) - 1)]


def cyclic(*ls):
    return lambda d, name, n: ls[n % len(ls)]


def results(m, *ls):
    """containers of the inputs of length m; those that calls return of the given lengths in turn"""
    return lambda d, name, n: m if name != 'result' else ls[n % len(ls)]


def tables(f, *ls):
    """containers that calls return of a length per depth"""
    return lambda d, name, n: f(d, name, n) if name != 'result' else ls[min(d, len(ls) - 1)]


def mixed(seed):
    """a length per member name, from which single containers deviate; members of the same name mostly agree"""
    def h(*x):
        return int.from_bytes(hashlib.blake2b(repr((seed,) + x).encode(), digest_size=4).digest(), 'big') / 2.0 ** 32

    def pick(u, d):
        return (0, 1, 1, 2, 2, 2, 3, 3)[int(u * 8)] if d < 2 else (0, 1, 1, 1, 2, 2)[int(u * 6)]

    def f(d, name, n):
        if h('deviates', n) < (.15, .4, .6)[seed % 3]:
            return pick(h('own', n), d)
        return pick(h('base', name, d), d)
    return f


PLANS = ([('2', cyclic(2), 2), ('1', cyclic(1), 1), ('0', cyclic(0), 1), ('2', cyclic(2), None)] +
         [('%d/%s' % (m, ','.join(map(str, ls))), results(m, *ls), k) for m, ls, k in
          [(1, (0,), 1), (1, (0, 1), None), (1, (2, 0), 1), (1, (3,), 1), (1, (3, 1), None), (2, (0, 1), 2), (2, (1, 0, 2), None)]] +
         [('%s/%s' % (x, y), tables(by_depth(*x), *y), k) for x, y, k in
          [((1, 1, 2, 1), (1, 4), 1), ((2, 1, 2, 1), (1, 3), 2), ((2, 1, 2, 1), (2, 4), None), ((2, 2, 2, 1), (1, 4), None)]] +
         [('-'.join(map(str, x)), by_depth(*x), k) for x, k in
          [((3, 1), 2), ((2, 1), None), ((4, 1), 2), ((1, 2), 2), ((2, 0), 1), ((1, 4, 1), 1), ((2, 3, 1), 2), ((1, 1, 4, 1), 1), ((5, 1), 2), ((3, 2), 3)]] +
         [('alike%d/%s%s' % (p, ls, '' if t is None else '/%d' % t), Lens(by_depth(*ls), alike=p, ints=t), k) for p, ls, t, k in
          [(1, (3, 2), None, 2), (1, (6, 1), 3, 4), (1, (6, 2), None, 2), (5, (7, 3), 1, 2), (2, (5, 3), 2, 3), (3, (4, 4), 3, 2), (2, (3, 2, 2, 2), 4, 2),
           (4, (4, 2, 2, 2), 5, 3), (1, (1, 3, 3), 6, 2), (3, (3, 1, 4), 7, 2), (2, (2, 5, 3), 8, 1), (6, (8, 2), 9, 2)]] +
         [('mix%d' % q, mixed(q), (2, 1, None, 3)[q % 4]) for q in range(200)])


def unmodelled(v):
    return bool(find_atoms(v, lambda a: a.op == 'unk' and a.a != ('idx-empty',)))


def left_over(s):
    return {x for x in s if x[0] not in ('unk', 'pow', 'par')}


def apart(a, b, memo=None):
    """two values differ for certain somewhere. A read past the end stands for anything; a sum, search or recurrence
    that is left may equal any other"""
    if a is b or a is tm.DC or b is tm.DC:
        return FALSE
    memo = {} if memo is None else memo
    r = memo.get((a, b))
    if r is None:
        memo[a, b] = r = _apart(a, b, memo)
        if len(memo) > 60000:
            raise Budget()
    return r


def _apart(p, q, memo):
    if p.op == 'sw' or q.op == 'sw':
        c = min((x.a[0] for x in (p, q) if x.op == 'sw'), key=lambda c: c.key)
        if not plain(c) and not (p.op == q.op == 'sw' and p.a[0] is q.a[0]):
            return FALSE
        bs = tuple(sorted(set(x for v in (p, q) if v.op == 'sw' and v.a[0] is c for x in v.a[1])))
        for j in range(len(bs) + 1):
            if apart(select(p, c, bs, j), select(q, c, bs, j), memo) is TRUE:
                return TRUE
        return FALSE
    if p.op == q.op == 'seq':
        if all(x.op == 'one' for x in p.a + q.a):
            if len(p.a) != len(q.a):
                return TRUE
            return TRUE if any(apart(x.a[0], y.a[0], memo) is TRUE for x, y in zip(p.a, q.a)) else FALSE
        return FALSE
    if p.op == q.op == 'rec' and p.a[0] == q.a[0]:
        return TRUE if any(apart(fld(p, n), fld(q, n), memo) is TRUE for n, _ in rec_fields(p.a[0])) else FALSE
    return TRUE if plain(p) and plain(q) and not p.unk and not q.unk else FALSE


def feasible(cons):
    """some rational point satisfies all of (poly, low, high, strictly low, strictly high); products of inputs count as
    inputs of their own"""
    rows = []

    def add(p, lo, hi, slo, shi):
        c0 = sum((c for m, c in p.a if not m), Fr(0))
        lin = {m: c for m, c in p.a if m}
        whole = p.kind in ('b', 'i') and all(c.denominator == 1 for c in lin.values()) and c0.denominator == 1
        for bound, strict, sg in ((hi, shi, 1), (lo, slo, -1)):
            if bound is None:
                continue
            b = (bound - c0) * sg
            if whole:
                b = Fr(-((-b) // 1) - 1) if strict and b.denominator == 1 else Fr(b // 1)
                strict = False
            rows.append(({m: c * sg for m, c in lin.items()}, b, strict))

    monos = set()
    for p, lo, hi, slo, shi in cons:
        if any(not isinstance(c, (int, Fr)) for _, c in p.a):
            return None
        add(p, lo, hi, slo, shi)
        monos |= {m for m, _ in p.a if m}
    for m in monos:
        lo, hi = prange(mkpoly({m: Fr(1)}))
        if lo is not None or hi is not None:
            add(mkpoly({m: Fr(1)}), lo, hi, False, False)
    while True:
        live = set(m for r in rows for m in r[0])
        for r in rows:
            if not r[0] and (r[1] < 0 or r[1] == 0 and r[2]):
                return False
        if not live:
            return True
        best = None
        for m in live:
            po = sum(1 for r in rows if r[0].get(m, 0) > 0)
            ne = sum(1 for r in rows if r[0].get(m, 0) < 0)
            if best is None or (po * ne - po - ne) < best[0]:
                best = (po * ne - po - ne, m)
        m = best[1]
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if not r[0].get(m, 0)]
        if len(pos) * len(neg) + len(rows) > 2000:
            return None
        for x in pos:
            for y in neg:
                f, g = 1 / x[0][m], -1 / y[0][m]
                d = {}
                for q in set(x[0]) | set(y[0]):
                    v = x[0].get(q, 0) * f + y[0].get(q, 0) * g
                    if v and q != m:
                        d[q] = v
                rows.append((d, x[1] * f + y[1] * g, x[2] or y[2]))


def witness(p, q, memo, path=(), odd=(), cnt=None):
    """a difference that apart() found, on a path whose conditions do not exclude each other"""
    cnt = [0] if cnt is None else cnt
    if apart(p, q, memo) is not TRUE:
        return FALSE
    cnt[0] += 1
    if cnt[0] > 4000:
        raise Budget()
    if p.op == 'sw' or q.op == 'sw':
        c = min((x.a[0] for x in (p, q) if x.op == 'sw'), key=lambda c: c.key)
        bs = tuple(sorted(set(x for v in (p, q) if v.op == 'sw' and v.a[0] is c for x in v.a[1])))
        for j in range(len(bs) + 1):
            lo, hi = (bs[j - 1] if j else None), (bs[j] if j < len(bs) else None)
            con = (c, lo[0] if lo else None, hi[0] if hi else None, bool(lo and lo[1]), bool(hi and not hi[1]))
            x, y = select(p, c, bs, j), select(q, c, bs, j)
            if apart(x, y, memo) is not TRUE:
                continue
            if plain(c):
                pa, od = path + (con,), odd
                if feasible(pa) is not True:
                    continue
            else:
                pa, od = path, odd + (c,)
            if witness(x, y, memo, pa, od, cnt) is TRUE:
                return TRUE
        return FALSE
    if p.op == q.op == 'seq' and len(p.a) == len(q.a) and all(x.op == 'one' for x in p.a + q.a):
        return TRUE if any(witness(x.a[0], y.a[0], memo, path, odd, cnt) is TRUE for x, y in zip(p.a, q.a)) else FALSE
    if p.op == q.op == 'rec' and p.a[0] == q.a[0]:
        return TRUE if any(witness(fld(p, n), fld(q, n), memo, path, odd, cnt) is TRUE
                           for n, _ in rec_fields(p.a[0])) else FALSE
    seen = set()
    for con in path:
        seen |= parts(con[0])
    for c in odd:
        o = parts(c)
        if o & seen:
            return FALSE
        seen |= o
    if p.op == q.op == 'poly' and p.kind in ('b', 'i', 'r') and q.kind in ('b', 'i', 'r'):
        d = padd(p, q, -1)
        if feasible(path + ((d, Fr(0), None, True, False),)) is not True and \
                feasible(path + ((d, None, Fr(0), False, True),)) is not True:
            return FALSE
    return TRUE


def unread(v):
    return bool(find_atoms(v, lambda a: a.op == 'unk' and a.a == ('idx-empty',)))


def past_end(p, q, path=(), cnt=None):
    """q reads past the end of a container on a feasible path on which p is defined"""
    cnt = [0] if cnt is None else cnt
    cnt[0] += 1
    if cnt[0] > 2000:
        raise Budget()
    if q is tm.DC:
        return p.op != 'sw' and p is not tm.DC and not unread(p) or \
            p.op == 'sw' and not unread(p)
    if p is q or not unread(q):
        return False
    if p.op == 'sw' or q.op == 'sw':
        c = min((x.a[0] for x in (p, q) if x.op == 'sw'), key=lambda c: c.key)
        bs = tuple(sorted(set(x for v in (p, q) if v.op == 'sw' and v.a[0] is c for x in v.a[1])))
        for j in range(len(bs) + 1):
            lo, hi = (bs[j - 1] if j else None), (bs[j] if j < len(bs) else None)
            con = (c, lo[0] if lo else None, hi[0] if hi else None, bool(lo and lo[1]), bool(hi and not hi[1]))
            if not plain(c):
                continue
            pa = path + (con,)
            if feasible(pa) is True and past_end(select(p, c, bs, j), select(q, c, bs, j), pa, cnt):
                return True
        return False
    if p.op == q.op == 'seq' and len(p.a) == len(q.a) and all(x.op == 'one' for x in p.a + q.a):
        return any(past_end(x.a[0], y.a[0], path, cnt) for x, y in zip(p.a, q.a))
    if p.op == q.op == 'rec' and p.a[0] == q.a[0]:
        return any(past_end(fld(p, n), fld(q, n), path, cnt) for n, _ in rec_fields(p.a[0]))
    return False


def parts(c):
    return set(find_atoms(c, lambda a: a.op not in ('bv', 'bvx') and a.op not in BINDS and
                          not (a.vt and tclass(a.vt)[0] == 'rec')))


def log(*x):
    if os.environ.get('SMALLDBG') == '3':
        print('   plan', *x, file=sys.stderr)


def judge(v, w, soft, seconds=90, contract=None):
    """'differ': some instance differs for certain; 'same': at least two instances, and all that finished, are equal;
    otherwise 'unknown'"""
    import time
    t = time.time()
    same = 0
    over = []
    if contract is not None and ids(v) != ids(w):
        # recursion on a number: settle the number
        for c in (2, 3):
            m = {a: const(c) for x in (v, w) for a in find_atoms(x, lambda a: a.op == 'arg' and a.kind == 'i')}
            try:
                tm.set_budget(2)
                a, b = subst(v, m), subst(w, m)
                for _ in range(6):
                    r = expand(a, b, contract) if m else None
                    if r is None:
                        break
                    a, b = r
                if ids(a) == ids(b) and not unmodelled(a) and not unmodelled(b) and plain(a) and plain(b) and \
                        witness(a, b, {}) is TRUE:
                    return 'differ', dict(lengths='any', steps=c, a=a, b=b, where=TRUE)
            except (Budget, RecursionError, Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError):
                pass
    big = max(2, seconds / float(os.environ.get('PLANDIV', '8')))
    late = []   # plans that need more than a short while
    plans = PLANS[:4] + guided(v, w) + PLANS[4:]
    first = [q for q in plans if not q[0].startswith(('mix', 'alike')) and q[0] != '3-2']

    def order():
        for q in first:
            yield q + (min(big, 2.5),)
        for q in reversed(late):
            yield q + (big,)
        for q in plans:
            if q not in first:
                yield q + (big,)
    for name, lens, k, each in order():
        left = seconds - (time.time() - t)
        if left < 1 or name == 'mix30' and left < seconds - 10 or name == 'mix100' and left < seconds - 20:
            break
        try:
            tm.set_budget(max(2, min(left, each)))
            tm.UNROLL = True
            a, b = instance(v, w, lens, k, contract)
            memo = {}
            d = witness(a, b, memo)
        except (Budget, RecursionError):
            log(name, k, 'budget', time.time() - t)
            if each < big and len(late) < 30:
                late.append((name, lens, k))
            continue
        except (Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError):
            if os.environ.get('SMALLDBG') == '2':
                raise
            continue
        finally:
            tm.UNROLL = False
        if d is FALSE and a is not b and (name, k) in (('2', 2), ('1', 1)):
            try:
                over.append(not unmodelled(a) and not unmodelled(b) and past_end(a, b))
            except Budget:
                pass
            if over == [True, True]:
                return 'differ', dict(lengths='1 and 2: reads past the end', steps=k, a=a, b=b, where=TRUE)
        log(name, k, a is b, d is FALSE, unmodelled(a), unmodelled(b), left_over(soft(a)) ^ left_over(soft(b)), round(time.time() - t, 1))
        if d is FALSE:
            same += a is b and bool(atoms(a) or atoms(b))
            continue
        if unmodelled(a) or unmodelled(b) or left_over(soft(a)) != left_over(soft(b)):
            continue
        return 'differ', dict(lengths=name, steps=k, a=a, b=b, where=d)
    ns = sorted({a for x in (v, w) for a in find_atoms(x, lambda a: a.op == 'arg' and a.kind == 'i')}, key=lambda a: str(a.a))
    for c in GRID if 1 <= len(ns) <= 3 and not containers(v, w) else ():
        # scalars only: settle them
        m = {a: const(c[i]) for i, a in enumerate(ns)}
        try:
            tm.set_budget(3)
            tm.UNROLL = True
            a, b = subst(v, m), subst(w, m)
            log('grid', c, show(a)[:200], show(b)[:200])
            if ids(a) == ids(b) and not unmodelled(a) and not unmodelled(b) and plain(a) and plain(b) and \
                    witness(a, b, {}) is TRUE:
                return 'differ', dict(lengths='any', steps=str(c), a=a, b=b, where=TRUE)
        except (Budget, RecursionError, Unsupported, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError):
            pass
        finally:
            tm.UNROLL = False
    if os.environ.get('NODESCEND') is None:
        tm.set_budget(10)
        try:
            for x, y in descend(v, w):
                if plain(x) and plain(y) and witness(x, y, {}) is TRUE:
                    return 'differ', dict(lengths='any', steps=None, a=x, b=y, where=TRUE)
        except (Budget, RecursionError):
            pass
    return ('same' if same >= 2 else 'unknown'), same


GRID = ((5, 2, 1), (6, 3, 2), (7, 3, 1), (4, 1, 3), (3, 2, 4))
BINDS = ('sum', 'prod', 'exists', 'first', 'for', 'mu')


def plain(x):
    """a value over independent inputs only"""
    return not find_atoms(x, lambda a: a.op in BINDS or a.op in OPAQUE)


OPAQUE = ('cidx', 'trunc', 'mod', 'idiv', 'inv0')


def descend(v, w, seen=None):
    """parts at the same place of two values, each of which settles by its difference that the values differ"""
    seen = set() if seen is None else seen
    if v is w or (v, w) in seen or len(seen) > 3000:
        return
    seen.add((v, w))
    if v.op == 'sw' and w.op == 'sw' and v.a[0] is w.a[0] and v.a[1] == w.a[1]:
        for x, y in zip(v.a[2], w.a[2]):
            for p in descend(x, y, seen):
                yield p
        return
    if v.op == w.op == 'rec' and v.a[0] == w.a[0]:
        for (_, x), (_, y) in zip(v.a[1], w.a[1]):
            for p in descend(x, y, seen):
                yield p
        return
    if v.op == w.op == 'seq' and len(v.a) == len(w.a):
        d = [(x, y) for x, y in zip(v.a, w.a) if x is not y]
        if len(d) == 1:
            x, y = d[0]
            if x.op == y.op == 'one':
                for p in descend(x.a[0], y.a[0], seen):
                    yield p
            elif x.op == y.op == 'for' and x.a[1] == y.a[1]:
                (n, h, b), (n2, _, b2) = x.a, y.a
                if n is n2:
                    for p in descend(b, b2, seen):
                        yield p
                elif b is b2 and b is not EMPTY:
                    for p in descend(n, n2, seen):
                        yield p
        return
    if v.op in ('sw', 'poly') and w.op in ('sw', 'poly'):
        yield v, w
