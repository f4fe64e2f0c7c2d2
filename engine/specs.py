"""Reference semantics (/verif/spec) against repository functions.

Every function of namespace ref that has a counterpart of the same name and
parameter types in AmiBase is an anchor: it is compared on its own and stays an
uninterpreted operation inside its callers.  The set of inputs each output of an
anchor depends on is taken from the reference itself."""
import time
from interp import Interp, strip_type
from calls import Anchor
from loops import Unsupported
from terms import *
import terms as tm


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def callees(f):
    out = set()

    def g(n):
        fk = n.get('fk')
        if fk:
            out.add(fk)
    walk(f.get('body'), g)
    walk(f.get('inits'), g)
    return out


def ptypes(ps):
    return tuple(canon_vt(p['t']) for p in ps)


class Specs:
    def __init__(self, prog, budget=60, drop=('overflow_detected',)):
        self.drop = frozenset(drop)
        self.prog = prog
        self.ref = {}          # name/ptypes -> ref function
        self.repo = {}         # same id -> repository function
        self.errors = {}
        self.nf = {}           # id -> outputs of the reference
        self.assume = {}
        self.anchors = {}      # function key -> Anchor
        self.budget = budget
        self.bykey = {}
        self.cases = {}
        self.summ = {}
        for k, f in prog.funcs.items():
            if f['name'].startswith('ref::') and f.get('body') and f['params'] and \
                    canon_vt(f['params'][0]['t']) == 'AmiBase' and '(lambda' not in f['name']:
                nm, _, case = f['name'][5:].partition('__')
                ts = ptypes(f['params'][1:])
                i = nm + '(' + ', '.join(short(t) for t in ts) + ')'
                cands = [g for g in prog.byname.get('AmiBase::' + nm, []) if ptypes(g['params']) == ts]
                if not cands:
                    continue
                if case:
                    # one case of a contract that is decided case by case
                    self.cases.setdefault(i, []).append(i + '#' + case)
                    i += '#' + case
                self.ref[i] = f
                self.bykey[k] = i
                self.repo[i] = cands[0]
                if not case:
                    self.bykey[cands[0]['key']] = i

    def order(self):
        seen, out = set(), []

        def go(k):
            if k in seen:
                return
            seen.add(k)
            f = self.prog.funcs.get(k)
            if f is None:
                return
            for c in sorted(callees(f)):
                go(c)
            for v in self.cases.get(self.bykey.get(k), ()):
                go(self.ref[v]['key'])
            if k in self.bykey and self.prog.funcs[k] is self.ref[self.bykey[k]]:
                out.append(self.bykey[k])
        for i in sorted(self.ref):
            go(self.ref[i]['key'])
        return out

    def closure(self, ids):
        """the contracts the given ones are written in terms of, and those the repository calls"""
        seen, todo = set(), [self.ref[i]['key'] for i in ids if i in self.ref] + \
            [self.repo[i]['key'] for i in ids if i in self.ref]
        out = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.prog.funcs.get(k)
            if f is None:
                continue
            if k in self.bykey:
                i = self.bykey[k]
                out.add(i)
                todo.append(self.ref[i]['key'])
                todo += [self.ref[v]['key'] for v in self.cases.get(i, ())]
            todo += callees(f)
        return out

    def summarise(self, only=None):
        for i in self.ref:
            a = self.sig(i, self.ref[i])
            if i in self.cases:
                # calls to itself: by the contract, nothing but a result (checked below)
                a.outs = [('ret',)] if ('ret',) in a.outs else a.outs
            self.put(i, a)
        need = None if only is None else self.closure(only)
        self.time = {}
        for i in self.order():
            if need is not None and i not in need:
                continue
            if i in self.cases:
                # the cases were summarised with a provisional contract for the calls to itself:
                # repeat with the union until nothing changes
                an = self.union(i)
                for _ in range(4):
                    self.put(i, an)
                    for v in self.cases[i]:
                        if self.bykey and self.ref[i]['key'] in callees(self.ref[v]):
                            self.one(v)
                    n = self.union(i)
                    if (n.outs, n.deps, n.sticky) == (an.outs, an.deps, an.sticky):
                        break
                    an = n
                continue
            self.one(i)

    def one(self, i):
        f = self.ref[i]
        t0 = time.time()
        try:
            I = Interp(self.prog, self.anchors)
            I.drop = self.drop
            tm.set_budget(self.budget)
            tm.RANGES.clear()
            try:
                if '#' in i:
                    tm.set_budget(2)
                r = I.analyze(f, spec=True)
            except Budget:
                if I.assume is TRUE:
                    raise
            self.assume[i] = I.assume
            if I.assume is not TRUE:
                self.enter(i)
                r = Interp.fresh(I).analyze(f, spec=True)
            self.nf[i] = r
            tm.RANGES.clear()
            an = self.summary(i, f, r)
        except (Unsupported, Budget, RecursionError) as ex:
            self.errors[i] = '%s %s' % (type(ex).__name__, ex)
            an = self.sig(i, f)
        self.put(i, an)
        self.time[i] = self.time.get(i, 0) + time.time() - t0

    def enter(self, i):
        """start of an analysis under the contract of i"""
        tm.set_budget(self.budget)
        tm.RANGES.clear()
        tm.RANGES.update(tm.ranges_of(self.assume.get(i, TRUE)))

    def put(self, i, an):
        if '#' in i:
            self.summ[i] = an
            return
        a = Anchor(i, an.outs, an.deps, an.sticky, False)
        b = Anchor(i, an.outs, an.deps, an.sticky, True)
        self.anchors[self.repo[i]['key']] = a
        self.anchors[self.ref[i]['key']] = b

    def contract(self, a):
        """what the contract of the called operation says a call atom is; None if that is not known"""
        i, out = a.a[0], a.a[1]
        an = next((x for x in self.anchors.values() if x.id == i), None)
        if an is None or i in self.cases or i not in self.nf or not isinstance(an.deps, dict):
            return None
        o = next((o for o in an.outs if (o[0] if o == ('ret',) else 'p%d' % o[1] if o[0] == 'p' else o[1]) == out), None)
        if o is None or o in an.sticky or o not in self.nf[i]:
            return None
        val = dict(zip(an.deps[o], a.a[2:]))
        if len(val) != len(a.a) - 2:
            return None
        v = self.nf[i][o]
        if self.assume.get(i, TRUE) is not TRUE:
            v = ite(self.assume[i], v, tm.DC)
        m = {}
        for x in find_atoms(v, lambda t: t.op in ('arg', 'self', 'fld')):
            p, y = [], x
            while y.op == 'fld':
                p.append(y.a[1])
                y = y.a[0]
                if not isinstance(y, T):
                    break
            if isinstance(y, T) and y.op in ('arg', 'self'):
                d = (('p', y.a[0]) if y.op == 'arg' else ('F', y.a[0])) + tuple(reversed(p))
                if d in val:
                    m[x] = val[d]
        return subst(v, m) if m else v

    def union(self, i):
        outs, deps, sticky = [], {}, []
        for v in self.cases[i]:
            a = self.summ.get(v) or self.sig(v, self.ref[v])
            for o in a.outs:
                if o not in outs:
                    outs.append(o)
            for o in a.sticky:
                if o not in sticky:
                    sticky.append(o)
            if isinstance(a.deps, dict):
                for o, d in a.deps.items():
                    deps[o] = sorted(set(deps.get(o, [])) | set(d))
        n = len(self.ref[i]['params']) - 1
        for o in outs:
            # which case applies is decided from the arguments
            deps[o] = sorted(set(d for d in deps.get(o, []) if d[0] != 'p') | set(('p', j) for j in range(n)))
        return Anchor(i, outs, deps, sticky)

    def sig(self, i, f):
        outs = [('ret',)] if f.get('ret') not in ('void', None) else []
        n = len(f['params']) - 1
        for j, p in enumerate(f['params'][1:]):
            if p['t'].endswith('&') and not p['t'].startswith('const '):
                outs.append(('p', j))
        return Anchor(i, outs, [('p', j) for j in range(n)])

    def summary(self, i, f, r):
        outs, deps, sticky = [], {}, []
        for o, v in r.items():
            if o[0] == 'p':
                t = canon_vt(f['params'][o[1] + 1]['t'])
                if v is from_atom(mk('arg', (o[1],), scalar_kind(t), t)):
                    continue
            if o[0] == 'F' and o[1] == 'overflow_detected':
                at = mk('self', (o[1],), 'b', 'bool')
                v1 = subst(v, {at: TRUE})
                v0 = subst(v, {at: FALSE})
                if v1 is TRUE:
                    sticky.append(o)
                    v = v0
                    if v is FALSE:
                        continue
                elif v1 is v0:
                    v = v0
            outs.append(o)
            deps[o] = sorted(dep_paths(v))
        return Anchor(i, outs, deps, sticky)


def short(t):
    t = t.replace('AmiBase::', '').replace('std::', '')
    while True:
        k = t.find(', allocator<')
        if k < 0:
            return t
        d, j = 0, k + 2
        while j < len(t):
            if t[j] == '<':
                d += 1
            if t[j] == '>':
                d -= 1
                if d == 0:
                    j += 1
                    break
            j += 1
        t = t[:k] + t[j:].lstrip()


def dep_paths(v):
    """the inputs a value mentions, to field granularity"""
    out = set()
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
            return
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == 'arg':
            out.add(('p', t.a[0]))
            return
        if t.op == 'self':
            out.add(('F', t.a[0]))
            return
        if t.op == 'fld':
            p, x = [t.a[1]], t.a[0]
            while x.op == 'fld':
                p.append(x.a[1])
                x = x.a[0]
            if x.op == 'arg':
                out.add(('p', x.a[0]) + tuple(reversed(p)))
                return
        go(t.a)
    go(v)
    # drop parts of whole
    return set(p for p in out if not any(p[:n] in out for n in range(2, len(p))))
