"""Compare reference and repository functions; one process, one symbol seed.

stdin: {"dumps": [...], "ids": [names or full ids], "drop": [...], "budget": s, "deep": bool}
stdout: {"functions": {...}, "errors": n, ...}
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import *
from interp import Program
from tdiff import diff
import terms as tm
import small

SOFT = ('mu', 'first', 'idiv', 'cidx', 'trunc', 'mod', 'unk', 'pow', 'par', 'inv0')


def soft(v):
    """operations of v whose equality the normal form does not decide"""
    out = set()
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
            return
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op in SOFT:
            out.add((t.op, tuple(sorted(map(str, t.a[4]))) if t.op == 'mu' else ''))
        if t.op == 'call' and str(t.a[0]).startswith('?'):
            out.add(('call', str(t.a[0])))
        go(t.a)
    go(v)
    return out


def undefs(v):
    out = set()
    for a in find_atoms(v, lambda t: t.op == 'undef'):
        out.add(str(a.a[0]))
    return out


def calls(v):
    return set(a.a[0] for a in find_atoms(v, lambda t: t.op == 'call'))


class Cmp:
    def __init__(self, P, S, budget):
        self.P, self.S, self.budget = P, S, budget
        self.pairs = {}

    def spec_nf(self, i, inline):
        S = self.S
        if not inline:
            return S.nf[i], S.assume[i]
        I = Interp(self.P, self.anchors(inline))
        I.drop = S.drop
        S.enter(i)
        tm.set_budget(self.budget)
        tm.RANGES.update(tm.ranges_of(S.assume.get(i, TRUE)))
        return I.analyze(S.ref[i], spec=True), S.assume[i]

    def anchors(self, inline):
        return {k: a for k, a in self.S.anchors.items() if a.id not in inline}

    def repo_nf(self, i, inline):
        I = Interp(self.P, self.anchors(inline))
        I.drop = self.S.drop
        self.S.enter(i)
        tm.set_budget(self.budget)
        tm.RANGES.update(tm.ranges_of(self.S.assume.get(i, TRUE)))
        r = I.analyze(self.S.repo[i])
        return r, I

    def compare(self, i, inline=frozenset()):
        S = self.S
        a = S.summ[i] if '#' in i else S.anchors[S.ref[i]['key']]
        try:
            if i in S.errors:
                raise Unsupported('reference: ' + S.errors[i])
            sn, c = self.spec_nf(i, inline)
            rn, I = self.repo_nf(i, inline)
        except (Unsupported, Budget, RecursionError, KeyError, AttributeError, IndexError, TypeError,
                ValueError, AssertionError) as ex:
            return {'*': {'status': 'UNDECIDED', 'why': '%s %s' % (type(ex).__name__, str(ex)[:160])}}, set()
        res = {}
        cs = set()
        for o in sorted(set(sn) | set(rn), key=str):
            v, w = sn.get(o), rn.get(o)
            name = out_name(S.repo[i], o)
            if w is None and o[0] == 'p' and a.deps.get(o) is None:
                continue
            if w is None and o[0] == 'F':
                t = field_vt(self.P, o[1])
                w = from_atom(mk('self', (o[1],), scalar_kind(t), t))
            if v is None and o[0] == 'F':
                t = field_vt(self.P, o[1])
                v = from_atom(mk('self', (o[1],), scalar_kind(t), t))
            if v is None and o[0] == 'p':
                # an argument the contract leaves alone
                t = canon_vt(S.repo[i]['params'][o[1]]['t'])
                v = from_atom(mk('arg', (o[1],), scalar_kind(t), t))
            if v is None or w is None:
                res[name] = {'status': 'UNDECIDED', 'why': 'output missing'}
                continue
            if c is not TRUE:
                v, w = ite(c, v, ZERO), ite(c, w, ZERO)
            if v is w:
                res[name] = {'status': 'EQ', 'nodes': nodes(v)}
                continue
            facts = {'kind': o[0], 'kept': o[0] in ('p', 'F') and is_initial(v, o),
                     'own': bool(own(w, o)) and not own(v, o),
                     'selfs': sorted(selfs(w) - selfs(v))}
            if 'overflow_detected' in name:
                fv, fw = flags(v), flags(w)
                facts['lost'], facts['gained'] = sorted(fv - fw), sorted(fw - fv)
            cs |= calls(v) ^ calls(w)
            r = {'status': 'DIFF'}
            u = undefs(w) - undefs(v)
            sv, sw_ = soft(v), soft(w)
            stt = state(w)
            if stt:
                r['state'] = stt
            elif w.unk or v.unk:
                r = {'status': 'UNDECIDED', 'why': 'construct not modelled'}
            elif sv != sw_ and not u:
                r = {'status': 'UNDECIDED', 'why': 'recurrence or operation outside the decided fragment: ' +
                     ' '.join(sorted(str(x[0]) for x in sv ^ sw_))}
            if name not in self.pairs or not any(str(x).startswith('?') for x in calls(v) | calls(w)):
                self.pairs[name] = (v, w)
            if u:
                r['undef'] = sorted(u)
            r['calls'] = sorted(calls(v) | calls(w))
            try:
                r['diff'] = [{'at': '.'.join(pa), 'reference': sh(x), 'repository': sh(y)} for pa, x, y in diff(v, w, 2)]
            except Exception as ex:
                r['diff'] = [str(type(ex).__name__)]
            r.update(facts)
            res[name] = r
        return res, cs


def is_initial(v, o):
    if v.op != 'poly' and v.op != 'sw' and not isinstance(v, T):
        return False
    a = find_atoms(v, lambda t: True)
    return len(a) == 1 and list(a)[0].op == ('arg' if o[0] == 'p' else 'self')


def own(v, o):
    """the initial content of the output itself"""
    if o[0] == 'p':
        return find_atoms(v, lambda t: t.op == 'arg' and t.a[0] == o[1])
    return ()


STATEFUL = ('rand', 'random', 'drand48', 'time', 'clock', 'getenv', 'std::rand', 'std::time', 'std::clock', 'std::getenv')


def state(v):
    """values from outside the arguments and the configuration"""
    out = set()
    for a in find_atoms(v, lambda t: t.op == 'unk'):
        tag = str(a.a[0])
        k, _, n = tag.partition('-')
        if k in ('static', 'global') or (k == 'call' and (n in STATEFUL or 'chrono' in n or 'random_device' in n)):
            out.add(tag)
    return sorted(out)


def selfs(v):
    return set(str(a.a[0]) for a in find_atoms(v, lambda t: t.op in ('self', 'glob', 'static')))


def sh(x):
    return (show(x, 0, 9) if isinstance(x, T) else str(x))[:500]


def flags(v):
    return set(a.a[0] for a in find_atoms(v, lambda t: t.op == 'call') if str(a.a[0]).endswith('overflow_detected'))


def nodes(v):
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            go(t.a)
    go(v)
    return len(seen)


def field_vt(P, n):
    return canon_vt(next(f['t'] for f in P.records['AmiBase']['fields'] if f['name'] == n))


def out_name(f, o):
    if o[0] == 'p':
        return f['params'][o[1]].get('name') or 'arg%d' % o[1]
    if o[0] == 'F':
        return 'this.' + o[1]
    return 'result'


def emit(d):
    """one line per result, so that what was settled before a time limit is not lost"""
    print(json.dumps(d), flush=True)


def main():
    q = json.load(sys.stdin)
    P = Program()
    for d in q['dumps']:
        P.load(d)
    P.register_types()
    S = Specs(P, budget=q.get('budget', 60), drop=tuple(q.get('drop', ['overflow_detected'])))
    want = [i for i in S.order() if i not in S.cases and
            (i in q['ids'] or i.split('(')[0] in q['ids'] or i.split('#')[0] in q['ids'])]
    S.summarise(want)
    C = Cmp(P, S, q.get('budget', 60))
    out = {}
    missing = [n for n in q['ids'] if not any(i == n or i.split('(')[0] == n for i in want)]
    deadline = time.time() + q.get('total', 600)
    emit({'missing': missing, 'parse_errors': P.errors, 'seed': tm.SYMSEED,
          'reference': {i: {'file': S.ref[i]['loc']['f'], 'line': S.ref[i]['loc']['l']} for i in want}})
    for i in want:
        t = time.time()
        f = S.repo[i]
        if t > deadline:
            emit({'functions': {i: {'outputs': {'*': {'status': 'UNDECIDED', 'why': 'time'}}, 'file': f['loc']['f'],
                                    'line': f['loc']['l'], 'time': 0, 'level': 0}}})
            continue
        C.pairs = {}
        res, asym = C.compare(i)
        level = 0
        if q.get('deep', True) and any(r['status'] != 'EQ' for r in res.values()):
            inl, tried = frozenset(asym), set()
            while level < 5:
                if not inl or inl in tried:
                    every = set()
                    for r in res.values():
                        every |= set(r.get('calls', ()))
                    inl = frozenset(every)
                    if not inl or inl in tried:
                        break
                tried.add(inl)
                level += 1
                r2, more = C.compare(i, inl)
                for o, r in list(res.items()):
                    if r['status'] != 'EQ' and r2.get(o, {}).get('status') == 'EQ':
                        res[o] = dict(r2[o], inlined=sorted(inl))
                    elif r['status'] == 'DIFF' and asym and r2.get(o, r2.get('*', {})).get('status') == 'UNDECIDED':
                        res[o] = dict(r, status='UNDECIDED', why='different callees, and ' +
                                      r2.get(o, r2.get('*', {})).get('why', ''))
                    elif r['status'] == 'UNDECIDED' and r2.get(o, {}).get('status') == 'DIFF':
                        res[o] = r2[o]
                if '*' in res and r2 and '*' not in r2:
                    res = r2
                if all(r['status'] == 'EQ' for r in res.values()):
                    break
                inl = inl | frozenset(more)
        for o, r in res.items():
            if r['status'] == 'EQ' or o not in C.pairs or r.get('state'):
                continue
            x, y = C.pairs[o]
            t0 = time.time()
            how, info = small.judge(x, y, soft, max(12, min(45 if 'overflow_detected' in o else 90, deadline - t0)), S.contract)
            if how == 'differ' and small.ids(info['a']) != small.ids(info['b']):
                how, info = 'unknown', 'different callees'
            r['instances'] = how
            r['how'] = str((info['lengths'], info['steps'])) if how == 'differ' else info
            if os.environ.get('SMALLDBG'):
                print('small', i[:30], o, r['status'], how, info if how != 'differ' else (info['lengths'], info['steps']),
                      round(time.time() - t0, 2), file=sys.stderr)
            if how == 'same' and r['status'] == 'DIFF' and not r.get('undef'):
                r.update(status='UNDECIDED', why='normal forms differ, but not on inputs of small length')
            elif how == 'unknown' and r['status'] == 'DIFF' and 'overflow_detected' in o and not r.get('undef'):
                r.update(status='UNDECIDED', why='normal forms differ, but no instance shows it')
            elif how == 'differ' and r['status'] == 'UNDECIDED' and (
                    str(r.get('why', '')).startswith('recurrence') or
                    str(r.get('why', '')).startswith('different callees')):
                r.update(status='DIFF', instance='inputs of length %s, %s steps' % (info['lengths'], info['steps']))
                r['diff'] = [{'at': '.'.join(pa), 'reference': sh(p), 'repository': sh(q)}
                             for pa, p, q in diff(info['a'], info['b'], 2)]
        out[i] = {'outputs': res, 'file': f['loc']['f'], 'line': f['loc']['l'], 'time': round(time.time() - t, 2),
                  'level': level}
        emit({'functions': {i: out[i]}})


if __name__ == '__main__':
    main()
