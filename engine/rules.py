"""Rules over the typed syntax trees: effects, initialisation, layout, bindings."""
import json
import os

import front


class Ctx:
    """the parsed configurations, made once per check"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.libs = {}
        self.py = None
        self.parsed = {}

    def lib(self, mp=False):
        if mp not in self.libs:
            self.libs[mp] = front.dump(self.scratch, front.lib_jobs(mp))
        return self.libs[mp]

    def load(self, path):
        if path not in self.parsed:
            with open(path) as f:
                self.parsed[path] = json.load(f)
        return self.parsed[path]

    def analysed(self):
        out = []
        for mp in self.libs:
            out += [os.path.relpath(s, front.REPO) + (' [BOOST_MP]' if mp else '') for s in front.sources()]
        if self.py:
            out += [os.path.relpath(s, front.REPO) for s in front.pysources()]
        return out

    def funcs(self, mp=False):
        out = {}
        for t, p in sorted(self.lib(mp).items()):
            if t.startswith('s_'):
                continue
            for f in self.load(p)['functions']:
                out[f['key']] = f
        return out

    def records(self, mp=False):
        out = {}
        for t, p in sorted(self.lib(mp).items()):
            if t.startswith('s_'):
                continue
            for r in self.load(p)['records']:
                out[r['name']] = r
        return out

    def tops(self, what, mp=False):
        out = []
        for t, p in sorted(self.lib(mp).items()):
            if not t.startswith('s_'):
                out += self.load(p)[what]
        return out

    def effects(self):
        if not hasattr(self, '_eff'):
            import effects
            self._eff = effects.Effects(self.funcs().values())
        return self._eff

    def pydumps(self):
        if self.py is None:
            self.py = front.dump(self.scratch, front.py_jobs())
        return {k: self.load(p) for k, p in self.py.items()}


def rel(f):
    try:
        return os.path.relpath(f, front.REPO)
    except ValueError:
        return f


def fid(f):
    """identifier of a function as the comparison uses it"""
    from specs import short
    ts = [short(p['t'].replace('const ', '').rstrip('& ').rstrip()) for p in f['params']]
    return (f['name'].split('::')[-1] + '(' + ', '.join(ts) + ')').replace(' ', '')


def viol(f, line, output, why, detail=None, key=None):
    return {'key': key or '%s:%s' % (fid(f), output), 'where': '%s:%s' % (rel(f['loc']['f']), line or f['loc']['l']),
            'function': f['name'], 'output': output, 'why': why, 'detail': detail, 'fid': fid(f)}


def walk(x, fn):
    if isinstance(x, list):
        for y in x:
            walk(y, fn)
    elif isinstance(x, dict):
        fn(x)
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                walk(v, fn)


def amibase(f):
    return f.get('cls') == 'AmiBase' and not f.get('ctor') and not f.get('implicit')


# what the evaluation side may write: the overflow flag, and the listed argument positions
MAY_FILL = {'get_triggers': {5}, 'find_equal_values': {3}}
EVALUATORS = ['evaluate', 'evaluate_otf', 'detect_otf_trigger', 'star', 'optimized_star', 'fermi', 'fermi_pole',
              'fermi_bose', 'eval_gprod', 'eval_fprod', 'evaluate_term', 'dot', 'cross', 'get_energy_from_g',
              'get_energy_from_pole', 'frk', 'get_triggers', 'find_equal_values', 'eval_gprod_mp',
              'evaluate_term_mp', 'binomialCoeff']
OWN = {'AmiBase', 'AmiBase::g_struct', 'AmiBase::pole_struct', 'AmiBase::term', 'AmiBase::ami_vars',
       'AmiBase::ami_parms'}


def covers(ctx, key):
    """the library functions whose call closure holds the function"""
    from specs import callees
    F = ctx.funcs()
    if not hasattr(ctx, '_up'):
        ctx._up = {}
        for k, f in F.items():
            for c in callees(f):
                ctx._up.setdefault(c, set()).add(k)
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += ctx._up.get(k, ())
    return sorted(set(fid(F[k]) for k in seen if k in F))


def inputs_kept(ctx):
    """no evaluation function can write an argument of its caller or a setting of the object"""
    E = ctx.effects()
    res = {'rule': 'mod-ref: evaluation functions write nothing reachable from their reference arguments, and of the '
                   'object only the overflow flag', 'instances': 0, 'violations': [], 'samples': [], 'floor': 15}
    for k, f in sorted(ctx.funcs().items()):
        n = f['name'].split('::')[-1]
        if not amibase(f) or n not in EVALUATORS:
            continue
        s = E.of(k)
        res['instances'] += 1
        res['samples'].append('%s writes %s' % (fid(f)[:80], sorted(map(str, s)) or 'nothing'))
        for r in sorted(s, key=str):
            line, how = E.where.get((k, r), (None, ''))
            if r[0] == 'p' and r[1] not in MAY_FILL.get(n, ()):
                nm = f['params'][r[1]].get('name') or 'arg%d' % r[1]
                res['violations'].append(dict(viol(f, line, nm, 'the argument %s may be written (%s)' % (nm, how)),
                                              covers=[fid(f)]))
            elif r[0] == 'F' and r[1] != 'overflow_detected' and r[1] in fields(ctx, 'AmiBase'):
                res['violations'].append(dict(viol(f, line, 'this.' + r[1], 'the object field %s may be written (%s)' %
                                                   (r[1], how)), covers=[fid(f)]))
    return res


def fields(ctx, rec):
    r = ctx.records().get(rec)
    return set(x['name'] for x in r['fields']) if r else set()


STATEFUL = ('rand', 'srand', 'random', 'drand48', 'time', 'clock', 'getenv', 'gettimeofday', 'clock_gettime')


def no_state(ctx):
    """nothing survives a call except the overflow flag, and nothing outside the arguments is read"""
    E = ctx.effects()
    res = {'rule': 'no library function keeps or reads state outside its arguments and the configuration: no '
                   'non-constant static or global, no clock, environment or random source, no object field written '
                   'except the overflow flag', 'instances': 0, 'violations': [], 'samples': [], 'floor': 40}
    own = fields(ctx, 'AmiBase')
    for k, f in sorted(ctx.funcs().items()):
        if f.get('implicit'):
            continue
        res['instances'] += 1
        found = []

        def look(x):
            kk = x.get('k')
            if kk == 'decl':
                for v in x['v']:
                    if v.get('static') and not v.get('const'):
                        found.append((v['l'], 'static ' + v['name'], 'a static variable keeps state between calls'))
            elif kk == 'ref' and x.get('dk') == 'global' and x.get('in') and not x.get('const'):
                found.append((x['l'], 'global ' + x['name'], 'a global variable is used'))
            elif kk == 'call' or kk == 'ctor':
                n = x.get('fn', '')
                b = n.split('::')[-1]
                if (kk == 'call' and b in STATEFUL and (x.get('std') or '::' not in n)) or 'chrono::' in n or \
                        'random_device' in n:
                    found.append((x['l'], 'call ' + n, 'a value from outside the arguments is read'))
        walk(f.get('body'), look)
        if amibase(f):
            for r in sorted(E.of(k) or (), key=str):
                if r[0] == 'F' and r[1] in own and r[1] != 'overflow_detected':
                    line, how = E.where.get((k, r), (None, ''))
                    if not f['name'].split('::')[-1].startswith('operator'):
                        found.append((line, 'this.' + r[1], 'the object field %s is written (%s)' % (r[1], how)))
        if f['name'].split('::')[-1].startswith('print_'):
            continue
        for line, o, why in found:
            res['violations'].append(dict(viol(f, line, o, why), covers=covers(ctx, k)))
    return res


def printers_inert(ctx):
    """the diagnostic printers change nothing"""
    E = ctx.effects()
    res = {'rule': 'functions that print write no argument, no object field and no global; nothing guarded by the '
                   'verbosity switch writes outside the guard', 'instances': 0, 'violations': [], 'samples': [],
           'floor': 10}
    import effects
    for k, f in sorted(ctx.funcs().items()):
        n = f['name'].split('::')[-1]
        if amibase(f) and n.startswith('print_'):
            res['instances'] += 1
            for r in sorted(E.of(k) or (), key=str):
                if r[0] in ('p', 'g') or (r[0] == 'F' and r[1] in fields(ctx, 'AmiBase')):
                    line, how = E.where.get((k, r), (None, ''))
                    res['violations'].append(viol(f, line, str(r[-1]), 'a printing function writes %s (%s)' %
                                                  (r[-1], how)))

        def look(x, f=f, k=k):
            if x.get('k') != 'if' or not mentions_verbose(x['c']):
                return
            res['instances'] += 1
            inner = set()

            def decls(y):
                if y.get('k') == 'decl':
                    inner.update(v['id'] for v in y['v'])
            walk(x['then'], decls)
            o = effects.One(E, f)
            # every variable of the function outside the guarded block counts as observable
            seen = {}

            def refs(y):
                if y.get('k') == 'ref' and y.get('dk') in ('local', 'param') and y['id'] not in inner:
                    seen[y['id']] = y['name']
            walk(x['then'], refs)
            base = effects.One(E, f)
            base.run()
            for i, nm in seen.items():
                o.alias[i] = base.alias.get(i, frozenset()) | frozenset([('v', nm)])
            o.E = E
            keep = dict(E.where)
            o.walk(x['then'])
            E.where.clear()
            E.where.update(keep)
            for r in sorted(o.w, key=str):
                if r[0] == 'F' and r[1] == 'overflow_detected':
                    continue
                if r[0] == 'F' and r[1] not in fields(ctx, 'AmiBase'):
                    continue
                res['violations'].append(dict(viol(f, x['l'], str(r[-1]), 'code that runs only when diagnostics are on '
                                                   'writes %s' % (r[-1],)), covers=covers(ctx, k)))

            def jumps(y):
                if y.get('k') in ('ret', 'break', 'continue') or y.get('cls') == 'CXXThrowExpr':
                    res['violations'].append(dict(viol(f, y.get('l'), 'control', 'code that runs only when diagnostics '
                                                       'are on leaves the function or loop'), covers=covers(ctx, k)))
            walk(x['then'], jumps)
        walk(f.get('body'), look)
    return res


def mentions_verbose(c):
    hit = []

    def look(x):
        if x.get('k') == 'member' and x.get('name') == 'verbose' and x.get('rec') == 'AmiBase':
            hit.append(x)
    walk(c, look)
    return bool(hit)


SCALAR = ('int', 'double', 'float', 'bool', 'long', 'unsigned', 'char', 'AmiBase::')


def scalar(t):
    return t in ('int', 'double', 'float', 'bool', 'long', 'unsigned int', 'unsigned long', 'char') or \
        t.endswith('*') or t in ('AmiBase::stat_type', 'AmiBase::graph_type', 'AmiBase::int_type',
                                 'AmiBase::disp_type', 'AmiBase::ext_type')


def members_initialised(ctx):
    """after every constructor, every scalar member holds a value"""
    E = ctx.effects()
    res = {'rule': 'every scalar member of every public type is set by its in-class initialiser, the constructor\'s '
                   'initialiser list or an unconditional assignment in the constructor', 'instances': 0,
           'violations': [], 'samples': [], 'floor': 30}
    F = ctx.funcs()
    for rn, r in sorted(ctx.records().items()):
        if rn not in OWN:
            continue
        ctors = [f for f in F.values() if f.get('ctor') and f.get('cls') == rn]
        need = [x for x in r['fields'] if scalar(x['t'])]
        user = [c for c in ctors if not c.get('defaulted') and not c.get('implicit')]
        for x in need:
            if x.get('init') is not None:
                res['instances'] += 1
                continue
            if not user:
                res['instances'] += 1
                res['violations'].append({'key': '%s:%s' % (rn, x['name']), 'where': rel(r.get('loc', {}).get('f', '?')),
                                          'function': rn, 'output': x['name'], 'fid': rn,
                                          'why': 'member %s is never initialised' % x['name'], 'detail': None})
                continue
            for c in user:
                res['instances'] += 1
                if c['ctor'] in ('copy', 'move') or is_copy(c, rn):
                    continue
                if sets(c, x['name'], F):
                    continue
                res['violations'].append(viol(c, None, x['name'], 'the constructor leaves member %s without a value' %
                                              x['name'], key='%s:%s' % (fid(c), x['name'])))
    return res


def is_copy(c, rn):
    return len(c['params']) == 1 and c['params'][0]['t'].replace('const ', '').rstrip('& ').strip() == rn


def sets(c, name, F):
    for i in c.get('inits') or []:
        if i.get('field') == name or i.get('name') == name:
            return True
        if i.get('delegating') or i.get('deleg'):
            return True
    body = c.get('body') or {}
    for s in body.get('b', []):
        if s.get('k') == 'expr':
            e = s['e']
            while e.get('k') == 'assign':
                l = e['lhs']
                if l.get('k') == 'member' and l['name'] == name and l['b'].get('k') == 'this':
                    return True
                e = e['rhs']
                while e.get('k') == 'cast':
                    e = e['e']
            if e.get('k') == 'mcall' and e.get('obj', {}).get('k') == 'this':
                g = F.get(e.get('fk'))
                if g and g is not c and sets(g, name, F):
                    return True
    return False


def layout_same(ctx):
    """objects have the same layout with and without the multiprecision option"""
    res = {'rule': 'size, alignment, member order, offsets, types and default values of every public type agree between '
                   'the default and the multiprecision configuration; enumerators have the same values', 'instances': 0,
           'violations': [], 'samples': [], 'floor': 40}
    A, B = ctx.records(False), ctx.records(True)
    for rn in sorted(set(A) | set(B)):
        if rn not in OWN and not rn.startswith('AmiBase'):
            continue
        a, b = A.get(rn), B.get(rn)
        if a is None or b is None:
            res['violations'].append(rv(rn, 'type', 'the type exists in only one configuration'))
            continue
        res['instances'] += 2
        for q in ('size', 'align'):
            if a.get(q) != b.get(q):
                res['violations'].append(rv(rn, q, '%s differs: %s and %s' % (q, a.get(q), b.get(q))))
        fa, fb = {x['name']: x for x in a['fields']}, {x['name']: x for x in b['fields']}
        for n in sorted(set(fa) | set(fb)):
            res['instances'] += 1
            if n not in fa or n not in fb:
                res['violations'].append(rv(rn, n, 'member %s exists in only one configuration' % n))
                continue
            x, y = fa[n], fb[n]
            for q in ('off', 't'):
                if x[q] != y[q]:
                    res['violations'].append(rv(rn, n, 'member %s: %s differs: %s and %s' % (n, q, x[q], y[q])))
            if strip(x.get('init')) != strip(y.get('init')):
                res['violations'].append(rv(rn, n, 'member %s: default value differs' % n))
    ea = {e['name']: e for e in ctx.tops('enums', False)}
    eb = {e['name']: e for e in ctx.tops('enums', True)}
    for n in sorted(set(ea) | set(eb)):
        res['instances'] += 1
        if strip(ea.get(n)) != strip(eb.get(n)):
            res['violations'].append(rv(n, 'enumerators', 'enumerators differ'))
    return res


def strip(x):
    """without positions"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ('l', 'loc', 'id', 'c')}
    if isinstance(x, list):
        return [strip(y) for y in x]
    return x


def rv(rn, o, why):
    return {'key': '%s:%s' % (rn, o), 'where': 'src/ami_base.hpp', 'function': rn, 'output': o, 'why': why,
            'detail': None, 'fid': rn}


def strarg(e):
    hit = []

    def look(x):
        if x.get('k') == 'str' and not hit:
            hit.append(x['v'])
    walk(e, look)
    return hit[0] if hit else None


def target(e):
    """the entity an argument &X::m, X::e, or overload_cast<..>(&X::f) names"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'un'):
        e = e['e']
    if isinstance(e, dict) and e.get('k') == 'ref':
        return e
    if isinstance(e, dict) and e.get('k') in ('opcall', 'call', 'mcall'):
        refs = []

        def look(x):
            if x.get('k') == 'ref' and x.get('dk') == 'fn':
                refs.append(x)
        walk(e.get('a'), look)
        if len(refs) == 1:
            return refs[0]
    return None


def cls_of(cls):
    """pybind11::class_<X> -> X"""
    if '<' not in cls:
        return ''
    return cls[cls.index('<') + 1:-1]


def base_t(t):
    t = t.strip()
    while True:
        u = t
        if u.endswith('&') or u.endswith('*'):
            u = u[:-1].strip()
        if u.startswith('const '):
            u = u[6:].strip()
        if u.endswith(' const'):
            u = u[:-6].strip()
        if u == t:
            return t
        t = u


BUILTIN = ('int', 'double', 'float', 'bool', 'void', 'std::complex<double>', 'unsigned int', 'unsigned long', 'long',
           'std::complex<float>', 'char')


def elems(t):
    """element types of a converted (copied) standard container"""
    if t.startswith('std::vector<') or t.startswith('std::pair<') or t.startswith('std::array<') or \
            t.startswith('std::tuple<'):
        d, cur, out = 0, '', []
        for ch in t[t.index('<') + 1:-1]:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        out.append(cur.strip())
        return [x for x in out if not x.startswith('std::allocator')]
    return None


def python_binding(ctx):
    res = {'rule': 'every binding statement names the entity it binds; every type in a bound signature is registered; '
                   'every container filled through a reference is bound by reference and not copied; every public data '
                   'member, enumerator and construction/evaluation entry point already reachable stays reachable',
           'instances': 0, 'violations': [], 'samples': [], 'floor': 60, 'undecided': []}
    D = ctx.pydumps()
    opaque, bound, classes, enums = set(), {}, set(), set()
    members, values, methods, inits = [], [], [], []
    recs, enumdefs, decls = {}, {}, []
    for k, d in D.items():
        if d['errors']:
            res['undecided'].append('%s does not parse' % k)
            res['floor'] = 0
            return res
        for r in d['records']:
            recs[r['name']] = r
        for e in d['enums']:
            enumdefs[e['name']] = e
        decls += d['decls']
        for s in d['specs']:
            if s['name'].endswith('type_caster') and s['args']:
                opaque.add(s['args'][0])
        for f in d['functions']:
            if f['name'].startswith('AmiBase'):
                continue

            def look(x, f=f):
                kk = x.get('k')
                cls = x.get('cls', '') or ''
                if kk == 'ctor' and cls.startswith('pybind11::class_<') and x.get('ck') != 'copy' and x.get('ck') != 'move':
                    classes.add(base_t(first(cls_of(cls))))
                if kk == 'ctor' and cls.startswith('pybind11::enum_<') and x.get('ck') not in ('copy', 'move'):
                    enums.add(first(cls_of(cls)))
                if kk == 'call' and last(x['fn']) == 'bind_vector':
                    bound[x['ta'][0]] = strarg(x['a']) if x.get('ta') else None
                if kk == 'mcall' and cls.startswith(('pybind11::class_<', 'pybind11::enum_<')):
                    n = last(x['fn'])
                    own = first(cls_of(cls))
                    if n in ('def_readwrite', 'def_readonly'):
                        members.append((own, n, strarg(x['a'][0]), target(x['a'][1]), x['l'], f))
                    elif n == 'value':
                        values.append((own, strarg(x['a'][0]), target(x['a'][1]), x['l'], f))
                    elif n == 'def' and x['a'] and strarg(x['a'][0]) is not None and 'init' not in x['fk'].split(' : ')[0]:
                        methods.append((own, strarg(x['a'][0]), target(x['a'][1]) if len(x['a']) > 1 else None, x['l'], f, x))
                    elif n == 'def' and x.get('a'):
                        inits.append((own, x, f))
            walk(f.get('body'), look)

    def bad(f, line, name, why):
        res['violations'].append({'key': 'python:%s' % name, 'where': '%s:%s' % (rel(f['loc']['f']), line),
                                  'function': f['name'], 'output': name, 'why': why, 'detail': None, 'fid': 'python'})
    seen = set()
    # each name reaches the entity of that name
    for own, kind, nm, t, line, f in members:
        res['instances'] += 1
        if t is None:
            res['undecided'].append('attribute %s.%s: accessor not a member pointer' % (own, nm))
            continue
        tn = t.get('name', '').split('::')[-1]
        tc = t.get('cls') or '::'.join((t.get('qn') or t.get('name', '')).split('::')[:-1])
        if tn != nm and nm in fieldnames(recs, own):
            bad(f, line, '%s.%s' % (own, nm), 'attribute %s of %s reads and writes the member %s' % (nm, own, tn))
        if tc and tc in recs and tc != own:
            bad(f, line, '%s.%s' % (own, nm), 'attribute %s of %s belongs to %s' % (nm, own, tc))
        if kind == 'def_readonly':
            bad(f, line, '%s.%s' % (own, nm), 'attribute %s of %s cannot be set' % (nm, own))
        seen.add((own, tn))
    res['samples'] += ['%s.%s -> %s' % (o, n, (t or {}).get('name')) for o, k, n, t, l, f in members[:6]]
    # every public data member of a bound parameter type is reachable
    where = next((f for d in D.values() for f in d['functions'] if not f['name'].startswith('AmiBase')), None)
    for c in sorted(classes):
        if c == 'AmiBase' or c not in recs:
            continue
        for x in recs[c]['fields']:
            if x.get('access', 'public') != 'public':
                continue
            res['instances'] += 1
            if (c, x['name']) not in seen and not any(u.startswith('attribute %s.' % c) for u in res['undecided']):
                bad(where, where['loc']['l'], '%s.%s' % (c, x['name']), 'member %s of %s is not reachable from Python' %
                    (x['name'], c))
    for own, nm, t, line, f in values:
        res['instances'] += 1
        if t is None:
            res['undecided'].append('enumerator %s.%s' % (own, nm))
            continue
        if t['name'].split('::')[-1] != nm:
            bad(f, line, '%s.%s' % (own, nm), 'enumerator %s of %s has the value of %s' %
                (nm, own, t['name'].split('::')[-1]))
    for e in sorted(enums):
        have = set(t['name'].split('::')[-1] for o, n, t, l, f in values if o == e and t)
        for c in enumdefs.get(e, {}).get('c', []):
            n = c['n'] if isinstance(c, dict) and 'n' in c else c['name'] if isinstance(c, dict) else c[0] if isinstance(c, (list, tuple)) else c
            res['instances'] += 1
            if n.split('::')[-1] not in have:
                bad(where, where['loc']['l'], '%s.%s' % (e, n), 'enumerator %s of %s is not reachable from Python' % (n, e))
    sigs, wraps = [], []
    for own, nm, t, line, f, x in methods:
        res['instances'] += 1
        if t is None:
            lam = []
            walk(x['a'][1:2], lambda y: lam.append(y) if y.get('k') == 'lambda' else None)
            r = wrapper(ctx, lam[0], nm) if own == 'AmiBase' and len(lam) == 1 else 'bound through a wrapper'
            if isinstance(r, str):
                res['undecided'].append('method %s.%s: %s' % (own, nm, r))
                wraps.append(nm)
                continue
            m, op, wrong = r
            for why in wrong:
                bad(f, line, '%s.%s' % (own, nm), why)
            sigs.append((own, nm, line, f, [p['t'] for p in op['params'][1:]], op.get('ret', 'void'), m))
            continue
        tn = t['name'].split('::')[-1]
        known = set(d['name'].split('::')[-1] for d in decls if d.get('cls') == own)
        if tn != nm and nm in known:
            bad(f, line, '%s.%s' % (own, nm), 'method %s calls %s' % (nm, tn))
        sig = [base_t(p) for p in t.get('pt', [])]
        ret = t.get('t', 'void').split('(')[0].strip()
        sigs.append((own, nm, line, f, t.get('pt', []), ret, t.get('fk')))
        methods_key = (own, nm, tuple(t.get('pt', [])))
        if methods_key in seen:
            bad(f, line, '%s.%s' % (own, nm), 'method %s is bound twice with the same signature' % nm)
        seen.add(methods_key)
    have = set((o, n) for o, n, *_ in methods)
    count = {}
    for o, n, *_ in methods:
        count[(o, n)] = count.get((o, n), 0) + 1
    for n, c in (('construct', 2), ('evaluate', 4), ('factorize_Rn', 1), ('factorize_terms', 1)):
        res['instances'] += 1
        if count.get(('AmiBase', n), 0) < c:
            bad(where, where['loc']['l'], 'AmiBase.' + n, '%d of %d forms of %s are reachable from Python' %
                (count.get(('AmiBase', n), 0), c, n))
    # registered and by reference
    known = classes | enums | set(bound)

    def registered(t):
        t = base_t(t)
        if t in BUILTIN or t in known or t.startswith('std::basic_string') or t.startswith('pybind11::'):
            return True
        if t in opaque:
            return False
        es = elems(t)
        return es is not None and all(registered(e) for e in es)
    E = ctx.effects()
    for own, nm, line, f, pt, ret, fk in sigs:
        w = E.of(fk)
        for pi, p in enumerate(list(pt) + [ret]):
            res['instances'] += 1
            b = base_t(p)
            if not registered(p):
                bad(f, line, '%s.%s' % (own, nm), 'type %s in the signature of %s is not registered' % (brief(b), nm))
            elif p.endswith('&') and not p.startswith('const ') and elems(b) is not None and \
                    (w is None or ('p', pi) in w) and \
                    (b not in bound or b not in opaque):
                bad(f, line, '%s.%s' % (own, nm), 'argument of type %s of %s is copied, what the library writes to it '
                    'is lost' % (brief(b), nm))
    for own, kind, nm, t, line, f in members:
        if t is not None and not registered(t.get('t', 'int')):
            bad(f, line, '%s.%s' % (own, nm), 'type of attribute %s is not registered' % nm)
    for b in sorted(bound):
        res['instances'] += 1
        if b not in opaque:
            bad(where, where['loc']['l'], 'bind_vector ' + brief(b), 'container %s is bound by reference but still '
                'converted by copy' % brief(b))
    return res


def wrapper(ctx, lam, nm):
    """a lambda bound in place of a method of the same name: (method, lambda, what it gets wrong), or why that is open"""
    from interp import Program, Interp, Unsupported
    from calls import Anchor
    import terms as tm
    from terms import from_atom, mk, scalar_kind, canon_vt, call_, find_atoms, Budget
    P = Program()
    for k, p in sorted(ctx.py.items()):
        P.load(p)
    P.register_types()
    op = P.funcs.get(lam.get('op'))
    if op is None or not op.get('body') or not op['params'] or base_t(op['params'][0]['t']) != 'AmiBase':
        return 'bound through a wrapper'
    E = ctx.effects()
    ms = [f for f in ctx.funcs().values() if amibase(f)]
    for f in ms:
        P.funcs.setdefault(f['key'], f)
    tail = [canon_vt(base_t(p['t'])) for p in op['params'][1:]]
    own = [d for d in ms if d['name'].split('::')[-1] == nm and [canon_vt(base_t(p['t'])) for p in d['params']] == tail]
    if len(own) != 1:
        return 'bound through a wrapper with a signature of its own'
    anchors = {}
    for d in ms:
        w = E.of(d['key'])
        outs = [('ret',)] if d.get('ret') not in ('void', None) else []
        outs += [('p', i) for i, p in enumerate(d['params']) if p['t'].endswith('&') and
                 not p['t'].startswith('const ') and (w is None or ('p', i) in w)]
        anchors[d['key']] = Anchor(d['key'], outs, [('p', i) for i in range(len(d['params']))])
    m = own[0]
    try:
        tm.set_budget(20)
        tm.RANGES.clear()
        got = Interp(P, anchors).analyze(op, spec=True)
    except (Unsupported, Budget, KeyError, AttributeError, TypeError, IndexError, ValueError) as ex:
        return 'bound through a wrapper (%s)' % ex
    arg = [from_atom(mk('arg', (j,), scalar_kind(t), t)) for j, t in enumerate(tail)]
    wrong = []
    for o in anchors[m['key']].outs:
        vt = canon_vt(m['ret'] if o == ('ret',) else base_t(m['params'][o[1]]['t']))
        want = call_(m['key'], 'ret' if o == ('ret',) else 'p%d' % o[1], vt, arg)
        v = got.pop(o, None)
        if v is want:
            continue
        if v is not None and v.unk and not find_atoms(v, lambda a: a.op == 'undef'):
            return 'bound through a wrapper (construct not modelled)'
        what = 'result' if o == ('ret',) else 'argument %d' % (o[1] + 1)
        wrong.append('%s of %s: %s' % (what, nm, 'what the library writes to it is lost' if v is None else
                                       'the wrapper passes on something else than the library computes'))
    for o, v in got.items():
        if o[0] == 'p' and v is not arg[o[1]] or o[0] == 'F':
            wrong.append('the wrapper of %s changes %s' % (nm, 'argument %d' % (o[1] + 1) if o[0] == 'p' else o[1]))
    return m['key'], op, wrong


def last(n):
    import effects
    return effects.last(n)


def fieldnames(recs, own):
    return set(x['name'] for x in recs[own]['fields']) if own in recs else set()


def first(t):
    """first template argument"""
    d, cur = 0, ''
    for ch in t:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            break
        cur += ch
    return cur.strip()


def brief(t):
    from specs import short
    return short(t)


def constructors(ctx):
    """what every constructor of the public types stores, and the settings of a new object"""
    import ctors
    from tdiff import diff
    from terms import show, T, find_atoms
    res = {'rule': 'the record every constructor builds equals, member by member, the documented one: the arguments '
                   'given and the documented defaults for the rest; a new object has the documented settings',
           'instances': 0, 'violations': [], 'samples': [], 'floor': 25, 'undecided': []}
    d = front.dump(ctx.scratch, [('k_ctor', os.path.join(front.VERIF, 'spec', 'ctor.cpp'), front.BASE)])
    libs = [p for t, p in sorted(ctx.lib().items()) if not t.startswith('s_')]
    for n, (a, b, f, P) in ctors.pairs(libs + [d['k_ctor']]).items():
        res['instances'] += 1
        if P.errors:
            res['undecided'].append('%s: the signature changed' % n)
            continue
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            res['undecided'].append('%s: %s' % (n, a if isinstance(a, str) else b))
            continue
        if a is b:
            res['samples'].append(n)
            continue
        und = find_atoms(a, lambda t: t.op == 'undef')
        if (a.unk or b.unk) and not und:
            res['undecided'].append('%s: construct not modelled' % n)
            continue
        det = [{'at': '.'.join(p), 'reference': str(x)[:300], 'repository': str(y)[:300]} for p, x, y in diff(b, a, 3)]
        what = ctor_decl(ctx, n)
        res['violations'].append({'key': 'ctor:' + n, 'where': what or 'src/ami_base.hpp:1', 'function': 'constructor ' + n,
                                  'output': 'record', 'fid': 'ctor:' + n, 'detail': det,
                                  'why': 'the constructor stores something else than its arguments and the documented '
                                         'defaults'})
    return res


def constructors_set(ctx):
    """no constructor reads a member before it is set"""
    import ctors
    from terms import T, find_atoms
    res = {'rule': 'no member of a record a constructor builds is computed from a member or local that was not set yet',
           'instances': 0, 'violations': [], 'samples': [], 'floor': 25, 'undecided': []}
    d = front.dump(ctx.scratch, [('k_ctor', os.path.join(front.VERIF, 'spec', 'ctor.cpp'), front.BASE)])
    libs = [p for t, p in sorted(ctx.lib().items()) if not t.startswith('s_')]
    for n, (a, b, f, P) in ctors.pairs(libs + [d['k_ctor']]).items():
        res['instances'] += 1
        if P.errors or not isinstance(a, T):
            res['undecided'].append('%s: %s' % (n, 'the signature changed' if P.errors else a))
            continue
        had = set(str(x.a[0]) for x in find_atoms(b, lambda t: t.op == 'undef')) if isinstance(b, T) else set()
        und = set(str(x.a[0]) for x in find_atoms(a, lambda t: t.op == 'undef')) - had
        if und:
            res['violations'].append({'key': 'unset:' + n, 'where': ctor_decl(ctx, n) or 'src/ami_base.hpp:1',
                                      'function': 'constructor ' + n, 'output': 'record', 'fid': 'ctor:' + n,
                                      'detail': sorted(und), 'why': 'a member of the new record has no value, or is computed '
                                                                    'from one that has none'})
        else:
            res['samples'].append(n)
    return res


CTOR_OF = {'vars': 'AmiBase::ami_vars', 'parms': 'AmiBase::ami_parms', 'g': 'AmiBase::g_struct',
           'pole': 'AmiBase::pole_struct', 'term': 'AmiBase::term', 'obj': 'AmiBase', 'objp': 'AmiBase'}


def ctor_decl(ctx, n):
    """where the constructor the pair is about is written"""
    kind, _, sig = n.partition('_')
    cls = CTOR_OF[kind]
    want = 0 if kind == 'obj' or sig == 'none' else 1 if kind == 'objp' else len(sig)
    for k, f in sorted(ctx.funcs().items()):
        if f.get('ctor') and f.get('cls') == cls and len(f['params']) == want and not is_copy(f, cls):
            return '%s:%s' % (rel(f['loc']['f']), f['loc']['l'])
    return None
