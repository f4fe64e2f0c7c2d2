"""Which parameters, object fields and globals a function may write (flow-insensitive, through the call graph)."""

READONLY_STD = {'std::accumulate', 'std::find', 'std::find_if', 'std::find_if_not', 'std::count', 'std::count_if',
                'std::equal', 'std::all_of', 'std::any_of', 'std::none_of', 'std::distance', 'std::max_element',
                'std::min_element', 'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::inner_product',
                'std::next', 'std::prev', 'std::search', 'std::mismatch', 'std::lower_bound', 'std::upper_bound',
                'std::binary_search', 'std::is_sorted', 'std::adjacent_find', 'std::for_each', 'std::make_pair',
                'std::pair', 'std::get', 'std::move', 'std::forward', 'std::min', 'std::max', 'std::abs',
                'std::back_inserter', 'std::inserter', 'std::make_tuple', 'std::tie', 'std::lexicographical_compare',
                'std::includes', 'std::size', 'std::empty', 'std::data', 'std::as_const', 'std::ref', 'std::cref'}
COPYING = {'std::copy', 'std::copy_if', 'std::copy_n', 'std::transform', 'std::reverse_copy', 'std::partial_sum',
           'std::copy_backward', 'std::unique_copy', 'std::replace_copy', 'std::remove_copy_if', 'std::merge',
           'std::set_union', 'std::set_intersection', 'std::set_difference'}
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'back', 'front', 'at', 'data', 'operator[]', 'cbegin', 'cend', 'size',
          'empty', 'operator*', 'operator->', 'find', 'count', 'lower_bound', 'upper_bound', 'capacity', 'reserve',
          'base', 'real', 'imag', 'get'}
ITER = ('iterator', '_Bit_reference', 'insert_iterator', 'reference_wrapper')


def last(n):
    # strip template arguments, then the last component
    d, out = 0, ''
    for ch in n:
        if ch == '<' and not out.endswith('operator'):
            d += 1
        elif ch == '>' and d and not out.endswith('operator'):
            d -= 1
        elif d == 0:
            out += ch
    return out.split('::')[-1]


def indirect(t):
    return any(x in t for x in ITER) or t.rstrip().endswith('*')


class Effects:
    def __init__(self, funcs):
        self.funcs = {f['key']: f for f in funcs if f.get('body')}
        self.sum = {k: frozenset() for k in self.funcs}
        self.where = {}
        changed = True
        while changed:
            changed = False
            for k, f in self.funcs.items():
                s = One(self, f).run()
                if s != self.sum[k]:
                    self.sum[k] = s
                    changed = True

    def of(self, key):
        return self.sum.get(key)


class One:
    def __init__(self, E, f):
        self.E, self.f = E, f
        self.alias = {}
        self.w = set()
        self.ref = {}
        for i, p in enumerate(f['params']):
            t = p['t']
            if t.endswith('&') or t.endswith('*') or indirect(t):
                self.alias[p['id']] = frozenset([('p', i)])

    def run(self):
        for _ in range(4):
            n = (len(self.w), sum(len(v) for v in self.alias.values()))
            for x in self.f.get('inits') or []:
                self.walk(x)
            self.walk(self.f['body'])
            if n == (len(self.w), sum(len(v) for v in self.alias.values())):
                break
        return frozenset(self.w)

    # what storage of the caller an expression denotes or points to
    def roots(self, e):
        if not isinstance(e, dict):
            return frozenset()
        k = e.get('k')
        if k == 'ref':
            if e['dk'] == 'global' or e['dk'] == 'static':
                return frozenset([('g', e['name'])]) if not e.get('const') else frozenset()
            return self.alias.get(e.get('id'), frozenset())
        if k == 'this':
            return frozenset([('this',)])
        if k == 'member':
            r = self.roots(e['b'])
            return frozenset(('F', e['name']) if x == ('this',) else x for x in r)
        if k == 'cast':
            if e.get('ck') == 'LValueToRValue' and not indirect(e['t']):
                return frozenset()
            return self.roots(e['e'])
        if k == 'un':
            return self.roots(e['e']) if e['op'] in ('*', '&', '++', '--') else frozenset()
        if k == 'cond':
            return self.roots(e['a']) | self.roots(e['b'])
        if k in ('assign', 'cassign'):
            return self.roots(e['lhs'])
        if k in ('mcall', 'opcall', 'call', 'ctor'):
            t = e.get('t', '')
            if e.get('vc') == 'l' or e.get('vc') == 'x' or indirect(t) or t.endswith('&'):
                r = set(self.roots(e.get('obj'))) if k == 'mcall' else set()
                for a in e.get('a', []):
                    if a.get('vc') in ('l', 'x') or indirect(a.get('t', '')):
                        r |= self.roots(a)
                if k == 'mcall' or k == 'opcall':
                    # element access: only the object matters
                    if k == 'mcall':
                        return self.roots(e.get('obj'))
                    return self.roots(e['a'][0]) if e['a'] else frozenset()
                return frozenset(r)
            return frozenset()
        if k == 'bin' and indirect(e.get('t', '')):
            return self.roots(e['a'][0] if isinstance(e['a'], list) else e['a'])
        for key in ('e', 'b'):
            if isinstance(e.get(key), dict) and e.get('vc') in ('l', 'x'):
                return self.roots(e[key])
        return frozenset()

    def write(self, e, why='='):
        for r in self.roots(e):
            if r == ('this',):
                r = ('F', '*')
            self.w.add(r)
            self.E.where.setdefault((self.f['key'], r), (e.get('l'), why))

    def bind(self, i, e):
        r = self.roots(e)
        if r:
            self.alias[i] = self.alias.get(i, frozenset()) | r

    def walk(self, x):
        if isinstance(x, list):
            for y in x:
                self.walk(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k in ('assign', 'cassign'):
            self.write(x['lhs'])
            if indirect(x.get('t', '')):
                l = x['lhs']
                if l.get('k') == 'ref' and l.get('id') is not None:
                    self.bind(l['id'], x['rhs'])
        elif k == 'un' and x['op'] in ('++', '--'):
            if not indirect(x['e'].get('t', '')):
                self.write(x['e'], x['op'])
        elif k == 'decl':
            for v in x['v']:
                if (v.get('ref') or indirect(v['t'])) and v.get('init'):
                    self.bind(v['id'], v['init'])
        elif k == 'rfor':
            v = x.get('v') or x.get('var')
            if isinstance(v, dict) and v.get('ref') and not v.get('const'):
                self.bind(v['id'], x.get('range') or x.get('r') or {})
        elif k == 'opcall':
            op = x['op']
            a = x.get('a', [])
            fk = self.E.funcs.get(x.get('fk'))
            if fk is not None:
                self.apply(x, fk, a[1:] if x.get('cls') else a, a[0] if x.get('cls') else None)
            elif a:
                if op in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '++', '--', '<<', '>>'):
                    if op in ('++', '--', '+=', '-=') and indirect(a[0].get('t', '')):
                        pass
                    elif op in ('<<', '>>') and 'stream' not in a[0].get('t', ''):
                        pass
                    elif op in ('<<', '>>'):
                        if op == '>>':
                            for y in a[1:]:
                                self.write(y, '>>')
                    else:
                        self.write(a[0], op)
                        if op == '=' and indirect(a[0].get('t', '')) and a[0].get('k') == 'ref':
                            self.bind(a[0]['id'], a[1])
        elif k in ('mcall', 'call', 'ctor'):
            fk = self.E.funcs.get(x.get('fk'))
            a = x.get('a', [])
            if fk is not None:
                self.apply(x, fk, a, x.get('obj'))
            elif x.get('std') or k == 'ctor':
                nm = x.get('fn', '')
                if k == 'mcall':
                    if not x.get('const') and last(nm) not in ACCESS and 'stream' not in x.get('cls', ''):
                        self.write(x['obj'], last(nm))
                    for y, t in zip(a, x.get('pt', [])):
                        if t.endswith('&') and not t.startswith('const ') and last(nm) == 'swap':
                            self.write(y, nm)
                elif k == 'call':
                    n = 'std::' + last(nm)
                    if n in READONLY_STD:
                        pass
                    elif n in COPYING:
                        # the destination is the first iterator that is not a source
                        d = a[3:4] if n in ('std::merge', 'std::set_union', 'std::set_intersection',
                                            'std::set_difference') else a[2:3]
                        if n == 'std::transform' and len(a) == 5:
                            d = a[3:4]
                        for y in d:
                            self.write(y, n)
                    else:
                        for y, t in zip(a, x.get('pt', [])):
                            if (t.endswith('&') and not t.startswith('const ')) or indirect(t):
                                self.write(y, n)
        for key, v in x.items():
            if isinstance(v, (dict, list)) and key not in ('pt', 'cta', 'ta'):
                self.walk(v)

    def apply(self, x, fk, args, obj):
        for r in self.E.sum.get(fk['key'], ()):
            if r[0] == 'p':
                if r[1] < len(args):
                    self.write(args[r[1]], 'passed to ' + fk['name'])
            elif r[0] == 'F':
                if x.get('k') == 'ctor':
                    continue      # the object under construction
                if obj is None or ('this',) in self.roots(obj) or obj.get('k') == 'this':
                    self.w.add(r)
                    self.E.where.setdefault((self.f['key'], r), (x.get('l'), 'in ' + fk['name']))
                else:
                    self.write(obj, 'in ' + fk['name'])
            else:
                self.w.add(r)
                self.E.where.setdefault((self.f['key'], r), (x.get('l'), 'in ' + fk['name']))
