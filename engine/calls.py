"""Meaning of calls: the standard library operations the code base may use, inlined
functions and lambdas, and opaque (anchored) functions."""
from terms import *
import terms as tm
from loops import Unsupported


class Anchor:
    """an operation that is compared separately and stays opaque in its callers"""
    __slots__ = ('id', 'outs', 'deps', 'sticky', 'spec')

    def __init__(self, id, outs, deps, sticky=(), spec=False):
        self.id, self.outs, self.deps, self.sticky, self.spec = id, outs, deps, set(sticky), spec


ARITH = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator%': '%',
         'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>',
         'operator<=': '<=', 'operator>=': '>='}
ASSIGN = {'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/', 'operator%=': '%'}


def base_name(fn):
    if 'operator' in fn:
        i = fn.rfind('operator')
        return fn[i:]
    d, out = 0, []
    i = len(fn) - 1
    depth = 0
    while i > 0:
        c = fn[i]
        if c == '>':
            depth += 1
        elif c == '<':
            depth -= 1
        elif depth == 0 and c == ':' and fn[i - 1] == ':':
            return fn[i + 1:]
        i -= 1
    return fn


class Calls:
    # ------------------------------------------------------------ entry
    def call(self, e, st, fr, want_lp=False):
        self.nsites += 1
        r = self.call0(e, st, fr)
        if isinstance(r, self.LPc) and not want_lp:
            return self.read(st, r)
        return r

    def call0(self, e, st, fr):
        fn = e.get('fn', '?')
        k = e['k']
        if fn == '?' or fn is None:
            ce = e.get('ce')
            if ce is not None:
                f = self.ev(ce, st, fr)
                return self.callf(f, [self.argval(a, st, fr) for a in e['a']], st, fr, e)
            raise Unsupported('indirect call')
        nm = base_name(fn)
        args = e['a']
        obj = None
        if k == 'mcall':
            obj = e['obj']
        elif k == 'opcall' and e.get('cls') and not e.get('static'):
            obj, args = args[0], args[1:]
        if e.get('lambda') and nm == 'operator()':
            f = self.ev(obj, st, fr)
            return self.callf(f, [self.argval(a, st, fr) for a in args], st, fr, e)
        if not e.get('std') and nm != 'ref_assume':
            return self.repo_call(e, obj, args, st, fr)
        if obj is not None:
            return self.method(e, nm, obj, args, st, fr)
        return self.function(e, fn, nm, args, st, fr)

    def argval(self, a, st, fr):
        """LP for lvalues, value otherwise"""
        if a.get('vc') in ('l', 'x') and a['k'] != 'cast' or (a['k'] == 'cast' and a.get('vc') in ('l', 'x')):
            try:
                return self.lval(a, st, fr)
            except Unsupported:
                pass
        return self.ev(a, st, fr)

    def aslp(self, v, st, t=None):
        return v if isinstance(v, self.LPc) else self.temp(st, v, t)

    def asval(self, v, st):
        return self.read(st, v) if isinstance(v, self.LPc) else v

    # ------------------------------------------------------------ repo functions
    def bind_args(self, f, args, st, fr):
        out = []
        for i, p in enumerate(f['params']):
            if i >= len(args):
                out.append(unkv('missing-arg', p['t']))
                continue
            a = args[i]
            if p['t'].endswith('&'):
                out.append(self.lval(a, st, fr))
            else:
                v = self.ev(a, st, fr)
                out.append(self.coerce(v, p['t']))
        return out

    def repo_call(self, e, obj, args, st, fr):
        f = self.prog.funcs.get(e['fk'])
        nm = base_name(e['fn'])
        if nm == 'operator=' and (f is None or f.get('implicit') or f.get('defaulted') or not f.get('body')):
            l = self.lval(obj, st, fr)
            v = self.ev(args[0], st, fr)
            self.write(st, l, v)
            return l
        if f is None:
            f = self.prog.decls.get(e['fk'])
            if f is None or 'params' not in f:
                self.notes.append(('nobody', e['fn']))
                return self.unknown(e, args, st, fr)
        this = None
        if obj is not None and not f.get('static'):
            if e.get('arrow'):
                p = self.ev(obj, st, fr)
                if hasattr(p, 'lp'):
                    this = self.deref(p, st) if hasattr(p, 'rev') else p.lp
                else:
                    raise Unsupported('arrow call')
            else:
                this = self.lval(obj, st, fr)
        elif f.get('cls') == self.selfcls:
            this = fr.this
        vals = self.bind_args(f, args, st, fr)
        return self.apply(f, vals, this, st, fr)

    def apply(self, f, vals, this, st, fr):
        an = self.anchors.get(f['key'])
        self.called.add(f['key'])
        if an is not None and f['key'] not in self.inline_keys:
            return self.opaque_call(an, f, vals, this, st)
        if f['key'] in self.stack or not f.get('body'):
            return self.opaque_call(self.generic_anchor(f), f, vals, this, st)
        if len(self.stack) > 24:
            raise Budget()
        self.inlined.add(f['key'])
        return self.inline(f, vals, this, {}, st)

    def generic_anchor(self, f):
        n = len(f['params'])
        outs = [('ret',)] if f.get('ret') not in ('void', None) else []
        for i, p in enumerate(f['params']):
            if p['t'].endswith('&') and not p['t'].startswith('const '):
                outs.append(('p', i))
        deps = [('p', i) for i in range(n)]
        return Anchor('?' + f['name'] + '/' + str(n), outs, deps)

    def opaque_call(self, an, f, vals, this, st):
        sh = 1 if an.spec else 0

        def at(path):
            if path[0] == 'p':
                v = vals[path[1] + sh]
                for x in path[2:]:
                    v = v.f(x) if isinstance(v, self.LPc) else fld(v, x)
                return v
            th = vals[0] if an.spec else (this or self.LPc(('this',)))
            return th.f(path[1])
        def depv(o):
            deps = []
            for d in (an.deps[o] if isinstance(an.deps, dict) else an.deps):
                v = self.asval(at(d), st)
                if not isinstance(v, T):
                    v = unkv('arg', 'int')
                deps.append(v)
            return deps
        # all outputs are functions of the state before the call
        res = []
        for o in an.outs:
            if o[0] == 'F' and o[1] in self.drop:
                continue
            deps = depv(o)
            if o == ('ret',):
                vt = canon_vt(f['ret'])
                res.append((o, self.call_val(an.id, 'ret', vt, deps)))
            elif o[0] == 'p':
                vt = canon_vt(f['params'][o[1] + sh]['t'])
                res.append((o, self.call_val(an.id, 'p%d' % o[1], vt, deps)))
            else:
                vt = canon_vt(self.field_type(o[1]))
                v = self.call_val(an.id, o[1], vt, deps)
                if o in an.sticky:
                    old = self.read(st, at(o))
                    v = or_(old, v)
                res.append((o, v))
        ret = ZERO
        for o, v in res:
            if o == ('ret',):
                ret = v
            else:
                l = at(o)
                if isinstance(l, self.LPc):
                    self.write(st, l, v)
        return ret

    def call_val(self, id, out, vt, deps):
        return call_(id, out, vt, deps)

    def inline(self, f, vals, this, env, st):
        fr = type(self).FrameC(this, f)
        fr.env = dict(env)
        for p, v in zip(f['params'], vals):
            if isinstance(v, self.LPc):
                if p['t'].endswith('&'):
                    fr.env[p['id']] = v
                else:
                    fr.env[p['id']] = self.temp(st, self.read(st, v), p['t'])
            else:
                fr.env[p['id']] = self.temp(st, v, p['t'])
        saved = st.v.pop(('ret',), None)
        self.stack.append(f['key'])
        o = self.stmt(f['body'], st.copy(), fr)
        self.stack.pop()
        cs = None
        for kind in ('r', 'n'):
            if kind in o:
                c, s = o[kind]
                cs = s if cs is None else self.merge(o['r'][0], cs, s)
        if cs is None:
            raise Unsupported('function does not return')
        st.v = cs.v
        ret = st.v.pop(('ret',), ZERO)
        if saved is not None:
            st.v[('ret',)] = saved
        if f.get('ret', '').endswith('&') and fr.retlps:
            l = fr.retlps[0]
            if all(l.same(x) for x in fr.retlps):
                return l
        return ret

    def callf(self, f, args, st, fr, e=None):
        n = type(f).__name__
        if n == 'Clo':
            node = f.node
            op = self.prog.funcs.get(node.get('op'))
            if op is None or not op.get('body'):
                raise Unsupported('lambda body')
            vals = []
            for p, v in zip(op['params'], args):
                if p['t'].endswith('&'):
                    vals.append(self.aslp(v, st, p['t']))
                else:
                    vals.append(self.asval(v, st))
            if node.get('op') in self.stack:
                raise Unsupported('recursive lambda')
            return self.inline(op, vals, f.this, f.env, st)
        if n == 'FnRef':
            g = self.prog.funcs.get(f.node.get('fk'))
            if g is not None and not f.node.get('std'):
                vals = []
                for p, v in zip(g['params'], args):
                    vals.append(self.aslp(v, st, p['t']) if p['t'].endswith('&') else self.asval(v, st))
                return self.apply(g, vals, fr.this, st, fr)
            nm = base_name(f.node.get('fn', '?'))
            v = self.math(nm, [self.asval(a, st) for a in args], e.get('t', 'double') if e else 'double')
            if v is not None:
                return v
        if n == 'T' and f.op == 'obj':
            vs = [self.asval(a, st) for a in args]
            b = split_targs(f.a[0])[0] if '<' in f.a[0] else f.a[0]
            op = {'std::plus': '+', 'std::multiplies': '*', 'std::minus': '-', 'std::divides': '/', 'std::equal_to': '==',
                  'std::not_equal_to': '!=', 'std::less': '<', 'std::greater': '>'}.get(b)
            if op and len(vs) == 2:
                return self.binop(op, vs[0], vs[1], 'double')
            if b == 'std::negate' and len(vs) == 1:
                return neg(vs[0])
            if b == 'std::logical_not':
                return not_(tobool(vs[0]))
        raise Unsupported('call of ' + n)

    def unknown(self, e, args, st, fr):
        self.notes.append(('unknown-call', e.get('fn')))
        pts = e.get('pt', [])
        vals = []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if pt.endswith('&') and not pt.startswith('const ') and a.get('vc') == 'l':
                l = self.lval(a, st, fr)
                self.write(st, l, unkv('havoc-' + str(e.get('fn')), self.loc_type(self.norm(l).root, self.norm(l).path)))
            else:
                v = self.ev(a, st, fr)
                if isinstance(v, T) and v.op != 'sw':
                    vals.append(v)
                elif type(v).__name__ == 'Iter':
                    l = self.norm(v.lp)
                    self.write(st, l, unkv('havoc-' + str(e.get('fn')), self.loc_type(l.root, l.path)))
        return unkv('call-' + str(e.get('fn')), e.get('t', 'int'), *vals)

    # ------------------------------------------------------------ iterators
    def mkiter(self, lp, i, rev=False):
        return self.IterC(lp, i, rev)

    def is_iter(self, v):
        return type(v).__name__ == 'Iter'

    def method(self, e, nm, obj, args, st, fr):
        cls = e.get('cls') or ''
        ot = obj.get('t', cls)
        c = tclass(cls)
        if e.get('arrow') and obj['k'] != 'this':
            p = self.ev(obj, st, fr)
            if hasattr(p, 'lp'):
                lp = self.deref(p, st) if hasattr(p, 'rev') else p.lp
            else:
                lp = None
        else:
            lp = None
        if c[0] == 'vec':
            return self.vec_method(e, nm, obj, lp, args, st, fr)
        if 'iterator' in cls and 'ostream' not in cls:
            return self.iter_method(e, nm, obj, args, st, fr)
        if c[0] in ('c', 'r', 'i', 'b'):
            return self.num_method(e, nm, obj, lp, args, st, fr)
        if c[0] == 'rec' and nm in ('operator=', 'swap'):
            l = lp or self.lval(obj, st, fr)
            if nm == 'operator=':
                v = self.ev(args[0], st, fr)
                if isinstance(v, T):
                    n0 = self.loc_type(self.norm(l).root, self.norm(l).path)
                    if leaf_type_ne(v, n0):
                        v = mk_rec(n0, {n: fld(v, n) for n, _ in rec_fields(n0)})
                self.write(st, l, v)
                return l
        if 'ostream' in cls or 'stringstream' in cls:
            self.ev(obj, st, fr)
            for a in args:
                self.quiet(a, st, fr)
            return self.STREAMC
        if nm == 'operator()':
            f = self.ev(obj, st, fr)
            return self.callf(f, [self.argval(a, st, fr) for a in args], st, fr, e)
        if obj.get('vc') == 'l' and not e.get('const') and not ('string' in cls):
            self.notes.append(('unknown-method', e.get('fn')))
        for a in args:
            self.quiet(a, st, fr)
        return unkv('method-' + e['fn'], e.get('t', 'int'))

    def quiet(self, a, st, fr):
        """evaluate for effects only"""
        try:
            return self.ev(a, st, fr)
        except Unsupported:
            return None

    def vec_method(self, e, nm, obj, lp, args, st, fr):
        rv = lp is None and obj.get('vc') == 'r'
        if lp is None:
            lp = self.lval(obj, st, fr)
        v = self.read(st, lp)
        if not isinstance(v, T):
            raise Unsupported('vector')
        if nm in ('operator[]', 'at'):
            i = self.ev(args[0], st, fr)
            self.access(e, v, i, fr)
            return lp.i(i)
        if nm == 'size':
            return size(v)
        if nm == 'empty':
            return tm.empty(v)
        if nm == 'front':
            return lp.i(ZERO)
        if nm == 'back':
            return lp.i(sub_(size(v), ONE))
        if nm in ('begin', 'cbegin', 'data'):
            if nm == 'data':
                return self.PtrC(lp.i(ZERO))
            return self.mkiter(lp, ZERO)
        if nm in ('end', 'cend'):
            return self.mkiter(lp, size(v))
        if nm in ('rbegin', 'crbegin'):
            return self.mkiter(lp, ZERO, True)
        if nm in ('rend', 'crend'):
            return self.mkiter(lp, size(v), True)
        if nm == 'push_back':
            x = self.ev(args[0], st, fr)
            if not isinstance(x, T):
                raise Unsupported('push_back of object')
            v = self.read(st, lp)
            self.write(st, lp, concat(v, one(x)))
            return ZERO
        if nm == 'emplace_back':
            vt = tclass(e['cls'])[1]
            x = self.emplace(vt, args, st, fr)
            self.write(st, lp, concat(self.read(st, lp), one(x)))
            return lp.i(sub_(size(self.read(st, lp)), ONE))
        if nm == 'pop_back':
            self.write(st, lp, take(v, sub_(size(v), ONE)))
            return ZERO
        if nm == 'clear':
            self.write(st, lp, EMPTY)
            return ZERO
        if nm in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.quiet(a, st, fr)
            return ZERO
        if nm == 'capacity':
            return unkv('capacity', 'unsigned long')
        if nm == 'resize':
            n = self.ev(args[0], st, fr)
            vt = tclass(e['cls'])[1]
            if len(args) > 1 and args[1]['k'] != 'defarg':
                el = self.ev(args[1], st, fr)
            else:
                el = self.default_obj(vt, st, fr)
            c = le(n, size(v))
            g = self.repeat(lift(lambda p: p, sub_(n, size(v))), el) if c is not TRUE else EMPTY
            t = take(v, n) if c is not FALSE else v
            self.write(st, lp, ite(c, t, concat(v, g)))
            return ZERO
        if nm == 'assign':
            vs = [self.ev(a, st, fr) for a in args if a['k'] != 'defarg']
            if len(vs) == 2 and self.is_iter(vs[0]):
                self.write(st, lp, self.irange(vs[0], vs[1], st))
            elif len(vs) == 2:
                self.write(st, lp, self.repeat(vs[0], vs[1]))
            else:
                self.write(st, lp, vs[0])
            return ZERO
        if nm == 'operator=':
            x = self.ev(args[0], st, fr)
            if not isinstance(x, T):
                raise Unsupported('vector assignment')
            self.write(st, lp, x)
            return lp
        if nm == 'insert':
            vs = [self.ev(a, st, fr) for a in args if a['k'] != 'defarg']
            pos = vs[0]
            if not self.is_iter(pos) or pos.rev:
                raise Unsupported('insert')
            v = self.read(st, lp)
            if len(vs) == 2 and isinstance(vs[1], T):
                x = vs[1]
                if self._kindc(x) == 'v' and tclass(tclass(e['cls'])[1])[0] != 'vec':
                    mid = x                      # initializer list
                else:
                    mid = one(x)
            elif len(vs) == 3 and self.is_iter(vs[1]):
                mid = self.irange(vs[1], vs[2], st)
            elif len(vs) == 3 and isinstance(vs[2], T):
                mid = self.repeat(vs[1], vs[2])
            else:
                raise Unsupported('insert')
            n = size(v)
            if pos.i is n:
                r = concat(v, mid)
            elif pos.i is ZERO:
                r = concat(mid, v)
            else:
                r = concat(slice_(v, ZERO, pos.i), mid, slice_(v, pos.i, n))
            self.write(st, lp, r)
            return self.mkiter(lp, pos.i)
        if nm == 'erase':
            vs = [self.ev(a, st, fr) for a in args]
            if not all(self.is_iter(x) for x in vs):
                raise Unsupported('erase')
            a = vs[0].i
            b = vs[1].i if len(vs) > 1 else add(a, ONE)
            v = self.read(st, lp)
            n = size(v)
            self.write(st, lp, concat(slice_(v, ZERO, a), slice_(v, b, n)) if a is not ZERO else slice_(v, b, n))
            return self.mkiter(lp, a)
        if nm == 'swap':
            l2 = self.lval(args[0], st, fr)
            x = self.read(st, l2)
            self.write(st, l2, v)
            self.write(st, lp, x)
            return ZERO
        if nm in ARITH:
            return self.binop(ARITH[nm], v, self.ev(args[0], st, fr), 'bool')
        raise Unsupported('vector::' + nm)

    def emplace(self, vt, args, st, fr):
        c = tclass(vt)
        vs = [self.ev(a, st, fr) for a in args]
        if c[0] == 'rec' and len(vs) != 1:
            if split_targs(c[1])[0] in ('std::pair', 'std::tuple'):
                fs = rec_fields(c[1])
                return mk_rec(c[1], {n: x for (n, _), x in zip(fs, vs)})
            for f in self.prog.funcs.values():
                if f.get('ctor') and canon_vt(f['cls']) == canon_vt(vt) and len(f['params']) == len(vs):
                    return self.run_ctor(f, c[1], vs, st)
        if c[0] == 'c' and len(vs) == 2:
            return complex_(vs[0], vs[1])
        if len(vs) == 1 and isinstance(vs[0], T):
            return vs[0]
        if not vs:
            return self.default_obj(vt, st, fr)
        raise Unsupported('emplace')

    def access(self, e, v, i, fr):
        self.oob.append((fr.fn.get('name'), e.get('l'), v, i))

    def iter_method(self, e, nm, obj, args, st, fr):
        it = self.ev(obj, st, fr)
        if not self.is_iter(it):
            raise Unsupported('iterator')
        if nm == 'operator*':
            return self.deref(it, st)
        if nm == 'operator->':
            return self.deref(it, st)
        if nm in ('operator++', 'operator--'):
            lp = self.lval(obj, st, fr)
            new = self.mkiter(it.lp, add(it.i, ONE if nm == 'operator++' else MONE), it.rev)
            self.write(st, lp, new)
            return it if args else lp
        if nm in ('operator+=', 'operator-='):
            d = self.ev(args[0], st, fr)
            lp = self.lval(obj, st, fr)
            new = self.mkiter(it.lp, add(it.i, d) if nm == 'operator+=' else sub_(it.i, d), it.rev)
            self.write(st, lp, new)
            return lp
        if nm in ('operator+', 'operator-'):
            d = self.ev(args[0], st, fr)
            if self.is_iter(d):
                return sub_(it.i, d.i)
            return self.mkiter(it.lp, add(it.i, d) if nm == 'operator+' else sub_(it.i, d), it.rev)
        if nm == 'operator[]':
            d = self.ev(args[0], st, fr)
            return self.deref(self.mkiter(it.lp, add(it.i, d), it.rev), st)
        if nm == 'base' and it.rev:
            return self.mkiter(it.lp, sub_(size(self.read(st, it.lp)), it.i))
        if nm == 'operator=':
            lp = self.lval(obj, st, fr)
            v = self.ev(args[0], st, fr)
            self.write(st, lp, v)
            return lp
        raise Unsupported('iterator ' + nm)

    def num_method(self, e, nm, obj, lp, args, st, fr):
        if nm == 'operator=':
            l = lp or self.lval(obj, st, fr)
            v = self.ev(args[0], st, fr)
            self.write(st, l, v)
            return l
        if nm in ASSIGN:
            l = lp or self.lval(obj, st, fr)
            d = self.ev(args[0], st, fr)
            v = self.binop(ASSIGN[nm], self.read(st, l), d, e.get('cls', 'double'))
            self.write(st, l, v)
            return l
        if nm in ('real', 'imag') and args and args[0]['k'] != 'defarg':
            l = lp or self.lval(obj, st, fr)
            x = self.ev(args[0], st, fr)
            z = self.read(st, l)
            self.write(st, l, complex_(x, imag(z)) if nm == 'real' else complex_(real(z), x))
            return ZERO
        v = self.read(st, lp) if lp else self.ev(obj, st, fr)
        if not isinstance(v, T):
            raise Unsupported('number')
        if nm == 'real':
            return real(v)
        if nm == 'imag':
            return imag(v)
        if nm in ARITH:
            if not args:
                return neg(v) if nm == 'operator-' else v
            return self.binop(ARITH[nm], v, self.ev(args[0], st, fr), e.get('t', 'double'))
        if nm == 'convert_to' or nm.startswith('operator '):
            return self.convert(v, e.get('cls', 'double'), e.get('t', 'double'))
        if nm == 'operator bool':
            return tobool(v)
        return unkv('num-' + nm, e.get('t', 'double'), *[x for x in (v,) if x.op != 'sw'])

    # ------------------------------------------------------------ free functions
    def math(self, nm, v, t):
        if any(not isinstance(x, T) for x in v):
            return None
        if nm in ('abs', 'fabs') and len(v) == 1:
            return absv(v[0])
        if nm == 'real' and len(v) == 1:
            return real(v[0])
        if nm == 'imag' and len(v) == 1:
            return imag(v[0])
        if nm == 'conj' and len(v) == 1:
            return sub_(real(v[0]), mul(apoly(I_ATOM), imag(v[0])))
        if nm == 'norm' and len(v) == 1:
            a, b = real(v[0]), imag(v[0])
            return add(mul(a, a), mul(b, b))
        if nm == 'exp':
            return expv(v[0])
        if nm == 'pow' and len(v) == 2:
            return powv(v[0], v[1])
        if nm == 'sqrt' and len(v) == 1:
            return un('sqrt', v[0], 'c' if tclass(t)[0] == 'c' else 'r')
        if nm in ('floor', 'ceil', 'trunc', 'round', 'lround', 'rint', 'lrint') and len(v) == 1:
            w = {'lround': 'round', 'lrint': 'rint'}.get(nm, nm)
            return un(w, v[0], 'i', ident='bi')
        if nm in ('max', 'min') and len(v) == 2:
            return minmax(v[0], v[1], nm)
        if nm == 'fmax' or nm == 'fmin':
            return minmax(v[0], v[1], nm[1:])
        if nm == 'fmod':
            return unkv('fmod', 'double', *[x for x in v if x.op != 'sw'])
        if nm in ('isnan', 'isinf', 'isfinite'):
            return lift(lambda p: from_atom(mk(nm, (p,), 'b', 'bool')), v[0])
        if nm in ('log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'log10', 'expm1', 'log1p', 'arg', 'tgamma', 'lgamma'):
            return un(nm, v[0], 'c' if tclass(t)[0] == 'c' else 'r')
        if nm == 'polar' and len(v) == 2:
            return mul(v[0], expv(mul(apoly(I_ATOM), v[1])))
        if nm in ('operator-', 'operator+') and len(v) == 1:
            return neg(v[0]) if nm == 'operator-' else v[0]
        if nm in ('plus', 'minus'):
            return None
        return None

    def function(self, e, fn, nm, args, st, fr):
        if nm == 'operator<<' or nm == 'operator>>':
            vs = [self.quiet(a, st, fr) for a in args]
            return self.STREAMC
        if nm == 'ref_assume':
            self.assume = and_(self.assume, tobool(self.ev(args[0], st, fr)))
            return ZERO
        if nm in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof') and len(args) == 1:
            return self.argval(args[0], st, fr)
        if nm == 'swap' and len(args) == 2:
            a, b = self.lval(args[0], st, fr), self.lval(args[1], st, fr)
            x, y = self.read(st, a), self.read(st, b)
            self.write(st, a, y)
            self.write(st, b, x)
            return ZERO
        if nm in ASSIGN:
            l = self.lval(args[0], st, fr)
            d = self.ev(args[1], st, fr)
            v = self.binop(ASSIGN[nm], self.read(st, l), d, e.get('t', 'double'))
            self.write(st, l, v)
            return l
        if nm in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and len(args) == 1:
            lp = self.lval(args[0], st, fr)
            n = size(self.read(st, lp))
            return self.mkiter(lp, n if nm in ('end', 'cend', 'rend') else ZERO, nm[0] == 'r')
        if nm == 'size' and len(args) == 1:
            return size(self.ev(args[0], st, fr))
        if nm == 'empty' and len(args) == 1:
            return eq(size(self.ev(args[0], st, fr)), ZERO)
        if nm == 'get' and e.get('ta'):
            lp = self.lval(args[0], st, fr)
            nl = self.norm(lp)
            fs = rec_fields(tclass(self.loc_type(nl.root, nl.path))[1])
            try:
                return lp.f(fs[int(e['ta'][0])][0])
            except (ValueError, IndexError):
                raise Unsupported('std::get')
        if nm == 'back_inserter':
            return self.InsC(self.lval(args[0], st, fr))
        if nm in ('max', 'min') and len(args) == 2:
            return minmax(self.ev(args[0], st, fr), self.ev(args[1], st, fr), nm)
        if nm in ALGOS:
            r = self.algorithm(nm, e, args, st, fr)
            if r is not None:
                return r
        if nm in ('exit', 'abort', 'terminate') or nm.startswith('__throw') or nm == '__builtin_unreachable':
            raise Unsupported(nm)
        vals = [self.ev(a, st, fr) for a in args]
        if nm in ('make_pair', 'make_tuple', 'tie'):
            t = canon_vt(e['t'])
            c = tclass(t)
            if c[0] == 'rec' and all(isinstance(v, T) for v in vals):
                return mk_rec(c[1], {n: v for (n, _), v in zip(rec_fields(c[1]), vals)})
        if nm in ARITH:
            if len(vals) == 2:
                if any(v is self.STREAMC for v in vals):
                    return self.STREAMC
                return self.binop(ARITH[nm], vals[0], vals[1], e.get('t', 'double'), e['a'][0].get('t', ''))
            return neg(vals[0]) if nm == 'operator-' else vals[0]
        if vals and vals[0] is self.STREAMC:
            return self.STREAMC
        if fn.startswith('std::chrono') or nm in ('endl', 'flush', 'setprecision', 'setw', 'fixed', 'scientific'):
            return mk('obj', (fn,), 'other', 'obj')
        if nm == 'epsilon' or nm == 'max' or nm == 'min' or nm == 'infinity' or nm == 'lowest' or nm == 'quiet_NaN':
            return from_atom(mk('limit', (fn,), tclass(e['t'])[0], canon_vt(e['t'])))
        r = self.math(nm, vals, e.get('t', 'double'))
        if r is not None:
            return r
        if nm == 'real_if' or nm == '__builtin_expect':
            return vals[0]
        return self.unknown(e, args, st, fr)

    # ------------------------------------------------------------ algorithms
    def over(self, its, body, st, fr):
        """run body(state, [element lvalues]) for every position of the parallel ranges"""
        first, last = its[0]
        if not first.lp.same(last.lp):
            raise Unsupported('range')
        n = sub_(last.i, first.i)
        n = lift(lambda p: p, n)
        cur = {}

        def bind(state, k):
            cur['l'] = [self.deref(self.mkiter(a.lp, add(a.i, k), a.rev), state) for a, _ in its]
            cur['k'] = k
        o = self.counted(n, bind, lambda state: body(state, cur['l'], cur['k']), st, fr, None)
        if set(o) != {'n'}:
            raise Unsupported('algorithm exit')
        st.v = o['n'][1].v

    def algorithm(self, nm, e, args, st, fr):
        v = [self.ev(a, st, fr) if a['k'] != 'defarg' else None for a in args]
        LPc = self.LPc
        it = self.is_iter
        if nm in ('next', 'prev') and it(v[0]):
            d = v[1] if len(v) > 1 and isinstance(v[1], T) else ONE
            return self.mkiter(v[0].lp, add(v[0].i, d) if nm == 'next' else sub_(v[0].i, d), v[0].rev)
        if nm == 'distance' and it(v[0]) and it(v[1]):
            return sub_(v[1].i, v[0].i)
        if nm == 'advance':
            return None
        if len(v) < 2 or not it(v[0]) or not it(v[1]):
            return None
        rng = (v[0], v[1])
        n = sub_(v[1].i, v[0].i)

        def flag(init, body, out):
            r = self.temp(st, init, 'bool')

            def b(state, ls, k):
                c = tobool(self.asval(body(state, ls), state))
                o = {}
                s1 = state.copy()
                self.write(s1, r, out)
                self.join(o, 'b', c, s1)
                self.join(o, 'n', not_(c), state)
                return o
            return r, b
        if nm in ('any_of', 'all_of', 'none_of'):
            r, b = flag(FALSE, lambda s, ls: (not_(tobool(self.asval(self.callf(v[2], [ls[0]], s, fr), s)))
                                              if nm == 'all_of' else self.callf(v[2], [ls[0]], s, fr)), TRUE)
            self.over([rng], b, st, fr)
            x = self.read(st, r)
            return x if nm == 'any_of' else not_(x)
        if nm == 'equal':
            if len(v) >= 4 and it(v[3]):
                n2 = sub_(v[3].i, v[2].i)
                pred = v[4] if len(v) > 4 else None
            else:
                n2 = None
                pred = v[3] if len(v) > 3 else None
            r, b = flag(FALSE, lambda s, ls: not_(tobool(self.asval(self.callf(pred, ls, s, fr), s))) if pred is not None
                        else ne(self.read(s, ls[0]), self.read(s, ls[1])), TRUE)
            self.over([rng, (v[2], None)], b, st, fr)
            x = not_(self.read(st, r))
            return and_(eq(n, n2), x) if n2 is not None else x
        if nm in ('count', 'count_if'):
            r = self.temp(st, ZERO, 'long')

            def b(state, ls, k):
                c = eq(self.read(state, ls[0]), v[2]) if nm == 'count' else \
                    tobool(self.asval(self.callf(v[2], [ls[0]], state, fr), state))
                self.write(state, r, add(self.read(state, r), c))
                return {'n': (TRUE, state)}
            self.over([rng], b, st, fr)
            return self.read(st, r)
        if nm in ('find', 'find_if', 'find_if_not', 'adjacent_find'):
            r = self.temp(st, n, 'long')
            if nm == 'adjacent_find':
                m = sub_(n, ONE)
                last = self.mkiter(v[0].lp, add(v[0].i, trip(m)), v[0].rev)
                its = [(v[0], last), (self.mkiter(v[0].lp, add(v[0].i, ONE), v[0].rev), None)]
            else:
                its = [rng]

            def b(state, ls, k):
                if nm == 'find':
                    c = eq(self.read(state, ls[0]), v[2])
                elif nm == 'adjacent_find':
                    c = eq(self.read(state, ls[0]), self.read(state, ls[1])) if len(v) < 3 else \
                        tobool(self.asval(self.callf(v[2], ls, state, fr), state))
                else:
                    c = tobool(self.asval(self.callf(v[2], [ls[0]], state, fr), state))
                    if nm == 'find_if_not':
                        c = not_(c)
                o = {}
                s1 = state.copy()
                self.write(s1, r, k)
                self.join(o, 'b', c, s1)
                self.join(o, 'n', not_(c), state)
                return o
            self.over(its, b, st, fr)
            return self.mkiter(v[0].lp, add(v[0].i, self.read(st, r)), v[0].rev)
        if nm in ('accumulate', 'reduce'):
            t = e.get('t', 'double')
            r = self.temp(st, v[2], t)

            def b(state, ls, k):
                if len(v) > 3:
                    x = self.asval(self.callf(v[3], [self.read(state, r), ls[0]], state, fr), state)
                else:
                    x = self.binop('+', self.read(state, r), self.read(state, ls[0]), t)
                self.write(state, r, x)
                return {'n': (TRUE, state)}
            self.over([rng], b, st, fr)
            return self.read(st, r)
        if nm == 'inner_product':
            r = self.temp(st, v[3], e.get('t', 'double'))

            def b(state, ls, k):
                x, y = self.read(state, ls[0]), self.read(state, ls[1])
                p = self.asval(self.callf(v[5], ls, state, fr), state) if len(v) > 5 else mul(x, y)
                a = self.asval(self.callf(v[4], [self.read(state, r), p], state, fr), state) if len(v) > 4 \
                    else add(self.read(state, r), p)
                self.write(state, r, a)
                return {'n': (TRUE, state)}
            self.over([rng, (v[2], None)], b, st, fr)
            return self.read(st, r)
        if nm in ('fill', 'iota', 'for_each'):
            r = self.temp(st, v[2], 'int') if nm == 'iota' else None

            def b(state, ls, k):
                if nm == 'fill':
                    self.write(state, ls[0], v[2])
                elif nm == 'iota':
                    x = self.read(state, r)
                    self.write(state, ls[0], x)
                    self.write(state, r, add(x, ONE))
                else:
                    self.callf(v[2], [ls[0]], state, fr)
                return {'n': (TRUE, state)}
            self.over([rng], b, st, fr)
            return ZERO
        if nm in ('transform', 'copy', 'copy_if', 'move', 'remove_copy_if', 'reverse_copy'):
            two = nm == 'transform' and len(v) == 5
            out = v[3] if two else v[2]
            fnv = v[4] if two else v[3] if len(v) > 3 else None
            its = [rng] + ([(v[2], None)] if two else [])
            cnt = self.temp(st, ZERO, 'long')
            if nm == 'reverse_copy':
                return None

            def b(state, ls, k):
                c = TRUE
                if nm == 'transform':
                    x = self.asval(self.callf(fnv, ls, state, fr), state)
                else:
                    x = self.read(state, ls[0])
                    if nm == 'copy_if':
                        c = tobool(self.asval(self.callf(fnv, [ls[0]], state, fr), state))
                    elif nm == 'remove_copy_if':
                        c = not_(tobool(self.asval(self.callf(fnv, [ls[0]], state, fr), state)))
                s1 = state.copy()
                if type(out).__name__ == 'Ins':
                    self.write(s1, out.lp, concat(self.read(s1, out.lp), one(x)))
                elif it(out):
                    pos = add(out.i, k) if nm in ('transform', 'copy', 'move') else add(out.i, self.read(s1, cnt))
                    self.write(s1, self.deref(self.mkiter(out.lp, pos, out.rev), s1), x)
                    if nm == 'copy_if':
                        self.write(s1, cnt, add(self.read(s1, cnt), ONE))
                else:
                    raise Unsupported('output iterator')
                o = {}
                self.join(o, 'n', c, s1)
                self.join(o, 'n', not_(c), state)
                return o
            self.over(its, b, st, fr)
            if it(out):
                return self.mkiter(out.lp, add(out.i, n), out.rev)
            return out
        if nm == 'reverse':
            lp = v[0].lp
            s = self.read(st, lp)
            if v[0].i is ZERO and v[1].i is size(s):
                self.write(st, lp, reverse(s))
                return ZERO
            return None
        return None


ALGOS = {'next', 'prev', 'distance', 'any_of', 'all_of', 'none_of', 'equal', 'count', 'count_if', 'find', 'find_if',
         'find_if_not', 'adjacent_find', 'accumulate', 'reduce', 'inner_product', 'fill', 'iota', 'for_each', 'transform',
         'copy', 'copy_if', 'move', 'remove_copy_if', 'reverse'}


def leaf_type_ne(v, t):
    while v.op == 'sw':
        v = v.a[2][0]
    vt = v.a[0] if v.op == 'rec' else v.vt
    return vt is not None and canon_vt(vt) != canon_vt(t)
