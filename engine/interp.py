"""Abstract interpretation of the dumped syntax trees into the value terms of
terms.py (gated single-assignment value graphs with closed-form loops).  Nothing
is executed: every input is a symbol, both arms of every branch are merged into
one value and every loop becomes a comprehension, a sum, a product, a search or,
failing these, an explicit recurrence term."""
import json
from terms import *
import terms as tm
from loops import Loops, Unsupported
from calls import Calls

MAXDEPTH = 24


class Program:
    """all function bodies, records and enums of a set of translation units"""

    def __init__(self):
        self.funcs = {}
        self.byname = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.specs = []
        self.decls = {}
        self.errors = 0

    def load(self, path):
        d = json.load(open(path))
        self.errors += d.get('errors', 0)
        for f in d['functions']:
            if f['key'] not in self.funcs:
                self.funcs[f['key']] = f
                self.byname.setdefault(f['name'], []).append(f)
        for r in d['records']:
            self.records.setdefault(r['name'], r)
        for e in d['enums']:
            self.enums.setdefault(e['name'], e)
        for g in d['globals']:
            k = (g['name'], g['loc']['f'], g['loc']['l'])
            self.globals.setdefault(k, g)
        self.specs += d['specs']
        for x in d['decls']:
            self.decls.setdefault(x['key'], x)

    def register_types(self):
        for n, r in self.records.items():
            Types.records[n] = [(f['name'], canon_vt(f['t'])) for f in r['fields']]
        for n, e in self.enums.items():
            Types.enums[n] = max([c['v'] for c in e['c']] or [0])
        tm._tc.clear()


class LP:
    """an lvalue: root and access path"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, name):
        return LP(self.root, self.path + (('f', name),))

    def i(self, v):
        return LP(self.root, self.path + (('i', v),))

    def same(self, o):
        return self.root == o.root and self.path == o.path

    def __repr__(self):
        return '%s%s' % (self.root, self.path)


class Iter:
    __slots__ = ('lp', 'i', 'rev')

    def __init__(self, lp, i, rev=False):
        self.lp, self.i, self.rev = lp, i, rev


class Ptr:
    __slots__ = ('lp',)

    def __init__(self, lp):
        self.lp = lp


class Clo:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnRef:
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node


class Ins:
    """back inserter"""
    __slots__ = ('lp',)

    def __init__(self, lp):
        self.lp = lp


class Stream:
    pass


STREAM = Stream()


class State:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = {} if v is None else v

    def copy(self):
        return State(dict(self.v))


class Frame:
    def __init__(self, this, fn):
        self.env = {}
        self.this = this
        self.fn = fn
        self.retlps = []


RET = ('ret',)
STEP_LIMIT = 400000


class Interp(Loops, Calls):
    LPc = LP
    IterC = Iter
    PtrC = Ptr
    InsC = Ins
    FrameC = Frame
    STREAMC = STREAM

    def __init__(self, prog, anchors=None, opaque=None, selfcls='AmiBase'):
        self.prog = prog
        self.anchors = anchors or {}       # function key -> summary (opaque unless listed in inline)
        self.opaque = opaque if opaque is not None else set()
        self.selfcls = selfcls
        self.rtype = {}
        self.wlogs = []
        self.stack = []
        self.nroot = 0
        self.called = set()
        self.inlined = set()
        self.loops = 0
        self.notes = []
        self.steps = 0
        self.nsites = 0
        self.oob = []
        self.loopinfo = []
        self.inline_keys = set()
        self.assume = TRUE
        self.alts = {}
        self.drop = frozenset()       # fields whose writes are not followed

    def fresh(self):
        i = Interp(self.prog, self.anchors, self.opaque, self.selfcls)
        i.drop, i.inline_keys = self.drop, set(self.inline_keys)
        return i

    # ------------------------------------------------------------ roots
    def new_root(self, t):
        self.nroot += 1
        r = ('l', self.nroot)
        self.rtype[r] = canon_vt(t)
        return r

    def field_type(self, name):
        for n, t in Types.records.get(self.selfcls, []):
            if n == name:
                return t
        return 'int'

    def norm(self, lp):
        if lp.root == ('this',) and lp.path and lp.path[0][0] == 'f':
            return LP(('F', lp.path[0][1]), lp.path[1:])
        return lp

    def root_val(self, st, root):
        v = st.v.get(root)
        if v is None:
            if root[0] == 'F':
                t = canon_vt(self.field_type(root[1]))
                v = from_atom(mk('self', (root[1],), scalar_kind(t), t))
                self.rtype[root] = t
            else:
                v = unkv('unset', self.rtype.get(root, 'int'))
            st.v[root] = v
        return v

    def alias(self, c, a, b):
        """a place that is one of two"""
        a, b = self.norm(a), self.norm(b)
        if a.same(b):
            return a
        self.nroot += 1
        r = ('Q', self.nroot)
        self.alts[r] = (c, a, b)
        self.rtype[r] = self.loc_type(a.root, a.path)
        return LP(r)

    def read(self, st, lp):
        lp = self.norm(lp)
        if lp.root in self.alts:
            c, a, b = self.alts[lp.root]
            return self.merge_vals(c, self.read(st, LP(a.root, a.path + lp.path)),
                                   self.read(st, LP(b.root, b.path + lp.path)))
        v = self.root_val(st, lp.root)
        for a in lp.path:
            if not isinstance(v, T):
                if a[0] == 'it' and isinstance(v, Iter):
                    v = v.i
                    continue
                return unkv('read', 'int')
            v = fld(v, a[1]) if a[0] == 'f' else idx(v, a[1])
        return v

    def write(self, st, lp, val):
        lp = self.norm(lp)
        if lp.root[0] == 'F' and lp.root[1] in self.drop:
            return
        if lp.root in self.alts:
            c, a, b = self.alts[lp.root]
            for k, m in ((c, a), (not1(c), b)):
                m = LP(m.root, m.path + lp.path)
                self.write(st, m, self.merge_vals(k, val, self.read(st, m)))
            return
        for w in self.wlogs:
            w.append((lp.root, lp.path))
        if not lp.path:
            st.v[lp.root] = val
            return
        if lp.path == (('it',),):
            o = st.v[lp.root]
            st.v[lp.root] = Iter(o.lp, val, o.rev)
            return
        if not isinstance(val, T):
            val = unkv('stored-' + type(val).__name__, 'int')
        st.v[lp.root] = self._w(self.root_val(st, lp.root), lp.path, val)

    def _w(self, v, path, val):
        if not path:
            return val
        if not isinstance(v, T):
            return unkv('write', 'int')
        a = path[0]
        if a[0] == 'f':
            return set_fld(v, a[1], self._w(fld(v, a[1]), path[1:], val))
        return upd(v, a[1], self._w(idx(v, a[1]), path[1:], val))

    def loc_type(self, root, path):
        t = self.rtype.get(root) or (self.field_type(root[1]) if root[0] == 'F' else 'int')
        for a in path:
            c = tclass(t)
            if a[0] == 'f':
                if c[0] != 'rec':
                    return 'int'
                t = dict(rec_fields(c[1])).get(a[1], 'int')
            elif a[0] == 'i':
                t = c[1] if c[0] == 'vec' else 'int'
            else:
                t = 'int'
        return canon_vt(t)

    def temp(self, st, v, t=None):
        r = self.new_root(t or (leaf_vt(v) if isinstance(v, T) else 'int'))
        st.v[r] = v
        return LP(r)

    # ------------------------------------------------------------ merging
    def merge_vals(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if self._kindc(a) != self._kindc(b):
                return unkv('merge', leaf_vt(a) if a.op != 'sw' else 'int')
            return ite(c, a, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.lp.same(b.lp) and a.rev == b.rev:
            return Iter(a.lp, ite(c, a.i, b.i), a.rev)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lp.same(b.lp):
            return a
        return unkv('merge', 'int')

    def _kindc(self, a):
        while a.op == 'sw':
            a = a.a[2][0]
        if a.op == 'poly':
            return 's'
        if a.op == 'seq':
            return 'v'
        return 'r'

    def merge(self, c, s1, s2):
        if c is TRUE or s2 is None:
            return s1
        if c is FALSE or s1 is None:
            return s2
        out = {}
        for r, a in s1.v.items():
            if r in s2.v:
                out[r] = self.merge_vals(c, a, s2.v[r])
            elif r[0] == 'F':
                out[r] = self.merge_vals(c, a, self.root_val(s2, r))
            elif r == RET:
                out[r] = a
        for r, b in s2.v.items():
            if r not in s1.v:
                if r[0] == 'F':
                    out[r] = self.merge_vals(c, self.root_val(s1, r), b)
                elif r == RET:
                    out[r] = b
        return State(out)

    def join(self, acc, kind, c, s):
        if c is FALSE:
            return
        if kind in acc:
            c0, s0 = acc[kind]
            acc[kind] = (or_(c0, c), self.merge(c0, s0, s))
        else:
            acc[kind] = (c, s)

    # ------------------------------------------------------------ statements
    def seq(self, stmts, st, fr):
        out = {}
        cond = TRUE
        for s in stmts:
            if s is None:
                continue
            o = self.stmt(s, st, fr)
            nxt = None
            for kind, (c, s2) in o.items():
                c = and_(cond, c)
                if c is FALSE:
                    continue
                if kind == 'n':
                    nxt = (c, s2)
                else:
                    self.join(out, kind, c, s2)
            if nxt is None:
                return out
            cond, st = nxt
        out['n'] = (cond, st)
        return out

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Budget()
        k = s['k']
        if k == 'block':
            return self.seq(s['b'], st, fr)
        if k == 'decl':
            for v in s['v']:
                self.declare(v, st, fr)
            return {'n': (TRUE, st)}
        if k == 'expr':
            self.ev(s['e'], st, fr)
            return {'n': (TRUE, st)}
        if k == 'nop':
            return {'n': (TRUE, st)}
        if k == 'if':
            if s.get('init'):
                self.stmt(s['init'], st, fr)
            if s.get('cv'):
                self.declare(s['cv'], st, fr)
            c = self.cond(s['c'], st, fr)
            out = {}
            if c is not FALSE:
                for kind, (c2, s2) in self.stmt(s['then'], st.copy(), fr).items():
                    self.join(out, kind, and_(c, c2), s2)
            if c is not TRUE:
                nc = not1(c)
                if s.get('else'):
                    for kind, (c2, s2) in self.stmt(s['else'], st.copy(), fr).items():
                        self.join(out, kind, and_(nc, c2), s2)
                else:
                    self.join(out, 'n', nc, st)
            return out
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(s, st, fr)
        if k == 'ret':
            if s.get('e') is not None:
                rt = fr.fn.get('ret', '')
                if rt.endswith('&'):
                    lp = self.lval(s['e'], st, fr)
                    fr.retlps.append(lp)
                    st.v[RET] = self.read(st, lp)
                else:
                    v = self.ev(s['e'], st, fr)
                    v = self.coerce(v, rt)
                    st.v[RET] = v
            return {'r': (TRUE, st)}
        if k == 'break':
            return {'b': (TRUE, st)}
        if k == 'continue':
            return {'c': (TRUE, st)}
        if k == 'switch':
            return self.switch(s, st, fr)
        if k in ('case', 'default'):
            return self.stmt(s['b'], st, fr)
        if k == 'try':
            return self.stmt(s['b'], st, fr)
        raise Unsupported('statement ' + s.get('cls', k))

    def switch(self, s, st, fr):
        if s.get('init'):
            self.stmt(s['init'], st, fr)
        v = self.ev(s['c'], st, fr)
        groups = []     # (labels or None-for-default, stmts)
        body = s['body']['b'] if s['body']['k'] == 'block' else [s['body']]
        for b in body:
            labels = []
            while b and b['k'] in ('case', 'default'):
                if b['k'] == 'case':
                    if b.get('range') or 'v' not in b:
                        raise Unsupported('case range')
                    labels.append(b['v'])
                else:
                    labels.append(None)
                b = b['b']
            if labels:
                groups.append((labels, [b]))
            elif groups:
                groups[-1][1].append(b)
            elif b and b['k'] == 'decl':
                pass
        alll = [l for ls, _ in groups for l in ls if l is not None]
        out = {}
        rest = TRUE
        for l in alll:
            rest = and_(rest, not1(eq(v, const(l))))
        hasdef = False
        for gi, (ls, _) in enumerate(groups):
            c = FALSE
            for l in ls:
                if l is None:
                    hasdef = True
                    c = or_(c, rest)
                else:
                    c = or_(c, eq(v, const(l)))
            if c is FALSE:
                continue
            stm = [x for g in groups[gi:] for x in g[1]]
            for kind, (c2, s2) in self.seq(stm, st.copy(), fr).items():
                self.join(out, 'n' if kind == 'b' else kind, and_(c, c2), s2)
        if not hasdef:
            self.join(out, 'n', rest, st)
        return out

    def declare(self, v, st, fr):
        t = v['t']
        if v.get('bindings'):
            if v['ref'] and v.get('init') is not None:
                lp = self.lval(v['init'], st, fr)
            else:
                r = self.new_root(t)
                st.v[r] = self.ev(v['init'], st, fr)
                lp = LP(r)
            fr.env[v['id']] = lp
            vt = self.loc_type(lp.root, lp.path)
            c = tclass(vt)
            names = [f for f, _ in rec_fields(c[1])] if c[0] == 'rec' else None
            for i, b in enumerate(v['bindings']):
                if names is None or i >= len(names):
                    raise Unsupported('structured binding')
                fr.env[b['id']] = lp.f(names[i])
                if b.get('hold'):
                    fr.env[b['hold']] = lp.f(names[i])
            return
        if v['static']:
            self.notes.append(('static', v['name'], v['l']))
            if not v['const']:
                r = self.new_root(t)
                st.v[r] = unkv('static-' + v['name'], t)
                fr.env[v['id']] = LP(r)
                return
        if v['ref']:
            fr.env[v['id']] = self.bind_ref(v['init'], st, fr)
            return
        r = self.new_root(t)
        if v.get('init') is None:
            c = tclass(t)
            if c[0] in KR:
                st.v[r] = from_atom(mk('undef', (v['name'],), c[0], canon_vt(t)))
            elif c[0] == 'vec':
                st.v[r] = EMPTY
            else:
                st.v[r] = unkv('uninit', t)
        else:
            st.v[r] = self.coerce(self.ev(v['init'], st, fr), t)
            self.set_type(r, st.v[r], t)
        for w in self.wlogs:
            w.append((r, ()))
        fr.env[v['id']] = LP(r)

    def set_type(self, r, val, t):
        self.rtype[r] = canon_vt(t)

    def bind_ref(self, e, st, fr):
        lp = self.lval(e, st, fr)
        return lp

    def coerce(self, v, t):
        """implicit effects of storing v in an object of type t"""
        if isinstance(v, T) and tclass(t)[0] == 'b':
            if v.op in ('poly', 'sw'):
                return tobool(v)
        return v

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        v = self.ev(e, st, fr)
        if not isinstance(v, T):
            if isinstance(v, Ptr):
                return TRUE
            return unkb('cond')
        try:
            return tobool(v)
        except Budget:
            raise
        except Exception:
            return unkb('cond', v)

    # ------------------------------------------------------------ lvalues
    def lval(self, e, st, fr):
        k = e['k']
        if k == 'ref':
            if e['dk'] in ('local', 'param', 'binding'):
                lp = fr.env.get(e['id'])
                if lp is not None:
                    return lp
                if e.get('bind'):
                    return self.lval(e['bind'], st, fr)
                raise Unsupported('unbound ' + e['name'])
            if e['dk'] == 'global':
                return self.temp(st, self.ev(e, st, fr), e.get('t'))
        if k == 'member':
            b = e['b']
            if e['arrow']:
                if b['k'] == 'this':
                    return fr.this.f(e['name']) if fr.this else LP(('this',)).f(e['name'])
                if b['k'] == 'opcall':
                    return self.lval(b, st, fr).f(e['name'])
                p = self.ev(b, st, fr)
                if isinstance(p, Ptr):
                    return p.lp.f(e['name'])
                if isinstance(p, Iter):
                    return self.deref(p, st).f(e['name'])
                raise Unsupported('arrow ' + type(p).__name__ + ' ' + b['k'])
            return self.lval(b, st, fr).f(e['name'])
        if k == 'index':
            p = self.ev(e['b'], st, fr)
            i = self.ev(e['i'], st, fr)
            if isinstance(p, Ptr) and p.lp.path and p.lp.path[-1][0] == 'i':
                return LP(p.lp.root, p.lp.path[:-1]).i(add(p.lp.path[-1][1], i))
            raise Unsupported('array subscript')
        if k == 'un' and e['op'] == '*':
            if e['e']['k'] == 'this':
                return fr.this or LP(('this',))
            p = self.ev(e['e'], st, fr)
            if isinstance(p, Ptr):
                return p.lp
            if isinstance(p, Iter):
                return self.deref(p, st)
            raise Unsupported('deref')
        if k == 'un' and e['op'] in ('++', '--') and not e['post']:
            self.ev(e, st, fr)
            return self.lval(e['e'], st, fr)
        if k in ('assign', 'cassign'):
            self.ev(e, st, fr)
            return self.lval(e['lhs'], st, fr)
        if k == 'cast':
            if e['ck'] in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
                if e['ck'] == 'LValueToRValue':
                    return self.temp(st, self.ev(e, st, fr), e['t'])
                return self.lval(e['e'], st, fr)
            return self.temp(st, self.ev(e, st, fr), e['t'])
        if k in ('opcall', 'mcall', 'call'):
            r = self.call(e, st, fr, want_lp=True)
            if isinstance(r, LP):
                return r
            return self.temp(st, r, e['t'])
        if k == 'this':
            return fr.this or LP(('this',))
        if k == 'cond':
            c = self.cond(e['c'], st, fr)
            if c is TRUE:
                return self.lval(e['a'], st, fr)
            if c is FALSE:
                return self.lval(e['b'], st, fr)
            before = dict(st.v)
            a, b = self.lval(e['a'], st, fr), self.lval(e['b'], st, fr)
            if any(st.v.get(r) is not v for r, v in before.items()):
                raise Unsupported('effects in an alternative')
            return self.alias(c, a, b)
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'][0], st, fr)
            return self.lval(e['a'][1], st, fr)
        return self.temp(st, self.ev(e, st, fr), e.get('t'))

    def deref(self, it, st):
        if it.rev:
            n = size(self.read(st, it.lp))
            return it.lp.i(sub_(sub_(n, ONE), it.i))
        return it.lp.i(it.i)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Budget()
        if e is None:
            return ZERO
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return unkv('expr-' + k + '-' + e.get('cls', ''), e.get('t', 'int'))
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return const(int(e['v']))

    def e_char(self, e, st, fr):
        return const(int(e['v']))

    def e_float(self, e, st, fr):
        return const(Fr(e['v']))

    def e_bool(self, e, st, fr):
        return TRUE if e['v'] else FALSE

    def e_str(self, e, st, fr):
        return mk('strlit', (e['v'],), 'other', 'str')

    def e_null(self, e, st, fr):
        return ZERO

    def e_zeroinit(self, e, st, fr):
        v = default_value(e['t'])
        return v if v is not None else unkv('zeroinit', e['t'])

    def e_sizeof(self, e, st, fr):
        return const(int(e.get('v', 0)))

    def e_defarg(self, e, st, fr):
        if e.get('e') is not None:
            return self.ev(e['e'], st, fr)
        return unkv('defarg', e.get('t', 'int'))

    def e_definit(self, e, st, fr):
        return unkv('definit', e.get('t', 'int'))

    def e_this(self, e, st, fr):
        return Ptr(fr.this or LP(('this',)))

    def e_ref(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum':
            return const(e['v'])
        if dk == 'fn':
            return FnRef(e)
        if dk == 'global':
            if e['id'] in fr.env:
                return self.read(st, fr.env[e['id']])
            if e.get('const') and e.get('init') is not None:
                return self.coerce(self.ev(e['init'], st, fr), e['t'])
            if not e.get('in'):
                if 'ostream' in e.get('t', ''):
                    return STREAM
            return unkv('global-' + e['name'], e['t'], )
        lp = self.lval(e, st, fr)
        return self.read(st, lp)

    def e_member(self, e, st, fr):
        b = e['b']
        if b.get('vc') == 'r' and not e['arrow']:
            v = self.ev(b, st, fr)
            if isinstance(v, T):
                return fld(v, e['name'])
        return self.read(st, self.lval(e, st, fr))

    def e_index(self, e, st, fr):
        return self.read(st, self.lval(e, st, fr))

    def e_methodref(self, e, st, fr):
        return FnRef(e)

    def e_lambda(self, e, st, fr):
        env = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('init') is not None:
                if c['byref']:
                    env[c['id']] = self.lval(c['init'], st, fr)
                else:
                    env[c['id']] = self.temp(st, self.ev(c['init'], st, fr), c['init'].get('t'))
            elif c['byref']:
                env[c['id']] = fr.env.get(c['id'])
            else:
                lp = fr.env.get(c['id'])
                if lp is None:
                    continue
                v = self.read(st, lp)
                env[c['id']] = self.temp(st, v, self.loc_type(self.norm(lp).root, self.norm(lp).path))
        return Clo(e, env, fr.this)

    def e_cond(self, e, st, fr):
        c = self.cond(e['c'], st, fr)
        if c is TRUE:
            return self.ev(e['a'], st, fr)
        if c is FALSE:
            return self.ev(e['b'], st, fr)
        s1, s2 = st.copy(), st.copy()
        a = self.ev(e['a'], s1, fr)
        b = self.ev(e['b'], s2, fr)
        st.v = self.merge(c, s1, s2).v
        return self.merge_vals(c, a, b)

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            if e['e']['k'] == 'methodref' or (e['e']['k'] == 'ref' and e['e']['dk'] == 'fn'):
                return FnRef(e['e'])
            return Ptr(self.lval(e['e'], st, fr))
        if op == '*':
            return self.read(st, self.lval(e, st, fr))
        if op in ('++', '--'):
            lp = self.lval(e['e'], st, fr)
            old = self.read(st, lp)
            d = ONE if op == '++' else MONE
            if isinstance(old, Iter):
                new = Iter(old.lp, add(old.i, d), old.rev)
            elif isinstance(old, Ptr):
                raise Unsupported('pointer arithmetic')
            else:
                new = add(old, d)
            self.write(st, lp, new)
            return old if e['post'] else new
        v = self.ev(e['e'], st, fr)
        if not isinstance(v, T):
            return unkv('un' + op, e['t'])
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(tobool(v))
        return unkv('un' + op, e['t'], *self.plain([v]))

    def plain(self, vs):
        return [v for v in vs if isinstance(v, T)]

    def e_bin(self, e, st, fr):
        op = e['op']
        if op == '&&':
            a = self.cond(e['a'][0], st, fr)
            if a is FALSE:
                return FALSE
            s2 = st.copy()
            b = self.cond(e['a'][1], s2, fr)
            st.v = self.merge(a, s2, st).v
            return and_(a, b)
        if op == '||':
            a = self.cond(e['a'][0], st, fr)
            if a is TRUE:
                return TRUE
            s2 = st.copy()
            b = self.cond(e['a'][1], s2, fr)
            st.v = self.merge(a, st, s2).v
            return or_(a, b)
        r = self.size_test(e, op, st, fr)
        if r is not None:
            return r
        x = self.ev(e['a'][0], st, fr)
        y = self.ev(e['a'][1], st, fr)
        if op == ',':
            return y
        return self.binop(op, x, y, e['t'], e['a'][0].get('t', ''))

    @staticmethod
    def _uncast(n):
        while n.get('k') in ('cast', 'paren') and n.get('e'):
            n = n['e']
        return n

    def size_test(self, e, op, st, fr):
        """v.size() compared with zero: emptiness of v, exactly"""
        if op not in ('==', '!=', '<', '>', '<=', '>='):
            return None
        l, r = self._uncast(e['a'][0]), self._uncast(e['a'][1])
        if r.get('k') != 'int':
            if l.get('k') != 'int':
                return None
            l, r = r, l
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if l.get('k') != 'mcall' or l.get('fn', '').split('::')[-1] != 'size' or not l.get('obj'):
            return None
        v = str(r.get('v'))
        neg = {('==', '0'): False, ('!=', '0'): True, ('>', '0'): True, ('<=', '0'): False,
               ('>=', '1'): True, ('<', '1'): False}.get((op, v))
        if neg is None:
            return None
        x = self.asval(self.ev(l['obj'], st, fr), st)
        if not isinstance(x, T) or self._kindc(x) != 'v':
            return None
        r = tm.empty(x)
        return not_(r) if neg else r

    def binop(self, op, x, y, t, at=''):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if not x.lp.same(y.lp):
                return unkv('iter', t)
            x, y = x.i, y.i
        elif isinstance(x, Iter) and isinstance(y, T) and op in '+-':
            return Iter(x.lp, add(x.i, y) if op == '+' else sub_(x.i, y), x.rev)
        elif isinstance(y, Iter) and isinstance(x, T) and op == '+':
            return Iter(y.lp, add(x, y.i), y.rev)
        if not (isinstance(x, T) and isinstance(y, T)):
            return unkv('bin' + op, t)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op == '==':
                return eq(x, y)
            if op == '!=':
                return ne(x, y)
            if op == '<':
                return lt(x, y)
            if op == '>':
                return lt(y, x)
            if op == '<=':
                return le(x, y)
            return le(y, x)
        if self._kindc(x) != 's' or self._kindc(y) != 's':
            return unkv('bin' + op, t)
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub_(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if tclass(t)[0] in ('i', 'b'):
                return idiv(x, y)
            return div(x, y)
        if op == '%':
            return modv(x, y)
        if op == '&':
            if y is ONE:
                return mod2(x)
            if tclass(at)[0] == 'b':
                return and_(tobool(x), tobool(y))
        if op == '|' and tclass(at)[0] == 'b':
            return or_(tobool(x), tobool(y))
        if op == '^' and tclass(at)[0] == 'b':
            return ne(x, y)
        if op == '<<' and y.op == 'poly' and is_const(y) and 0 <= cval(y) < 62:
            return scale(x, 2 ** int(cval(y)))
        return unkv('bin' + op, t, *[v for v in (x, y) if v.op != 'sw'])

    def e_assign(self, e, st, fr):
        v = self.ev(e['rhs'], st, fr)
        lp = self.lval(e['lhs'], st, fr)
        v = self.coerce(v, e['lhs'].get('t', ''))
        self.write(st, lp, v)
        return v

    def e_cassign(self, e, st, fr):
        op = e['op'][:-1]
        v = self.ev(e['rhs'], st, fr)
        lp = self.lval(e['lhs'], st, fr)
        old = self.read(st, lp)
        lt_ = e['lhs'].get('t', '')
        ct = e.get('ct', lt_)
        if op in ('|', '&', '^') and tclass(lt_)[0] == 'b' and isinstance(v, T):
            b = tobool(v)
            new = or_(old, b) if op == '|' else and_(old, b) if op == '&' else ne(old, b)
        else:
            new = self.binop(op, old, v, ct, lt_)
            if isinstance(new, T):
                new = self.convert(new, ct, lt_)
        self.write(st, lp, new)
        return new

    def convert(self, v, ft, tt):
        a, b = tclass(ft)[0], tclass(tt)[0]
        if b == 'b':
            return tobool(v)
        if a in ('r',) and b == 'i':
            return un('trunc', v, 'i', ident='bi')
        if b == 'r' and strip_type(tt) == 'float' and strip_type(ft) != 'float':
            return lift(lambda p: p if is_const(p) and cval(p).denominator in (1, 2, 4, 8) else
                        p if p.kind in ('b', 'i') else
                        apoly(mk('tofloat', (p,), 'r')), v)
        if a == 'i' and b == 'i':
            nt, ot = strip_type(tt), strip_type(ft)
            if nt in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short') and ot != nt:
                return lift(lambda p: p if is_const(p) and 0 <= cval(p) < 128 else
                            apoly(mk('narrow', (p, nt), 'i')), v)
        return v

    def e_cast(self, e, st, fr):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.ev(e['e'], st, fr)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ArrayToPointerDecay'):
            return self.ev(e['e'], st, fr)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.ev(e['e'], st, fr)
            return tobool(v) if isinstance(v, T) else unkb('tobool')
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            v = self.ev(e['e'], st, fr)
            if not isinstance(v, T):
                return unkv('cast', e['t'])
            if v.op == 'poly' and v.unk and False:
                return v
            return self.convert(v, e['e'].get('t', ''), e['t'])
        if ck == 'ToVoid':
            self.ev(e['e'], st, fr)
            return ZERO
        if ck == 'NullToPointer':
            return ZERO
        if ck == 'PointerToBoolean':
            return TRUE
        v = self.ev(e['e'], st, fr)
        return unkv('cast-' + ck, e['t'], *[x for x in self.plain([v]) if x.op != 'sw'])

    def e_ilist(self, e, st, fr):
        t = e['t']
        c = tclass(t)
        vals = [self.ev(x, st, fr) for x in e['a']]
        if c[0] == 'rec':
            fs = rec_fields(c[1])
            d = {}
            for i, (n, ft) in enumerate(fs):
                if i < len(vals):
                    d[n] = self.coerce(vals[i], ft)
                else:
                    dv = self.field_default(c[1], n, ft, st, fr)
                    d[n] = dv
            return mk_rec(c[1], d)
        if c[0] in KR:
            return vals[0] if vals else ZERO
        if any(not isinstance(v, T) for v in vals):
            return unkv('ilist', t)
        return concat(*[one(v) for v in vals]) if vals else EMPTY

    def field_default(self, rec, n, ft, st, fr):
        r = self.prog.records.get(rec)
        if r:
            for f in r['fields']:
                if f['name'] == n and f.get('init') is not None:
                    return self.coerce(self.ev(f['init'], st, Frame(None, {'ret': ''})), ft)
        v = default_value(ft)
        return v if v is not None else unkv('fielddef', ft)

    def e_new(self, e, st, fr):
        return unkv('new', 'int')

    def e_delete(self, e, st, fr):
        return ZERO

    def e_throw(self, e, st, fr):
        raise Unsupported('throw')

    def e_opcall(self, e, st, fr):
        r = self.call(e, st, fr)
        return self.read(st, r) if isinstance(r, LP) else r

    e_mcall = e_opcall
    e_call = e_opcall

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e, st, fr):
        t = canon_vt(e['cls'])
        c = tclass(t)
        a = [x for x in e['a'] if x['k'] != 'defarg']
        if e['ck'] in ('copy', 'move') and len(a) == 1:
            return self.ev(a[0], st, fr)
        if c[0] == 'c':
            vs = [self.ev(x, st, fr) for x in a]
            if any(not isinstance(v, T) for v in vs):
                return unkv('cctor', t)
            if not vs:
                return ZERO
            if len(vs) == 1:
                return vs[0]
            return complex_(vs[0], vs[1])
        if c[0] in ('r', 'i', 'b'):
            if not a:
                return ZERO
            return self.ev(a[0], st, fr)
        if c[0] == 'vec':
            if e.get('il') and len(a) >= 1:
                return self.ev(a[0], st, fr)
            vs = [self.ev(x, st, fr) for x in a]
            vs = [v for v in vs if not (isinstance(v, T) and v.kind == 'other')]
            if not vs:
                return EMPTY
            if isinstance(vs[0], Iter) and len(vs) >= 2 and isinstance(vs[1], Iter):
                return self.irange(vs[0], vs[1], st)
            if isinstance(vs[0], T) and self._kindc(vs[0]) == 'v':
                return vs[0]
            if isinstance(vs[0], T) and self._kindc(vs[0]) == 's':
                if len(vs) > 1 and isinstance(vs[1], T) and not a[1]['t'].startswith('std::allocator'):
                    el = vs[1]
                else:
                    el = self.default_obj(c[1], st, fr)
                return self.repeat(vs[0], el)
            return unkv('vctor', t)
        if c[0] == 'rec':
            if split_targs(c[1])[0] in ('std::pair', 'std::tuple'):
                vs = [self.ev(x, st, fr) for x in a]
                fs = rec_fields(c[1])
                if not vs:
                    return default_value(t)
                if len(vs) == 1:
                    v = vs[0]
                    if isinstance(v, T):
                        return mk_rec(c[1], {n: fld(v, n) for n, _ in fs})
                if len(vs) == len(fs) and all(isinstance(v, T) for v in vs):
                    return mk_rec(c[1], {n: v for (n, _), v in zip(fs, vs)})
                return unkv('pair', t)
            return self.construct(e, c[1], a, st, fr)
        for x in a:
            try:
                v = self.ev(x, st, fr)
            except Unsupported:
                continue
            if isinstance(v, (Clo, FnRef, Iter, Ptr)) and len(a) == 1:
                return v
        if 'std::function' in t or e.get('lambda'):
            pass
        return mk('obj', (t,), 'other', t)

    def default_obj(self, t, st, fr):
        c = tclass(t)
        if c[0] == 'rec' and split_targs(c[1])[0] not in ('std::pair', 'std::tuple'):
            for f in self.prog.funcs.values():
                if f.get('ctor') and canon_vt(f['cls']) == canon_vt(t) and not f['params']:
                    return self.run_ctor(f, c[1], [], st)
            d = {n: self.field_default(c[1], n, ft, st, fr) for n, ft in rec_fields(c[1])}
            return mk_rec(c[1], d)
        v = default_value(t)
        return v if v is not None else unkv('default', t)

    def construct(self, e, rec, args, st, fr):
        f = self.prog.funcs.get(e['fk'])
        if f is None or f.get('defaulted') or f.get('implicit'):
            if not args:
                d = {}
                for n, ft in rec_fields(rec):
                    r = self.prog.records.get(rec)
                    init = next((x.get('init') for x in r['fields'] if x['name'] == n), None) if r else None
                    if init is not None:
                        d[n] = self.field_default(rec, n, ft, st, fr)
                    else:
                        c = tclass(ft)
                        if c[0] == 'vec':
                            d[n] = EMPTY
                        elif c[0] == 'c' or e.get('zero'):
                            d[n] = ZERO
                        elif c[0] in KR:
                            d[n] = from_atom(mk('undef', (rec + '::' + n,), c[0], canon_vt(ft)))
                        else:
                            d[n] = self.default_obj(ft, st, fr)
                return mk_rec(rec, d)
            return unkv('ctor', rec)
        vals = []
        for p, x in zip(f['params'], args):
            if p['t'].endswith('&') and not p['t'].startswith('const') :
                vals.append(self.lval(x, st, fr))
            else:
                vals.append(self.ev(x, st, fr))
        return self.run_ctor(f, rec, vals, st)

    def run_ctor(self, f, rec, vals, st):
        if len(self.stack) > MAXDEPTH:
            raise Budget()
        self.inlined.add(f['key'])
        r = self.new_root(rec)
        fr = Frame(LP(r), f)
        for p, v in zip(f['params'], vals):
            if isinstance(v, LP):
                fr.env[p['id']] = v
            else:
                pr = self.new_root(p['t'])
                st.v[pr] = v
                fr.env[p['id']] = LP(pr)
        d = {}
        inits = {i.get('field'): i for i in f.get('inits', [])}
        deleg = next((i for i in f.get('inits', []) if i.get('delegating')), None)
        if deleg:
            self.stack.append(f['key'])
            st.v[r] = self.ev(deleg['e'], st, fr)
            self.stack.pop()
        for n, ft in rec_fields(rec) if not deleg else ():
            c = tclass(ft)
            if n in inits and inits[n]['e'] is not None and inits[n]['e']['k'] != 'definit':
                ie = inits[n]['e']
                if ie['k'] == 'ctor' and not ie['a'] and c[0] == 'rec':
                    d[n] = self.default_obj(ft, st, fr)
                elif ie['k'] == 'unk' or ie['k'] == 'zeroinit' and False:
                    d[n] = unkv('init', ft)
                else:
                    d[n] = self.coerce(self.ev(ie, st, fr), ft)
            else:
                rr = self.prog.records.get(rec)
                init = next((x.get('init') for x in rr['fields'] if x['name'] == n), None)
                if init is not None:
                    d[n] = self.coerce(self.ev(init, st, Frame(None, f)), ft)
                elif c[0] == 'vec':
                    d[n] = EMPTY
                elif c[0] == 'c':
                    d[n] = ZERO
                elif c[0] in KR:
                    d[n] = from_atom(mk('undef', (rec + '::' + n,), c[0], canon_vt(ft)))
                else:
                    d[n] = self.default_obj(ft, st, fr)
        if not deleg:
            st.v[r] = mk_rec(rec, d)
        self.stack.append(f['key'])
        o = self.stmt(f['body'], st.copy(), fr) if f.get('body') else {'n': (TRUE, st)}
        self.stack.pop()
        cs = None
        for kind, (c, s) in o.items():
            cs = s if cs is None else self.merge(c, s, cs)
        st.v = cs.v
        return st.v[r]

    def repeat(self, n, el):
        def f(nn):
            fs = sym('k', 'int', nn)
            return for_(nn, fs, one(el))
        return lift(f, n)

    def irange(self, a, b, st):
        if not a.lp.same(b.lp) or a.rev != b.rev:
            return unkv('range', 'std::vector<int>')
        v = self.read(st, a.lp)
        if not isinstance(v, T):
            return unkv('range', 'std::vector<int>')
        if a.rev:
            v = reverse(v)
        return slice_(v, a.i, b.i)

    # ------------------------------------------------------------ whole functions
    def analyze(self, f, spec=False):
        """outputs of f as terms over its arguments ('arg', i) and the fields ('self', name)"""
        st = State()
        fr = Frame(LP(('this',)), f)
        outs = []
        for i, p in enumerate(f['params']):
            if spec and i == 0:
                fr.env[p['id']] = LP(('this',))
                continue
            j = i - 1 if spec else i
            t = canon_vt(p['t'])
            root = ('p', j)
            self.rtype[root] = t
            st.v[root] = from_atom(mk('arg', (j,), scalar_kind(t), t))
            fr.env[p['id']] = LP(root)
            if p['t'].endswith('&') and not p['t'].startswith('const '):
                outs.append(root)
        init = dict(st.v)
        self.stack.append(f['key'])
        o = self.stmt(f['body'], st, fr)
        self.stack.pop()
        cs = None
        for kind in ('r', 'n'):
            if kind in o:
                c, s = o[kind]
                cs = s if cs is None else self.merge(o['r'][0], cs, s)
        if cs is None:
            raise Unsupported('function does not return')
        res = {}
        if f.get('ret') not in ('void', None):
            r = cs.v.get(RET)
            res[('ret',)] = r if isinstance(r, T) else unkv('ret', f['ret'])
        for r in outs:
            v = cs.v.get(r, init[r])
            res[r] = v if isinstance(v, T) else unkv('out', 'int')
        for r, v in cs.v.items():
            if r[0] == 'F':
                t = canon_vt(self.field_type(r[1]))
                v0 = from_atom(mk('self', (r[1],), scalar_kind(t), t))
                if v is not v0:
                    res[r] = v if isinstance(v, T) else unkv('field', 'int')
        return res
