"""Closed forms of loops.  A loop body is evaluated once with a symbol for every
location it writes; the resulting recurrences are solved by pattern (invariant,
induction, last value, sum, product, sticky flag, append, pointwise write) and
otherwise kept as an explicit recurrence term.  Exits by condition, break, return
and by a flag in the loop condition are all described by the first iteration at
which they happen."""
from terms import *
import terms as tm


class Unsupported(Exception):
    pass


def free_syms(t):
    return [a for a in find_atoms(t, lambda a: a.op == 'sym')]


def has_new(v, mark):
    return bool(find_atoms(v, lambda a: a.op == 'sym' and a.a[1] > mark))


def sw_of(Q, bs, vals):
    r = vals[-1]
    for j in range(len(bs) - 1, -1, -1):
        r = ite(mk_sw(Q, (bs[j],), (TRUE, FALSE)), vals[j], r)
    return r


def trip_count(E, k):
    """number of k = 0,1,.. before E(k) is first false; None when not found"""
    def lin(Q):
        """Q = a*k + r"""
        a = None
        for m, c in Q.a:
            if any(occurs(k, x) for x, e in m):
                if m == ((k, 1),):
                    a = c
                else:
                    return None
        if a is None:
            return None
        return a, padd(Q, mkpoly({((k, 1),): a}), -1)

    def go(v):
        if v is TRUE:
            return apoly(INF)
        if v is FALSE:
            return ZERO
        if v.op != 'sw':
            return None
        Q, bs, ch = v.a
        if not occurs(k, Q):
            cs = [go(c) for c in ch]
            if any(c is None for c in cs):
                return None
            return sw_of(Q, bs, cs)
        l = lin(Q)
        if l is None or Q.kind not in ('b', 'i'):
            return None
        a, r = l
        if a.denominator != 1:
            return None
        if a < 0:
            # walk the pieces downwards: mirror
            bs = tuple((1 - b[0], 0) if True else b for b in reversed(bs))
            ch = tuple(reversed(ch))
            a, r = -a, pscale(r, -1)
        if len(bs) == 1:
            num = padd(const(bs[0][0]), r, -1)
            n0 = trip(num if a == 1 else idiv(padd(num, const(a - 1)), const(a)))
            t0, t1 = go(ch[0]), go(ch[1])
            if t0 is None or t1 is None:
                return None
            if ch[1] is FALSE:
                return n0 if t0 is apoly(INF) else minmax(n0, t0, 'min')
            if ch[0] is FALSE:
                return ite(lt(ZERO, n0), ZERO, t1)
            if not mono(ch[1]):
                return None
            rest = t1 if t1 is apoly(INF) else minmax(n0, t1, 'max')
            return rest if t0 is apoly(INF) else ite(lt(t0, n0), t0, rest)
        if len(bs) == 2 and bs[1][0] == bs[0][0] + 1 and ch[1] is FALSE and ch[0] is ch[2] and a == 1:
            num = padd(const(bs[0][0]), r, -1)
            if ch[0] is TRUE:
                return trip(num)
        return None

    def mono(v):
        """once false, false for all larger k"""
        if v.op != 'sw':
            return True
        Q, bs, ch = v.a
        if not occurs(k, Q):
            return all(mono(c) for c in ch)
        l = lin(Q)
        if l is None or len(bs) != 1:
            return False
        lo, hi = ch if l[0] > 0 else reversed(ch)
        return hi is FALSE and mono(lo) or lo is TRUE and mono(hi)

    class No(Exception):
        pass

    def top(v):
        r = go(v)
        if r is None:
            raise No()
        return r
    try:
        return tm.hoist(E, k, top)
    except No:
        return None


tm.TRIP = trip_count


class Loops:
    # ------------------------------------------------------------ statements
    def conj(self, e):
        while e is not None and e['k'] == 'cast' and e['ck'] in ('NoOp', 'LValueToRValue'):
            e = e['e']
        if e is not None and e['k'] == 'bin' and e['op'] == '&&':
            return self.conj(e['a'][0]) + self.conj(e['a'][1])
        return [e] if e is not None else []

    def loop(self, s, st, fr):
        k = s['k']
        self.loops += 1
        if k == 'for':
            if s.get('init'):
                self.stmt(s['init'], st, fr)
            return self.wloop(s, self.conj(s.get('c')), s['body'], s.get('inc'), st, fr)
        if k == 'while':
            if s.get('cv'):
                raise Unsupported('while declaration')
            return self.wloop(s, self.conj(s['c']), s['body'], None, st, fr)
        if k == 'do':
            out = {}
            o = self.stmt(s['body'], st, fr)
            nxt = None
            for kind, (c, s2) in o.items():
                if kind in ('n', 'c'):
                    nxt = (c, s2) if nxt is None else (or_(nxt[0], c), self.merge(nxt[0], nxt[1], s2))
                else:
                    self.join(out, 'n' if kind == 'b' else kind, c, s2)
            if nxt is not None:
                for kind, (c, s2) in self.wloop(s, self.conj(s['c']), s['body'], None, nxt[1], fr).items():
                    self.join(out, kind, and_(nxt[0], c), s2)
            return out
        return self.rfor(s, st, fr)

    def wloop(self, s, cs, body, inc, st, fr):
        def step(state):
            lg = []
            self.wlogs.append(lg)
            nroot = self.nroot
            pre = state.copy()
            es = [self.cond(c, state, fr) for c in cs]
            self.wlogs.pop()
            impure = any(r in pre.v for r, _ in lg)
            outs = {}
            E = TRUE
            if impure:
                for e in es:
                    E = and_(E, e)
                self.join(outs, 'b', not_(E), state.copy())
                es = []
            o = self.stmt(body, state, fr) if body else {'n': (TRUE, state)}
            nxt = {}
            for kind, (c, s2) in o.items():
                self.join(nxt if kind in ('n', 'c') else outs, 'x' if kind in ('n', 'c') else kind, and_(E, c), s2)
            if 'x' in nxt:
                c, s2 = nxt['x']
                if inc:
                    self.ev(inc, s2, fr)
                outs['x'] = (c, s2)
            return es, outs
        # a loop whose condition stays constant for a few rounds is unrolled
        r = self.unroll(step, st)
        if r is not None:
            return r
        return self.solve_loop(step, st, fr, None, None, s)

    def unroll(self, step, st):
        mark = self.nroot
        cur, cond, out = st, TRUE, {}
        for i in range(5):
            logs = self.wlogs
            self.wlogs = [[]]
            t = cur.copy()
            try:
                es, outs = step(t)
            except Unsupported:
                self.wlogs = logs
                return None
            lg = self.wlogs[0]
            self.wlogs = logs
            E = TRUE
            for e in es:
                E = and_(E, e)
            if E is FALSE:
                self.join(out, 'n', cond, cur)
                return out
            if E is not TRUE or i == 4:
                return None
            if i == 0 and not es:
                return None
            for w in self.wlogs:
                w.extend(x for x in lg if x[0] in st.v or x[0][0] == 'F')
            for kind, (c, s2) in outs.items():
                if kind != 'x':
                    self.join(out, 'n' if kind == 'b' else kind, and_(cond, c), s2)
            if 'x' not in outs:
                return out
            cond = and_(cond, outs['x'][0])
            if cond is FALSE:
                return out
            cur = outs['x'][1]
        return None

    def rfor(self, s, st, fr):
        rng = s['range']
        if rng['k'] == 'ilist' or rng.get('vc') == 'r':
            v = self.ev(rng, st, fr)
            lp = self.temp(st, v, rng.get('t'))
        else:
            lp = self.lval(rng, st, fr)
        v = self.read(st, lp)
        if not isinstance(v, T):
            raise Unsupported('range')
        n = size(v)
        var = s['var']

        def bind(state, kk):
            e = lp.i(kk)
            if var['ref'] or var.get('bindings'):
                target = e
                if not var['ref']:
                    target = self.temp(state, self.read(state, e), var['t'])
                if var.get('bindings'):
                    vt = self.loc_type(target.root, target.path)
                    names = [f for f, _ in rec_fields(tclass(vt)[1])]
                    for nm, b in zip(names, var['bindings']):
                        fr.env[b['id']] = target.f(nm)
                        if b.get('hold'):
                            fr.env[b['hold']] = target.f(nm)
                else:
                    fr.env[var['id']] = target
            else:
                fr.env[var['id']] = self.temp(state, self.read(state, e), var['t'])
        return self.counted(n, bind, lambda state: self.stmt(s['body'], state, fr), st, fr, s)

    def counted(self, n, bind, body, st, fr, s=None):
        """loop with a known trip count; bind(state, k) sets up iteration k"""
        if n.op == 'poly' and is_const(n) and cval(n) <= 4:
            out, cur, cond = {}, st, TRUE
            for i in range(int(max(cval(n), 0))):
                bind(cur, const(i))
                o = body(cur)
                nxt = {}
                for kind, (c, s2) in o.items():
                    self.join(nxt if kind in ('n', 'c') else out,
                              'x' if kind in ('n', 'c') else 'n' if kind == 'b' else kind, and_(cond, c), s2)
                if 'x' not in nxt:
                    return out
                cond, cur = nxt['x']
            self.join(out, 'n', cond, cur)
            return out
        k = self.ksym(n)

        def step(state):
            bind(state, apoly(k))
            outs = {}
            for kind, (c, s2) in body(state).items():
                self.join(outs, 'x' if kind in ('n', 'c') else kind, c, s2)
            return [], outs
        return self.solve_loop(step, st, fr, k, n, s)

    def ksym(self, n):
        f = apoly(INF)
        if n.op == 'poly':
            f = n
        elif n.op == 'sw':
            ls = set()

            def lv(v):
                if v.op == 'sw':
                    for c in v.a[2]:
                        lv(c)
                else:
                    ls.add(v)
            lv(n)
            ls.discard(ZERO)
            if len(ls) == 1:
                f = ls.pop()
        return sym('k', 'int', f)

    # ------------------------------------------------------------ varying locations
    def norm_paths(self, W):
        """minimal, non-aliasing set of (root, path)"""
        W = set(W)
        ch = True
        while ch:
            ch = False
            for (r, p) in sorted(W, key=lambda x: (str(x[0]), len(x[1]))):
                for (r2, p2) in list(W):
                    if r2 != r or p2 == p or (r, p) not in W or (r2, p2) not in W:
                        continue
                    i = 0
                    while i < len(p) and i < len(p2) and p[i] == p2[i]:
                        i += 1
                    if i == len(p):
                        W.discard((r2, p2))
                        ch = True
                    elif i < len(p2) and p[i][0] == 'i' and p2[i][0] == 'i':
                        W.discard((r, p))
                        W.discard((r2, p2))
                        W.add((r, p[:i]))
                        ch = True
        return W

    def trunc(self, log, st, mark, first):
        W = set()
        for r, p in log:
            if r not in st.v and r[0] != 'F':
                continue
            q = []
            for a in p:
                if a[0] == 'i' and (first or has_new(a[1], mark)):
                    break
                q.append(a)
            W.add((r, tuple(q)))
        return self.norm_paths(W)

    def covered(self, W, V):
        return all(any(r == r2 and p[:len(p2)] == p2 for r2, p2 in V) for r, p in W)

    def flatten(self, V, st):
        out = []
        for r, p in sorted(V, key=lambda x: (str(x[0]), str(x[1]))):
            v = self.root_val(st, r)
            if isinstance(v, T):
                self.flat1(r, p, out)
            elif type(v).__name__ == 'Iter':
                out.append((r, (('it',),)))
            else:
                out.append((r, ('other',)))
        return out

    def flat1(self, r, p, out):
        c = tclass(self.loc_type(r, p))
        if c[0] == 'rec' and rec_fields(c[1]):
            for n, _ in rec_fields(c[1]):
                self.flat1(r, p + (('f', n),), out)
        else:
            out.append((r, p))

    def subst_any(self, v, m):
        if isinstance(v, T):
            return subst(v, m)
        n = type(v).__name__
        if n == 'Iter':
            return type(v)(self.subst_lp(v.lp, m), subst(v.i, m), v.rev)
        if n in ('Ptr', 'Ins'):
            return type(v)(self.subst_lp(v.lp, m))
        return v

    def subst_lp(self, lp, m):
        return type(lp)(lp.root, tuple((a[0], subst(a[1], m)) if a[0] == 'i' else a for a in lp.path))

    def silent(self, f):
        logs = self.wlogs
        self.wlogs = []
        try:
            return f()
        finally:
            self.wlogs = logs

    # ------------------------------------------------------------ solving
    def solve_loop(self, step, st, fr, kgiven, n, s):
        LPc = self.LPc
        mark = tm._symn[0]
        if kgiven is not None:
            mark = kgiven.a[1] - 1
        k0 = kgiven if kgiven is not None else sym('k', 'int', apoly(INF))
        k0t = apoly(k0)
        V = set()
        flat, X = [], []
        guess, nope, pre = {}, set(), {}
        for rnd in range(8):
            flat = self.flatten(V, st)
            s0 = st.copy()
            X = []
            pre = {}

            def setup():
                for r, p in flat:
                    if p == ('other',):
                        X.append(None)
                        continue
                    t = 'int' if p == (('it',),) else self.loc_type(r, p)
                    x = sym('x', t)
                    X.append(x)
                    if (r, p) in guess and (r, p) not in nope:
                        pre[len(X) - 1] = (r, p)
                        ini, c = guess[(r, p)]
                        self.write(s0, LPc(r, p), padd(ini, pscale(k0t, c)))
                        continue
                    self.write(s0, LPc(r, p), from_atom(x))
            self.silent(setup)
            head = s0.copy()
            log = []
            logs, self.wlogs = self.wlogs, [log]
            nret = len(fr.retlps)
            try:
                es, outs = step(s0)
            finally:
                self.wlogs = logs
            W = self.trunc(log, st, mark, rnd == 0)
            again = False
            if 'x' in outs:
                sx = outs['x'][1]
                for r, p in (W if rnd == 0 else ()):
                    if p and p[-1] == ('it',) or not isinstance(self.root_val(st, r), T):
                        continue
                    try:
                        a, b = self.silent(lambda: (self.read(st, LPc(r, p)), self.read(sx, LPc(r, p))))
                    except (Unsupported, KeyError, AttributeError):
                        continue
                    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'poly' and a.kind in 'ib' \
                            and not a.unk and tclass(self.loc_type(r, p))[0] == 'i':
                        d = padd(b, a, -1)
                        if is_const(d) and d is not ZERO:
                            guess[(r, p)] = (a, cval(d))
                for r, p in list(pre.values()):
                    b = self.silent(lambda: self.read(sx, LPc(r, p)))
                    ini, c = guess[(r, p)]
                    if b is not padd(ini, pscale(padd(k0t, ONE), c)):
                        nope.add((r, p))
                        again = True
            if again:
                V = self.norm_paths(V | W)
                del fr.retlps[nret:]
                continue
            if rnd > 0 and self.covered(W, V) and (W == V or rnd >= 3 or not self.finer(W, V)):
                break
            if rnd <= 2:
                V = W
            else:
                V = self.norm_paths(V | W)
            if not V and rnd == 0:
                flat, X = [], []
                break
            del fr.retlps[nret:]
        else:
            raise Unsupported('loop locations')
        vs = []
        prei = set()
        for q, ((r, p), x) in enumerate(zip(flat, X)):
            if x is None:
                if 'x' in outs and outs['x'][1].v.get(r) is not st.v.get(r):
                    raise Unsupported('loop-carried reference')
                continue
            if q in pre:
                prei.add(len(vs))
            vs.append((r, p, x))
        for r, p in V:
            for w in self.wlogs:
                w.append((r, p))
        lp = [LPc(r, p) for r, p, _ in vs]
        xs = [x for _, _, x in vs]
        init = [self.read(st, l) for l in lp]
        mi = dict(zip(xs, init))
        mi[k0] = ZERO
        if 'x' not in outs:
            # at most one iteration
            out = {}
            E = TRUE
            if kgiven is not None:
                E = lt(ZERO, n)
                mi[kgiven] = ZERO
            for e in es:
                E = and_(E, subst(e, mi))
            self.join(out, 'n', not_(E), st)
            for kind, (c, s2) in outs.items():
                t = State_like(s2, {r: self.subst_any(v, mi) for r, v in s2.v.items()})
                self.join(out, 'n' if kind == 'b' else kind, and_(E, subst(c, mi)), t)
            return out
        cN, sN = outs['x']
        N = [self.read(sN, l) for l in lp]
        for a in N + init:
            if not isinstance(a, T):
                raise Unsupported('loop-carried object')
        for x, a, b in zip(xs, N, init):
            if self._kindc(a) != self._kindc(from_atom(x)) and not a.unk:
                raise Unsupported('loop-carried type')
        brks = [(kind, c, s2) for kind, (c, s2) in outs.items() if kind in ('b', 'r') and c is not FALSE]
        plan = None
        if kgiven is not None:
            plan = self.attempt(xs, N, init, [], [], brks, kgiven, n, s0, prei)
        else:
            idxs = list(range(len(es)))
            cands = [(idxs, [])]
            if len(es) > 1:
                cands += [([j], [i for i in idxs if i != j]) for j in idxs]
            for bi, gi in cands:
                plan = self.attempt(xs, N, init, [es[j] for j in bi], [es[j] for j in gi], brks, k0, None, s0, prei)
                if plan is not None:
                    break
            if plan is None:
                E = TRUE
                for e in es:
                    E = and_(E, e)
                b2 = [('b', not_(E), head)] + [(kd, and_(E, c), q) for kd, c, q in brks]
                plan = self.attempt(xs, N, init, [], [], b2, k0, apoly(INF), s0, prei)
        if plan is None:
            raise Unsupported('loop')
        return self.finish(plan, xs, lp, init, st, s, mark)

    def finer(self, W, V):
        return any(any(r == r2 and p[:len(p2)] == p2 and len(p) > len(p2) for r2, p2 in V) for r, p in W) \
            and not any(any(r == r2 and p == p2 for r2, p2 in V) for r, p in W if False)

    def attempt(self, xs, N, init, bound, G, brks, k0, n, s0, pre=()):
        g = TRUE
        for e in G:
            g = and_(g, e)
        outcomes = [(kd, constrain(c, g), {'s': s2, 'g': g}) for kd, c, s2 in brks]
        B = FALSE
        for _, c, _ in outcomes:
            B = or_(B, c)
        xn = dict(zip(xs, N))
        xn[k0] = padd(apoly(k0), ONE)
        if g is not TRUE:
            gn = subst(g, xn)
            c = and_(not_(B), not_(constrain(gn, g)))
            if c is not FALSE:
                outcomes.append(('t', c, None))
                B = or_(B, c)
        live = not_(B)
        if live is FALSE:
            live = TRUE
        N1 = [constrain(constrain(a, g), live) for a in N]
        # optimistic invariants
        I = set(range(len(xs))) - set(pre)
        while True:
            mI = {xs[i]: init[i] for i in I}
            drop = [i for i in I if subst(N1[i], mI) is not init[i]]
            if not drop:
                break
            I -= set(drop)
        # lengths that no iteration changes
        szs = {}
        for i, x in enumerate(xs):
            if i not in I and self._kindc(from_atom(x)) == 'v':
                sa = size_atom(x)
                z = size(N1[i])
                if (subst(z, mI) if mI else z) is apoly(sa):
                    szs[sa] = size(init[i])
        N2 = [subst(a, mI) if mI else a for a in N1]
        ind = {}
        for i, x in enumerate(xs):
            if i in pre:
                ind[i] = padd(N[i], subst(N[i], {k0: padd(apoly(k0), MONE)}), -1)
                continue
            if i in I or self._kindc(N2[i]) != 's':
                continue
            d = sub_(N2[i], from_atom(x)) if x.kind != 'b' else N2[i]
            if x.kind == 'b' or d.unk:
                continue
            if not any(occurs(y, d) for y in xs) and not occurs(k0, d):
                ind[i] = d
        if n is None:
            m = dict(mI)
            m.update(szs)
            for i, d in ind.items():
                m[xs[i]] = add(init[i], mul(apoly(k0), d))
            E = TRUE
            for e in bound:
                E = and_(E, subst(e, m))
            n = trip_count(E, k0) if E.op in ('sw', 'poly') else None
            if n is None or any(occurs(x, n) for x in xs) or occurs(k0, n):
                return None
            if n is apoly(INF) and not outcomes:
                return None
            k = self.ksym(n)
        else:
            k = k0
        return dict(k00=k0, I=I, mI=mI, ind=ind, N=N2, Nfull=N, n=n, k=k, outcomes=outcomes, B=B, g=g, k0=k0)

    def finish(self, P, xs, lp, init, st, s, mark):
        k, n, I, ind = P['k'], P['n'], P['I'], P['ind']
        kt = apoly(k)
        kp = sym('k', 'int', padd(n, ONE) if n.op == 'poly' and n is not apoly(INF) else apoly(INF))
        kpt = apoly(kp)
        m = dict(P['mI'])
        if P['k0'] is not k:
            m[P['k0']] = kt
        sol = {}
        for i, d in ind.items():
            m[xs[i]] = add(init[i], mul(kt, d))
            sol[i] = add(init[i], mul(kpt, d))
        for i in I:
            sol[i] = init[i]
        R = [i for i in range(len(xs)) if i not in sol]
        N = {i: subst(P['N'][i], m) for i in R}
        # strongly connected components of the remaining recurrences
        dep = {i: [j for j in R if occurs(xs[j], N[i])] for i in R}
        for comp in sccs(R, dep):
            mm = {xs[j]: subst(sol[j], {kp: kt}) for j in R if j in sol}
            bodies = {i: subst(N[i], {x: v for x, v in mm.items() if occurs(x, N[i])}) if mm else N[i] for i in comp}
            if len(comp) == 1:
                i = comp[0]
                r = self.solve1(bodies[i], xs[i], init[i], k, kp, n)
                if r is not None:
                    sol[i] = r
                    continue
            cx = [xs[i] for i in comp]
            ci = [init[i] for i in comp]
            cb = [bodies[i] for i in comp]
            for q, i in enumerate(comp):
                sol[i] = mu_(q, kpt, ci, k, cx, cb)
        self.loopinfo.append((s.get('l') if s else None, n))
        full = dict(m)
        for i in R:
            full[xs[i]] = subst(sol[i], {kp: kt})
        outcomes = [(kd, subst(c, full), q) for kd, c, q in P['outcomes']]
        outcomes = [o for o in outcomes if o[1] is not FALSE]
        out = {}

        def normal():
            t = st.copy()
            for i, l in enumerate(lp):
                self.write(t, l, subst(sol[i], {kp: n}))
            return t
        if not outcomes:
            if n is apoly(INF):
                raise Unsupported('endless loop')
            self.join(out, 'n', TRUE, self.silent(normal))
        else:
            B = FALSE
            for _, c, _ in outcomes:
                B = or_(B, c)
            if n is apoly(INF):
                ex = TRUE
                f = trip_count(not_(B), k)
                if f is None or f is apoly(INF):
                    f = first_(n, k, B)
            else:
                ex = exists_(n, k, B)
                f = first_(n, k, B) if ex is not FALSE else ZERO
            if ex is not TRUE:
                self.join(out, 'n', not_(ex), self.silent(normal))
            if ex is not FALSE:
                rest = ex
                roots = []
                for l in lp:
                    if self.norm(l).root not in roots:
                        roots.append(self.norm(l).root)
                for q, (kd, c, info) in enumerate(outcomes):
                    if q == len(outcomes) - 1:
                        here = rest
                    else:
                        cf = subst(constrain(c, B), {k: f})
                        here = and_(rest, cf)
                        rest = and_(rest, not_(cf))
                    if here is FALSE:
                        continue
                    if kd == 't':
                        t = st.copy()

                        def tailst():
                            for i, l in enumerate(lp):
                                v = self.tail_val(P, i, full, c, k, f)
                                self.write(t, l, v)
                        self.silent(tailst)
                    else:
                        s2 = info['s']
                        t = st.copy()
                        for r in roots + [('ret',)]:
                            if r not in s2.v or (r == ('ret',) and kd != 'r'):
                                continue
                            v = s2.v[r]
                            if isinstance(v, T):
                                v = subst(constrain(v, info['g']), full)
                                v = subst(constrain(v, c), {k: f})
                            else:
                                v = self.subst_any(self.subst_any(v, full), {k: f})
                            t.v[r] = v
                    self.join(out, 'r' if kd == 'r' else 'n', here, t)
        if P['g'] is not TRUE:
            g0 = subst(P['g'], dict(list(zip(xs, init)) + [(P['k0'], ZERO)]))
            if g0 is not TRUE:
                o2 = {}
                for kind, (c, t) in out.items():
                    self.join(o2, kind, and_(g0, c), t)
                self.join(o2, 'n', not_(g0), st)
                out = o2
        return out

    def tail_val(self, P, i, full, c, k, f):
        v = subst(constrain(P['Nfull'][i], P['g']), full)
        return subst(constrain(v, c), {k: f})

    def solve1(self, N, x, init, k, kp, n):
        kt, kpt = apoly(k), apoly(kp)
        if not occurs(x, N):
            return ite(eq(kpt, ZERO), init, subst(N, {k: padd(kpt, MONE)}))
        j = sym('j', 'int', FACTS.get(k, apoly(INF)))
        jt = apoly(j)
        X = from_atom(x)
        kc = self._kindc(X)
        if kc == 's':
            if x.kind == 'b' or (x.kind in ('i', 'b') and False):
                a, b = subst(N, {x: ONE}), subst(N, {x: ZERO})
                if a is TRUE:
                    return or_(init, exists_(kpt, j, subst(b, {k: jt})))
                if b is FALSE:
                    return and_(init, not_(exists_(kpt, j, not_(subst(a, {k: jt})))))
            else:
                if self._kindc(N) != 's':
                    return None
                d = sub_(N, X)
                if not occurs(x, d):
                    return add(init, sum_(kpt, j, subst(d, {k: jt})))
                ks = set()

                def leaf(l):
                    if l is X:
                        return FALSE
                    ks.add(l)
                    return TRUE
                c = lift(leaf, N)
                if len(ks) == 1 and not occurs(x, c):
                    K = next(iter(ks))
                    if not occurs(x, K) and not occurs(k, K):
                        return ite(exists_(kpt, j, subst(c, {k: jt})), K, init)
                if ks and not occurs(x, c) and not any(occurs(x, l) for l in ks):
                    # overwritten under a condition: the last such step counts
                    e = exists_(kpt, j, subst(c, {k: jt}))
                    if e is FALSE:
                        return init
                    last = padd(kpt, MONE)
                    f = first_(kpt, j, subst(c, {k: padd(last, jt, -1)}))
                    return ite(e, subst(constrain(N, c), {k: sub_(last, f)}), init)
                q = div(N, X)
                if not occurs(x, q):
                    return mul(init, prod_(kpt, j, subst(q, {k: jt})))
        if kc == 'v':
            bad = []

            def app(l):
                if l.op == 'seq' and l.a and l.a[0].op == 'spl' and l.a[0].a[0] is x:
                    return mk_seq(list(l.a[1:]))
                bad.append(1)
                return EMPTY
            r = lift(app, N)
            if not bad and not occurs(x, r):
                return concat(init, for_(kpt, j, subst(r, {k: jt})))
            bad = []

            def pre(l):
                if l.op == 'seq' and l.a and l.a[-1].op == 'spl' and l.a[-1].a[0] is x:
                    return mk_seq(list(l.a[:-1]))
                bad.append(1)
                return EMPTY
            r = lift(pre, N)
            if not bad and not occurs(x, r):
                return concat(for_(kpt, j, subst(r, {k: padd(padd(kpt, MONE), jt, -1)})), init)
            return self.pointwise(N, x, init, k, kp)
        return None

    def pointwise(self, N, x, init, k, kp):
        """X[g(k)] <- e(k, X[g(k)]) with g one to one"""
        sz = size_atom(x)
        if size(N) is not apoly(sz):
            return None
        a = sym('a', 'int', apoly(sz))
        at = apoly(a)
        M = idx(N, at)
        old = idx(from_atom(x), at)
        gs = set()

        def qs(v, seen):
            if v in seen:
                return
            seen.add(v)
            if v.op == 'sw':
                Q = v.a[0]
                if len(v.a[1]) == 2 and occurs(k, Q) and occurs(a, Q):
                    d = dict(Q.a)
                    ca, ck = d.get(((a, 1),)), d.get(((k, 1),))
                    if ca is not None and ck is not None and abs(ca) == 1 and abs(ck) == 1 and \
                            sum(1 for mm in d for y, e in mm if occurs(a, y) or occurs(k, y)) == 2:
                        gs.add((Q, v.a[1], ca, ck))
                for c in v.a[2]:
                    qs(c, seen)
            elif v.op == 'rec':
                for _, y in v.a[1]:
                    qs(y, seen)
        qs(M, set())
        for Q, bs, ca, ck in gs:
            if bs[1][0] != bs[0][0] + 1:
                continue
            # Q = ca*a + ck*k + r == b  ->  k = (b - r - ca*a)/ck
            r = padd(Q, mkpoly({((a, 1),): ca, ((k, 1),): ck}), -1)
            kk = pscale(padd(padd(const(bs[0][0]), r, -1), pscale(at, ca), -1), 1 / ck)
            off = self.eta(cofany(M, Q, bs, 0))
            off2 = self.eta(cofany(M, Q, bs, 2))
            if off is not old or off2 is not old:
                if not (off is off2 and self.eta(off) is old):
                    continue
            e = subst(cofany(M, Q, bs, 1), {k: kk})
            # X only through X[a] and its size
            y = sym('y', old.vt if old.op != 'poly' and old.vt else self._elem_vt(x))
            m = {}
            for t in find_atoms(e, lambda t: t.op == 'idx' and t.a[0] is x and t.a[1] is at):
                m[t] = from_atom(y)
            e2 = subst(e, m) if m else e
            szi = size(init)
            if occurs(sz, e2):
                e2 = subst(e2, {sz: szi})
            if occurs(x, e2):
                continue

            def build(nn):
                b = sym('a', 'int', nn)
                bt = apoly(b)
                kb = subst(kk, {a: bt})
                oldb = idx(init, bt)
                eb = subst(e2, {a: bt, y: oldb})
                c = and_(le(ZERO, kb), lt(kb, apoly(kp)))
                return for_(nn, b, one(ite(c, eb, oldb)))
            return lift(build, szi)
        return None

    def _elem_vt(self, x):
        return elem_vt(x)

    def eta(self, v):
        """record whose fields are all fields of one object"""
        if v.op == 'rec':
            base = None
            for n, y in v.a[1]:
                b = None
                at = y
                if y.op == 'sw' and len(y.a[1]) == 1 and y.a[2] == (FALSE, TRUE):
                    at = y.a[0]
                l = tm._leaf_atom(at) if at.op in ('poly', 'seq') else at
                if l is None or l.op != 'fld' or l.a[1] != n:
                    return v
                b = l.a[0]
                if base is None:
                    base = b
                elif base is not b:
                    return v
            if base is not None:
                return from_atom(base) if base.op not in ('rec', 'sw', 'poly', 'seq') else base
        return v


def cofany(v, Q, bs, j):
    """value of v in piece j of Q, also inside record fields"""
    r = tm.cof(v, Q, bs, j, {})
    def leaf(l):
        if l.op == 'rec':
            return mk_rec(l.a[0], {n: tm.cof(y, Q, bs, j, {}) for n, y in l.a[1]})
        return l
    return lift(leaf, r)


def State_like(s, v):
    t = type(s)()
    t.v = v
    return t


def sccs(nodes, dep):
    index, low, onst, stack, out = {}, {}, set(), [], []
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        onst.add(v)
        for w in dep[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(sorted(c))
    for v in nodes:
        if v not in index:
            go(v)
    return out
