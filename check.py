#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Parses the current sources of the library, derives what every function in the property's cone computes
(a normal form over its inputs), and compares it with what the property demands.  Nothing is executed.
exit 0: held on everything decided; 1: violated (VIOLATION line); 2: the analysis itself is broken.
"""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True
import front
import props
import rules
import run


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2].strip()
                key, _, what = rest.partition(' ')
                out[key.partition('=')[2]] = what
    return out


def pick(mode, f, name, r, fn):
    """does this output's record violate the property under this mode?"""
    if r['status'] != 'DIFF':
        return None
    if not (r.get('confirmed', 0) >= 1 or r.get('undef') or r.get('state') or
            r.get('instances') == 'differ' and not r.get('against')):
        return None
    if mode == 'eq':
        return 'computes a different value'
    if mode == 'inputs':
        return 'an argument or setting the caller passed in is changed' if r.get('kept') else None
    if mode == 'own':
        return 'the previous content of the output reaches the result' if r.get('own') else None
    if mode == 'undef':
        return 'a value that was never set reaches the result: ' + ', '.join(r['undef']) if r.get('undef') else None
    if mode == 'selfs':
        s = list(r.get('state', [])) + list(r.get('selfs', []))
        return 'the result depends on ' + ', '.join(s) if s else None
    if mode == 'verbose':
        return 'a diagnostic setting reaches the result' if 'verbose' in r.get('selfs', []) else None
    if mode == 'flag':
        return 'the overflow flag differs' if 'overflow_detected' in name else None
    raise KeyError(mode)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    pr = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='amichk')
    ev = {'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
          'level': pr.get('level', 'other'), 'coverage': {}, 'wall_s': 0}
    viol, undec, lines = [], [], []
    try:
        cov = ev['coverage']
        cov['explanation'] = pr.get('explain') or props.EXPLAIN
        cov['functions'] = []
        mp = pr.get('mp', False)
        fns = list(pr.get('fns', ()))
        ctx = rules.Ctx(scratch)
        nob = 0
        exact = {}
        for cfgmp in ([True] if mp == 'only' else [False, True] if mp else [False]):
            if not fns:
                break
            d = ctx.lib(cfgmp)
            drop = () if pr.get('mode') in ('flag', 'verbose') else ('overflow_detected',)
            r = run.settle([p for k, p in sorted(d.items())], fns, drop=drop, tier=a.tier,
                           allot=360 if mp is True else 640,
                           log=lambda s: print('  ' + s))
            if r['parse_errors']:
                print('ERROR the sources do not parse (%d errors)' % r['parse_errors'])
                return 2
            tag = ' [BOOST_MP]' if cfgmp else ''
            undec += ['%s%s: no function with this signature' % (m, tag) for m in r['missing']]
            if r['failed']:
                undec += ['worker: ' + x for x in r['failed']]
            for i, f in sorted(r['functions'].items()):
                if not cfgmp:
                    j = short(i).split('#')[0]
                    exact[j] = exact.get(j, True) and all(x['status'] == 'EQ' for x in f['outputs'].values())
                st = {'function': i + tag, 'file': os.path.relpath(f['file'], front.REPO) if f['file'] else '',
                      'line': f['line'], 'outputs': {}, 'symbol_orders': len(f.get('seeds', [])),
                      'seconds': f['time']}
                for o, x in sorted(f['outputs'].items()):
                    nob += 1
                    why = pick(pr.get('mode', 'eq'), f, o, x, i)
                    if why:
                        viol.append(dict(key='%s:%s%s' % (short(i), o, tag.replace(' ', '')), where='%s:%d' % (st['file'], f['line']),
                                         function=i + tag, output=o, why=why, detail=x.get('diff'), instances=x.get('instances'), how=x.get('how'),
                                         undef=x.get('undef'), reference=r['reference'].get(i)))
                        st['outputs'][o] = 'VIOLATED'
                    elif x['status'] == 'EQ':
                        st['outputs'][o] = 'proved (%d terms)' % x.get('nodes', 0)
                    elif pr.get('mode', 'eq') != 'eq' and x['status'] == 'DIFF':
                        st['outputs'][o] = 'rule holds, value differs from the reference'
                    else:
                        st['outputs'][o] = 'undecided: ' + str(x.get('why', 'symbol orders disagree'))[:150]
                        undec.append('%s %s: %s' % (i + tag, o, str(x.get('why', ''))[:150]))
                cov['functions'].append(st)
            if not r['functions']:
                print('ERROR none of the %d functions of this property was found' % len(fns))
                return 2
        for rule in pr.get('rules', ()):
            res = getattr(rules, rule)(ctx)
            cov.setdefault('rules', []).append({'rule': res['rule'], 'instances': res['instances'],
                                                'samples': res.get('samples', [])[:8]})
            nob += res['instances']
            if res['instances'] < res.get('floor', 1):
                print('ERROR rule %s matched %d instances, expected at least %d' %
                      (rule, res['instances'], res.get('floor', 1)))
                return 2
            for v in res['violations']:
                cs = [c for c in v.get('covers', ()) if c in exact]
                if cs and all(exact[c] for c in cs):
                    continue    # every function that could show the effect is proved equal to its reference
                viol.append(v)
            undec += res.get('undecided', [])
        cov['obligations'] = nob
        cov['undecided'] = undec
        cov['sources'] = ctx.analysed()
        kn = known(pid)
        for v in viol:
            if v['key'] in kn:
                lines.append('KNOWN-FINDING: property=%s %s %s' % (pid, v['key'], kn[v['key']]))
                v['known'] = True
        fresh = [v for v in viol if not v.get('known')]
        cov['violations'] = len(fresh)
        if fresh:
            rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
            with open(rp, 'w') as fh:
                json.dump({'property': pid, 'command': 'python3 check.py %s' % pid, 'violations': fresh}, fh, indent=1)
            for v in fresh[:6]:
                print('%s: %s: %s: %s' % (v['where'], v['function'], v['output'], v['why']))
                for d in (v.get('detail') or [])[:2]:
                    if isinstance(d, dict):
                        print('    at %s\n      demanded   %s\n      found      %s' %
                              (d['at'][:60], str(d['reference'])[:300], str(d['repository'])[:300]))
                    else:
                        print('    ' + str(d)[:400])
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    except front.FrontError as e:
        print('ERROR ' + str(e)[:400])
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        ev['wall_s'] = round(time.time() - t0, 2)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for u in undec[:8]:
        print('undecided: ' + u[:200])
    print('%s: %d obligations, %d violated, %d undecided, %.0f s' %
          (pid, nob, len(fresh), len(undec), time.time() - t0))
    for l in lines:
        print(l)
    return 1 if fresh else 0


def short(i):
    return i.replace(' ', '')


if __name__ == '__main__':
    sys.exit(main())
