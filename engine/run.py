"""Run the comparison workers for one property and settle every function."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = ['0', '1000', '77777', '31337']
GROUPS = 4


def worker(dumps, ids, seed, drop, budget, total, limit):
    """total: no further function is begun after so many seconds; limit: the process ends"""
    q = {'dumps': dumps, 'ids': ids, 'budget': budget, 'total': total, 'drop': drop}
    env = dict(os.environ, SYMSEED=seed, PYTHONHASHSEED='0')
    res = {'functions': {}, 'missing': [], 'parse_errors': 0, 'reference': {}, 'seed': seed}
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'worker.py')], input=json.dumps(q), env=env,
                           capture_output=True, text=True, timeout=limit)
        out = r.stdout
        if r.returncode:
            res['failed'] = (r.stderr or '')[-300:]
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        out = out.decode() if isinstance(out, bytes) else out
        res['failed'] = 'time'
    for l in out.split('\n'):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        res['functions'].update(d.pop('functions', {}))
        res.update(d)
    return res


# measured costs that matter for the distribution over processes (seconds)
COST = {'find_equal_values': 10, 'detect_otf_trigger': 9, 'evaluate_general_residue': 4, 'get_triggers': 2,
        'take_derivative_gprod': 2, 'find_poles': 2, 'derivative_opt': 2}


def settle(dumps, names, drop=('overflow_detected',), tier='quick', budget=40, allot=600, log=lambda s: None):
    """name -> function record; outputs get status EQ / DIFF (on every seed) / UNDECIDED"""
    names = sorted(set(names))
    groups = [[] for _ in range(min(GROUPS, len(names)))]
    load = [0] * len(groups)
    for n in sorted(names, key=lambda n: -COST.get(n, 1)):
        k = load.index(min(load))
        groups[k].append(n)
        load[k] += COST.get(n, 1)
    res = {'functions': {}, 'missing': [], 'reference': {}, 'failed': [], 'parse_errors': 0, 'runs': 0}
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda g: worker(dumps, g, SEEDS[0], list(drop), budget, allot * .4, allot * .6), groups))
        for g, o in zip(groups, outs):
            res['runs'] += 1
            res['functions'].update(o['functions'])
            res['missing'] += o['missing']
            res['reference'].update(o['reference'])
            res['parse_errors'] = max(res['parse_errors'], o['parse_errors'])
            if o.get('failed'):
                res['failed'].append(o['failed'])
                for n in g:
                    got = [i for i in o['reference'] if n in (i, base(i), i.split('#')[0])] or [n]
                    for i in got:
                        res['functions'].setdefault(i, {'outputs': {'*': {'status': 'UNDECIDED', 'why': o['failed']}},
                                                        'file': '', 'line': 0, 'time': 0, 'level': 0})
        for f in res['functions'].values():
            f['seeds'] = [SEEDS[0]]
        todo = sorted(i for i, f in res['functions'].items()
                      if tier == 'thorough' or any(r['status'] != 'EQ' for r in f['outputs'].values()))
        todo = [i for i in todo if '(' in i]
        if todo:
            log('%d functions again under other symbol orders' % len(todo))
            jobs = []
            end = max(t0 + allot, time.time() + 60)
            for s in SEEDS[1:]:
                for k in range(3):
                    part = todo[k::3]
                    if part:
                        jobs.append((part, s))
            for o in ex.map(lambda j: again(dumps, j, list(drop), budget, end), jobs):
                res['runs'] += 1
                for i, f in o['functions'].items():
                    if i in res['functions']:
                        merge(res['functions'][i], f, o.get('seed'))
    return res


def again(dumps, job, drop, budget, end):
    left = max(5, end - time.time())
    return worker(dumps, job[0], job[1], drop, budget, left * .6, left)


def base(i):
    return i.split('(')[0]


def merge(a, b, seed):
    a['seeds'].append(str(seed))
    A, B = a['outputs'], b['outputs']
    if '*' in A and '*' not in B:
        a['outputs'] = B
        return
    if '*' in B:
        return    # this order did not finish: no confirmation of what the others say
    for o, r in list(A.items()):
        s = B.get(o)
        if s is None or r['status'] == 'EQ':
            continue
        if s['status'] == 'EQ':
            A[o] = s
        elif r['status'] == 'UNDECIDED' and s['status'] == 'DIFF':
            A[o] = dict(s, confirmed=r.get('confirmed', 0), against=r.get('against', 0) + (r.get('instances') == 'same'))
        elif r['status'] == 'DIFF' and s['status'] == 'UNDECIDED' and s.get('instances') == 'same':
            r['against'] = r.get('against', 0) + 1
        elif s['status'] == 'DIFF' and r['status'] == 'DIFF':
            r['confirmed'] = r.get('confirmed', 0) + 1
