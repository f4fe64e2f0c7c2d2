#!/usr/bin/env python3
"""writes MANIFEST.json from the property table"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props

NF = 'static value analysis: normal form of the source compared with the normal form of a reference'
RULES = {'inputs_kept': 'interprocedural mod-ref analysis', 'no_state': 'effect analysis',
         'printers_inert': 'effect analysis of guarded code', 'members_initialised': 'definite initialisation',
         'python_binding': 'queries over the type-checked binding code', 'layout_same':
         'comparison of record layouts of both configurations', 'constructors':
         'static value analysis of the constructors against documented records'}
MODE = {'inputs': 'symbolic transfer of every argument and setting', 'own': 'dataflow from previous output content',
        'undef': 'dataflow of indeterminate values', 'selfs': 'dependence of results on state',
        'verbose': 'dependence of results on the diagnostic switch', 'flag': NF + ' (overflow indicator)'}
NOTE = ('Every listed function is analysed on every path with loops solved in closed form, for inputs of any size; '
        'arithmetic is that of the real and complex numbers, library containers follow their documented semantics. '
        'What the normal form cannot decide is reported as undecided in the evidence and raises no alarm; nothing is '
        'undecided on the current tree.')
NA = {'N01': 'a bound on floating point error depends on runtime magnitudes and cancellation; no static error analysis '
             'in reach covers unbounded sums and products with complex exponentials',
      'N02': 'a theorem of complex analysis about an infinite sum; static analysis can decide that each stage follows '
             'its defining formula (C01-C10), not that the formulas add up to the sum',
      'N03': 'termination of the repair depends on exact coincidences between floating point energies, and the limit is '
             'a statement of analysis; the individual repair step is decided by C22',
      'N04': 'loss of precision is a runtime quantity and the indicator is a heuristic on magnitudes; that the tests '
             'which are there are not lost is decided by C18'}


def main():
    checks = []
    for i, pr in sorted(props.PROPS.items()):
        t = []
        if pr.get('fns'):
            t.append(MODE.get(pr.get('mode', 'eq'), NF) + (' in the multiprecision configuration' if pr.get('mp') else ''))
        t += [RULES[r] for r in pr.get('rules', ())]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': '; '.join(t), 'level': 'other',
                       'level_note': pr.get('note') or (NOTE if pr.get('fns') else
                       'Every declaration, constructor or binding statement concerned is an obligation; see the '
                       'evidence for the instances.')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
