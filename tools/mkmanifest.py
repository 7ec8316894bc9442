"""Writes MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C32': 'A statistical claim about convergence rates of an iterative nonlinear solver over random restarts; there is '
           'no universally quantified assertion over the code for a solver to decide.',
}
NOTE = ('Decided for all real values of the symbolic inputs within the stated shapes and bounds; trusted: the dispatcher-level '
        'operator semantics (cross-checked against real torch on every explored path), exact reals instead of floats, '
        'the ring normaliser and z3/cvc5.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                       'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the real code under the PyTorch dispatcher, decided by '
                                    'SMT (z3, cvc5)',
                       'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'No check registered (yet).'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
