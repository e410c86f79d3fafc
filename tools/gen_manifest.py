"""Writes MANIFEST.json from properties.jsonl and props/*.py (NOTE = what the check decides and its bounds)."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for i in ids:
    if os.path.exists(f'{V}/props/{i}.py'):
        m = importlib.import_module('props.' + i)
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': getattr(m, 'TECHNIQUE', 'bounded symbolic execution of the real C code (goto-cc + CBMC), decided by a SAT/SMT solver; counterexamples replayed on a native build'),
                       'level': 'model_checking', 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
