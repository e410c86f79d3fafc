#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [-v] [--keep] [--only substr]"""
import os, sys, json, shutil, signal, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.engine import Engine, VERIF

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--only'); ap.add_argument('--budget', type=int)
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:   # nothing to build: only make sure that the tools are there
        missing = [t for t in ('goto-cc', 'cbmc', 'clang', 'kissat', 'z3', 'objcopy') if not shutil.which(t)]
        print('missing tools:', missing) if missing else print('tools found')
        sys.exit(1 if missing else 0)
    m = importlib.import_module(f'props.{a.prop}')
    kf = os.path.join(VERIF, 'known_findings.json')
    known = json.load(open(kf))['findings'] if os.path.exists(kf) else []
    budget = a.budget or (780 if a.tier == 'quick' else getattr(m, 'THOROUGH_BUDGET', 6000))
    e = Engine(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), budget=budget, assumptions=getattr(m, 'ASSUMPTIONS', []),
               keep=a.keep, verbose=a.v)
    def ended(*_):   # told to stop: so do the solvers
        for p in list(e.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(e.scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, ended)
    qs = m.queries(a.tier)
    if a.only:
        qs = [q for q in qs if any(s in q.name for s in a.only.split(','))]
    sys.exit(e.check(qs, known, validate=getattr(m, 'VALIDATE', 4)))

if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception as ex:  # an error of the check is not a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
