"""multi.py FILE.py [--check] [ID...]: plant every spec of a file that holds SPECS=[dict(ID=...,...), ...]"""
import sys, runpy, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
a = [x for x in sys.argv[1:] if not x.startswith('-')]
for s in runpy.run_path(a[0])['SPECS']:
    if len(a) == 1 or s['ID'] in a[1:]:
        seed.one(s, '--check' in sys.argv)
