import os
from vf.engine import Q, POOL
from props.P07 import table, OPS, CUTS, KEEP
NOTE = ('every supported pair of operand types of + - * / div % xbar as vector with vector, vector with scalar and scalar with vector, length 2 with every element value '
        '(shared operands, and operands the operation may reuse), against the operation on the scalars; work split over two tasks run in either order at length 3 '
        'with a few element values; different lengths; round, floor, ceil and neg of vectors against the scalars')
SLOW = [('div', 'TIME', 'I64'), ('mod', 'TIME', 'I64'), ('fdiv', 'I64', 'I32'), ('fdiv', 'I32', 'I64')]   # thorough tier
CUTS = [c for c in CUTS if c != 'pool_.*']


def queries(tier):
    qs, tab = [], table()
    for i, o in enumerate(OPS):
        k = dict(unwind=8, cut=CUTS, keep=KEEP(o) + ['pool_call_task_fn'], functions=[f'ray_{o}', f'ray_{o}_partial', 'binop_map'])
        for p in [0, 1]:
            n = 3 if p else 2
            kk = dict(defs={'OPN': i, 'N': n, **({'POOL': None} if p else {})}, replace=POOL if p else (), **k)
            sfx = '-split' if p else ''
            qs.append(Q(f'{o}-length{sfx}', 'h_vec.c', entry='h_LEN', bounds='lengths 2 and 3', **kk))
            for a, b, r in tab[o]:
                uf = 'F64' in (a, b) or o not in ('add', 'sub') or {a, b} == {'DATE', 'TIME'} or {a, b} == {'TIMESTAMP', 'TIME'}
                quick = (a, b) == ('I64', 'I64') if p else (o, a, b) not in SLOW
                qs.append(Q(f'{o}-{a}-{b}{sfx}', 'h_vec.c', entry=f'h_{a}_{b}', solver='uf' if uf and not p else 'kissat', tier='quick' if quick else 'thorough',
                            bounds='length 3 split in two, values from -15 to 16, nulls, powers of two' if p else 'length 2, all element values', timeout=120, **kk))
        for s in range(3):
            for a, b, r in tab[o]:
                if r == a or r == b:
                    uf = 'F64' in (a, b) or o not in ('add', 'sub') or {a, b} == {'DATE', 'TIME'} or {a, b} == {'TIMESTAMP', 'TIME'}
                    quick = (a, b) in (('I64', 'I64'), ('F64', 'F64'), ('I64', 'I32'))
                    qs.append(Q(f'{o}-{a}-{b}-own{s}', 'h_vec.c', entry=f'o_{a}_{b}', solver='uf' if uf else 'kissat', bounds='length 2, all element values; operands not shared', tier='quick' if quick else 'thorough',
                                timeout=120, defs={'OPN': i, 'N': 2, 'SHAPE': s}, **k))
    for f in ('round', 'floor', 'ceil', 'neg'):
        for t in (['U8', 'I16'] if f == 'neg' else ['DATE', 'TIME', 'TIMESTAMP']) + ['I32', 'I64', 'F64']:
            for p in [0, 1]:
                if p and (t != 'F64' or f == 'neg'):
                    continue
                qs.append(Q(f'{f}-{t}' + ('-split' if p else ''), 'h_vec.c', entry='h_un', unwind=8, cut=CUTS, keep=KEEP(f) + ['pool_call_task_fn'], solver='kissat', replace=POOL if p else (),
                            defs={'OPN': 0, 'N': 3 if p else 2, 'UFN': 'ray_' + f, 'UCONC': p, 'UT': 'TYPE_' + t, **({'POOL': None} if p else {})}, functions=[f'ray_{f}'],
                            bounds='length 3 split in two' if p else 'length 2, all element values'))
    return qs
