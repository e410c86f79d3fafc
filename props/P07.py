import os, re
from vf.engine import Q, HARN
OPS = ['add', 'sub', 'mul', 'div', 'fdiv', 'mod', 'xbar']
ASSUMPTIONS = ['one thread, no worker pool (scalars never reach it)',
               'a 64-bit operand combined with a 32-bit temporal operand into a 32-bit result is assumed to fit the 32 bits',
               'where floating point or 64-bit multiplication/division cannot be bit-blasted in time, the operators are left uninterpreted '
               '(unsat then holds for the real operators; anything else falls back to bit-blasting)',
               'quotients of mixed integer/double operands are specified only when they fit the result type']
NOTE = ('every supported pair of scalar types of + - * / div % xbar, all operand values (full 8..64-bit ranges, all doubles); every unsupported pair '
        'is rejected. No bound on values; scalars only (vectors are P08).')
CUTS = ['ray_.*', 'map_.*', 'index_.*', 'aggr_.*', 'cmp_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'str_.*', 'at_.*', 'pool_.*', 'dict.*', 'table.*', 'find_.*', 'vn_.*', 'cast_.*', 'filter_.*']


def KEEP(o):
    return [f'ray_{o}', f'ray_{o}_partial', 'pool_split_by']


def table():
    t, cur = {}, None
    for l in open(os.path.join(HARN, 'arith_table.h')):
        m = re.match(r'#define ARITH_(\w+)', l)
        if m:
            cur = t.setdefault(m.group(1).lower(), [])
        m = re.match(r'\s+X\((\w+), (\w+), (\w+)\)', l)
        if m:
            cur.append(m.groups())
    return t


def queries(tier):
    qs = []
    tab = table()
    for i, o in enumerate(OPS):
        fns = [f'ray_{o}', f'ray_{o}_partial', 'binop_map']

        def q(kind, a, b, bounds, timeout=100, tier='quick', solver='kissat', **d):
            qs.append(Q(f'{o}-{a}-{b}-{kind}', 'h_arith.c', entry=f'h_{a}_{b}', defs={'OPN': i, **d}, unwind=13, solver=os.environ.get('VFS') or solver, timeout=timeout,
                        functions=fns, tier=tier, bounds=bounds, cut=CUTS, keep=KEEP(o)))
        for a, b, r in tab[o]:
            fl = 'F64' in (a, b)
            q('all', a, b, 'all operand values', solver='uf' if fl or o not in ('add', 'sub', 'mul') or {a, b} == {'DATE', 'TIME'} else 'kissat')
        for t in 'B8 U8 C8 I16 I32 I64 SYMBOL DATE TIME TIMESTAMP F64'.split():
            qs.append(Q(f'{o}-unsupported-{t}', 'h_arith.c', entry=f'u_{t}', defs={'OPN': i}, unwind=13, functions=[f'ray_{o}'], cut=CUTS, keep=KEEP(o),
                        bounds='all values of all unsupported pairs of scalar types with this left type'))
    return qs
