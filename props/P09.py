import os
from vf.engine import Q, POOL
NOTE = ('all six comparisons against one total order (null smallest): every pair of comparable scalar types, all values; texts up to 3 bytes; '
        'vector/vector, vector/scalar and scalar/vector of length 2-3 with all element values, sequential and split over two workers; guids, enumerations.')
ASSUMPTIONS = ['worker tasks run one after another in either order (they write disjoint parts)', 'a date compared with a timestamp lies within the timestamps',
               'order and transitivity are those of one key type; mixed I64/F64 pairs compare as doubles', 'vectors longer than 3 and split DATE/TIMESTAMP vectors are outside the bounds']
CUTS = ['ray_.*', 'map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'at_.*', 'find_.*', 'cast_.*', 'filter_.*']
KEEP = ['ray_key', 'ray_(eq|ne|lt|le|gt|ge)', 'ray_(EQ|NE|LT|LE|GT|GE)_partial']
OPS = 'eq ne lt gt le ge'.split()
NUM = 'I16 I32 I64 F64'.split()
PAIRS = [(a, b) for a in NUM for b in NUM] + [(t, t) for t in 'DATE TIME TIMESTAMP SYMBOL'.split()] + [('DATE', 'TIMESTAMP'), ('TIMESTAMP', 'DATE')]
SP = PAIRS + [('B8', 'B8'), ('U8', 'U8'), ('B8', 'U8'), ('U8', 'B8'), ('C8', 'C8')]


def queries(tier):
    qs = []
    k = dict(cut=CUTS, keep=KEEP, solver='kissat', unwind=8)
    for a, b in SP:
        qs.append(Q(f'scalar-{a}-{b}', 'h_cmp.c', entry=f's_{a}_{b}', functions=['ray_' + o for o in OPS], bounds='all values', **{**k, 'solver': 'uf' if {a, b} == {'DATE', 'TIMESTAMP'} else 'kissat'}))
    qs.append(Q('scalar-text', 'h_cmp.c', entry='s_TEXT', functions=['ray_' + o for o in OPS] + ['str_cmp'], bounds='texts of up to 3 arbitrary bytes', **k))
    for i, o in enumerate(OPS):
        for j, (a, b) in enumerate(PAIRS + [('GUID', ''), ('ENUM', ''), ('LEN', '')]):
            for p in [0, 1]:
                if p and {a, b} == {'DATE', 'TIMESTAMP'}:
                    continue
                n = 3 if p and a not in ('ENUM', 'GUID') else 2
                sel = a == 'LEN' or (a == 'GUID' and p == (o in ('lt', 'ne'))) or (a == 'ENUM' and p == (o == 'gt')) or (b and p == (i + j) % 2 and (a == b or (i + j // 2) % 3 != 0)) or (not p and {a, b} == {'DATE', 'TIMESTAMP'})
                qs.append(Q(f'vector-{o}-{a}-{b}'.rstrip('-') + ('-split' if p else ''), 'h_cmp.c', entry=f'v_{a}_{b}'.rstrip('_'), defs={'N': n, 'OPN': i, **({'POOL': None} if p else {})},
                            replace=(*(POOL if p else ()), 'ray_get', 'ray_key'), functions=['ray_' + o, 'cmp_map'], bounds=f'vectors of length {n}, all element values' + (', work split in two' if p else ''),
                            tier='quick' if sel else 'thorough', **{**k, 'unwind': 18 if a == 'GUID' else 8, 'solver': 'uf' if {a, b} == {'DATE', 'TIMESTAMP'} else 'kissat'}))
    return qs
