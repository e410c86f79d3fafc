from vf.engine import Q, POOL
NOTE = ('and / or over every mix of 2 and 3 scalar and vector arguments (vectors of length 3, 4 when split over two workers), all boolean values, shared or private '
        'arguments, partitioned masks (no match / all / mask per partition), rejected arguments; not of scalars and vectors.')
ASSUMPTIONS = ['argument evaluation is a stand-in returning the argument (shared or a private copy) or an error', 'worker tasks run one after another in either order']
CUTS = ['map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'at_.*', 'find_.*', 'cast_.*', 'filter_.*', 'ray_.*']
KEEP = ['ray_and', 'ray_or', 'ray_not', 'eval']


def queries(tier):
    qs = []
    for o, name in enumerate(['and', 'or']):
        for p in [0, 1]:
            k = dict(file='h_logic.c', unwind=8, cut=CUTS, keep=KEEP, solver='kissat', mem=True, defs={'OPN': o, 'N': 4 if p else 3, **({'POOL': None} if p else {})}, replace=(*(POOL if p else ()), 'eval'),
                     functions=['ray_' + name])
            s = '-split' if p else ''
            b = 'all values, length ' + ('4, split in two' if p else '3')
            for v in range(4):
                qs.append(Q(f'{name}-2-{v:02b}{s}', entry=f'l2_{v}', bounds=b, **k))
            for v in (0, 4) if p else range(8):
                qs.append(Q(f'{name}-3-{v:03b}{s}', entry=f'l3_{v}', bounds=b, **k))
            qs.append(Q(f'{name}-same{s}', entry='l_same', bounds=b, **k))
            if not p:
                qs.append(Q(f'{name}-rejected', entry='l_bad', bounds=b, **k))
                for a in range(3):
                    for c in range(3):
                        qs.append(Q(f'{name}-parted-{a}{c}', entry=f'p_{a}{c}', bounds='two partitions of 3 rows', **k))
    qs.append(Q('not', 'h_logic.c', entry='n_all', defs={'OPN': 0}, unwind=8, cut=CUTS, keep=KEEP, replace=('eval',), functions=['ray_not'], bounds='length 3, all values'))
    return qs
