from vf.engine import Q
NOTE = ('str_match / like against a prefix table: every text of 0-4 and every pattern of 0-4 arbitrary bytes (thorough: up to 6 over the special characters and two letters), '
        'termination and memory safety within the same lengths; lists of texts; longer patterns of eleven shapes (stars, sets and literals in sequence) with every choice of their ordinary characters against every text of 4-5 ordinary bytes.')
ASSUMPTIONS = ['an unterminated bracket set matches nothing', 'longer texts and patterns are outside the bounds']
HEAVY = ('[xx]*?x', '*[xx]x', '*x?[x]*')
SHAPES = [('*xx[x]', (4, 5)), ('*xxx', (5,)), ('*x[x]x', (5,)), ('*[^x]x', (4,)), ('*?[x]x', (4,)), ('x*x*x', (5,)), ('*x*xx', (5,)), ('[xx]*?x', (4,)), ('*[xx]x', (5,)), ('*x?[x]*', (5,)), ('*x*[x]', (4,))]
CUTS = ['map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'at_.*', 'find_.*', 'cast_.*', 'filter_.*', 'ray_.*', 'pool_.*']


def queries(tier):
    qs = []
    k = dict(file='h_like.c', cut=CUTS, keep=['ray_like'], functions=['ray_like', 'str_match'])

    def q(kind, entry, t, p, tier='quick', **x):
        d = {'TL': t, 'PL': p, **({'ALPHA': None} if kind == 'alpha' else {})}
        qs.append(Q(f'{kind}-{t}-{p}', entry=entry, defs=d, unwind=(t + 2) * (p + 2) + 2, inner=max(t, p) + 2, tier=tier, bounds=f'text of {t} and pattern of {p} bytes', **k, **x))
    for t in range(0, 5):
        for p in range(0, 5):
            q('match', 'h_match', t, p)
    for t, p in [(0, 3), (3, 0), (1, 1), (2, 3), (3, 3)]:
        q('bounds', 'h_bounds', t, p, mem=True)
    for sh, ts in SHAPES:
        for t in ts:
            qs.append(Q(f'shape-{sh}-{t}', entry='h_shape', defs={'TL': t, 'PL': len(sh), 'SHAPE': f'"{sh}"'}, tier='thorough' if sh in HEAVY else 'quick', unwind=(t + 2) * (len(sh) + 2) + 2, inner=max(t, len(sh)) + 2,
                        bounds=f'text of {t} ordinary bytes, pattern {sh} with any ordinary bytes for x', **k))
    q('list', 'h_list', 2, 2)
    for t, p in [(4, 5), (5, 5), (6, 5), (5, 6), (6, 6)]:
        q('alpha', 'h_match', t, p, tier='thorough', timeout=800)
    return qs
