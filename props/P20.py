from vf.engine import Q
NOTE = ('integers, bytes, booleans and decimals read from every text of up to 6 (decimals 3; thorough: 5) arbitrary bytes, plus the neighbourhoods of the 32- and 64-bit limits '
        '(all 5-byte endings after a fixed prefix, both signs), the eight-digit fast path, guids (4 arbitrary digits at a time), casts of texts; buffers exactly as long as the text.')
ASSUMPTIONS = ['decimals with more than 15 significant digits or a decimal exponent beyond 22 are converted by the C library (outside the encoding)']
CUTS = ['map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'at_.*', 'find_.*', 'filter_.*', 'ray_.*', 'pool_.*', 'obj_fmt.*', 'symbol', '.*err_.*']


def queries(tier):
    qs = []

    def q(name, entry, n, prefix='', tier='quick', unwind=None, **x):
        x.setdefault('mem', True)
        d = {'LEN': n, **x.pop('defs', {})}
        if prefix:
            d['PREFIX'] = '"%s"' % prefix
        qs.append(Q(name, 'h_num.c', entry=entry, defs=d, unwind=unwind or max(n + len(prefix), 9) + 2, tier=tier, cut=CUTS, functions=[entry.replace('h_', '') + '_from_str'],
                    bounds=f'{"after " + prefix + ": " if prefix else ""}{n} arbitrary bytes', **x))
    for n in range(0, 7):
        q(f'i64-{n}', 'h_i64', n)
        q(f'i32-{n}', 'h_i32', n)
    q('i64-limit', 'h_i64', 5, '09223372036854')
    q('i64-limit6', 'h_i64', 6, '09223372036854', tier='thorough')
    for n in range(7, 21):   # every length up to the widest, the last 3 bytes arbitrary
        q(f'i64-len{n}', 'h_i64', 3, '01234567890123456'[:n - 3])
    for n in range(7, 13):
        q(f'i32-len{n}', 'h_i32', 3, '012345678'[:n - 3])
    q('i32-limit', 'h_i32', 5, '021474')
    q('i32-limit6', 'h_i32', 6, '021474')
    q('i32-eight', 'h_i32', 5, '01234')
    for n in range(0, 5):
        q(f'u8-{n}', 'h_u8', n)
    for n in (0, 3, 4, 5):
        q(f'b8-{n}', 'h_b8', n)
    for n in range(0, 6):
        q(f'f64-{n}', 'h_f64', n, tier='quick' if n < 4 else 'thorough', timeout=400)
    for g in range(0, 36, 4):
        q(f'guid-{g}', 'h_guid', 0, defs={'GPOS': g}, unwind=38)
    for n in range(1, 4):
        q(f'cast-{n}', 'h_cast', n, mem=False)
    q('cast-wide', 'h_cast', 4, '03276', mem=False)
    return qs
