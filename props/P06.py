from vf.engine import Q
NOTE = 'any sound table of 3, 5 and 7 slots with arbitrary keys, values and (for the _with functions) an arbitrary hash function, one lookup, placement, insertion or growth; three keys in chained buckets; hashes of equal values.'
ASSUMPTIONS = ['induction over the operations: the invariant assumed of a table before each is shown after it', 'null is not a key of the chains\' values', 'tables shared between threads (the _par functions, unused) are outside']


def queries(tier):
    k = dict(file='h_hash.c', mem=True, cut=['map_.*', 'ray_.*'], keep=['ray_err'])
    qs = []
    for w in (0, 1):
        for s in (3, 5, 7):
            ats = (0, s - 1, s, -1, -s - 2, (1 << 63) - 1, 1 - (1 << 63)) if not w else (*range(s), -1, -3)
            for op in ('get', 'next', 'insert'):
                for a in ats:
                    qs.append(Q(f'{op}-{s}' + '-with' * w + f'@{a}', entry='q_' + op, defs={'S': s, 'AT': f'({a}LL)', **({'WITH': None} if w else {})}, unwind=12,
                                bounds=f'{s} slots, ' + ('hash' if w else 'key') + f' {a}', functions=[f'ht_oa_tab_{op}' + '_with' * w, 'ht_oa_create'], tier='quick' if s == 5 else 'thorough', **k))
        for s, g in ((3, (0, 1, 2)), (3, (3, 1, 11)), (3, (-1, 22, -12)), (3, (2, 3, 13)), (3, (10, 21, 43)), (5, (0, 11, 22, 33, 44)), (5, (4, 12, 1, 2, -1)), (5, (18, 35, 52, 1, 20))):
            qs.append(Q('grow-' + '_'.join(map(str, g)) + '-with' * w, entry='q_grow', defs={'S': s, 'AT': 77, 'GROW': '{' + ','.join(map(str, g)) + '}', **({'WITH': None} if w else {})}, unwind=32,
                        bounds=f'keys (hashes) {g}, any values', replace=('vector', 'drop_obj'), functions=['ht_oa_rehash', 'ht_oa_tab_next' + '_with' * w], **k))
    for c in ((1, 6, 1, 11), (7, 7, 7, 2), (-1, 4, 9, -6), (0, 5, -5, 10), (2, 3, 4, 0), (3, 8, 3, 13), (1, 2, 2, -2)):
        qs.append(Q('chain-' + '_'.join(map(str, c)), entry='q_chain', defs={'S': 5, 'CHAIN': '{' + ','.join(map(str, c)) + '}'}, unwind=12, bounds=f'5 heads, keys {c}',
                    functions=['ht_bk_create', 'ht_bk_insert', 'ht_bk_get'], **k))
    for t in ('-TYPE_B8', '-TYPE_U8', '-TYPE_C8', '-TYPE_I16', '-TYPE_I32', '-TYPE_DATE', '-TYPE_I64', '-TYPE_F64', 'TYPE_F64', '-TYPE_SYMBOL', 'TYPE_I16', 'TYPE_I32', 'TYPE_I64', 'TYPE_C8', 'TYPE_U8', 'TYPE_B8'):
        qs.append(Q('hash' + t.replace('TYPE_', ''), entry='q_hash', defs={'S': 5, 'T': f'({t})'}, unwind=12, solver='uf' if t[0] != '-' else None, bounds=t, functions=['hash_index_obj'], **k))
    return qs
