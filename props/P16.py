from vf.engine import Q, POOL
NOTE = ('indexing by one or three arbitrary positions, masks, set positions, reversal, taking (-6..6 and every range), joining (all four forms, and a list of vectors), cutting at one or two arbitrary positions of each '
        'index type, first/last, ranges: all values, twelve element types and lists, lengths 0-3 (4 when split over two workers).')
ASSUMPTIONS = ['mapped, enumerated and partitioned columns, tables and dictionaries are outside this check', 'texts that are joined hold no NUL (a terminating one is dropped by design)', 'worker tasks run one after another in either order']
TYPES = 'B8 U8 C8 I16 I32 DATE TIME I64 SYMBOL TIMESTAMP F64 GUID'.split()
OPS = 'at ats filter reverse take range concat cut badcut raze ends'.split()
CUTS = ['map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'symbols_.*', 'cast_.*', 'filter_.*', 'ray_.*', 'de_raw', 'ray_get', 'enumerate', 'find_.*', 'str_split', 'push_.*', 'ins_.*', 'cmp_.*', 'hash_.*']
KEEP = ['ray_at', 'ray_filter', 'ray_reverse', 'ray_take', 'ray_concat', 'ray_split', 'ray_raze', 'ray_first', 'ray_last', 'ray_where', 'ray_til', 'ray_til_partial', '__til']


def queries(tier):
    qs = []
    k = dict(file='h_seq.c', cut=CUTS, keep=KEEP, mem=True, unwind=9)

    def q(op, t, n, tier='quick', **x):
        d = {'N': n, **({'LISTS': None} if t == 'LIST' else {'T': 'TYPE_' + t}), **x.pop('defs', {})}
        s = x.pop('suffix', '')
        qs.append(Q(f'{op}-{t}-{n}{s}', entry='q_' + op, defs=d, bounds=f'{t}, length {n}', tier=tier, functions=['ray_' + {'ats': 'at', 'range': 'take', 'ends': 'first', 'cut': 'split', 'badcut': 'split', 'tilf': 'til'}.get(op, op)], **{**k, **x}))
    for t in TYPES + ['LIST']:
        for n in (0, 3):
            for op in OPS:
                if t == 'LIST' and op in ('raze', 'cut', 'badcut') or op == 'badcut' and t not in ('U8', 'I16', 'I32', 'I64', 'F64', 'GUID') or op in ('cut', 'badcut') and n == 0:
                    continue
                q(op, t, n, 'quick' if n or t in ('U8', 'I64', 'LIST') else 'thorough', **({'defs': {'BADCUT': None}, 'replace': ('drop_obj',)} if op == 'badcut' else {'unwind': 40} if op == 'cut' else {}))
    for it in ('I16', 'I32'):
        for t in ('U8', 'I64'):
            q('cut', t, 3, defs={'IT': 'TYPE_' + it}, suffix='-' + it, unwind=40)
            q('badcut', t, 3, defs={'IT': 'TYPE_' + it, 'BADCUT': None}, suffix='-' + it, replace=('drop_obj',))
    for n in (1, 3):
        q('cut', 'I64', 3, defs={'K': n}, suffix=f'-{n}', unwind=60)
        q('badcut', 'I64', 3, defs={'K': n, 'BADCUT': None}, suffix=f'-{n}', replace=('drop_obj',))
    q('where', 'I64', 3)
    q('til', 'I64', 3)
    q('til', 'I64', 4, defs={'POOL': None}, replace=POOL, suffix='-split')
    q('tilf', 'I64', 4, defs={'POOL': None}, replace=POOL, suffix='-split')
    q('tilf', 'I64', 4)
    return qs
