from vf.engine import Q
NOTE = ('every supported pair of boolean, byte, character, integer, double and temporal scalar types with all values; vectors of length 2 of every supported pair (and through the `as` operator); lists of two scalars; unsupported pairs.')
ASSUMPTIONS = ['a temporal value counts as the number that stores it (days, milliseconds, nanoseconds)', 'a double cast to an integer type lies in its range or is null (other conversions are undefined in C)',
               'what becomes of a value that does not fit is not fixed', 'casts to and from text, symbols, guids and dictionaries are outside (P20, P21 and P23 cover texts of numbers and dates)']
CUTS = ['ray_.*', 'map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'find_.*', 'filter_.*', 'table', 'dict', 'symbol', 'str_from_symbol', 'date_.*', 'time_.*', 'timestamp_.*', '.*_from_str', 'cmp_obj']
KEEP = ['cast_obj', 'ray_cast_obj']
NUM = 'B8 U8 I16 I32 I64 F64 DATE TIME TIMESTAMP'.split()
T = dict(B8=1, U8=2, I16=3, I32=4, I64=5, SYMBOL=6, DATE=7, TIME=8, TIMESTAMP=9, F64=10, GUID=11, C8=12)


def queries(tier):
    qs = []
    k = dict(cut=CUTS, keep=KEEP, replace=('env_get_type_by_type_name',), unwind=4)
    f = ['cast_obj']
    for s in NUM:
        for d in NUM + ['C8']:
            if d == 'C8' and s in ('DATE', 'TIME', 'TIMESTAMP'):
                continue
            sol = 'kissat' if s == 'F64' and d not in ('B8', 'F64') else None
            qs.append(Q(f'atom-{s}-{d}', 'h_cast.c', defs={'ATOM': None, 'ST': 'TYPE_' + s, 'DT': 'TYPE_' + d}, functions=f, bounds='all values', solver=sol, **k))
            if d == 'C8' or d == s or (s in ('B8', 'U8') and d in ('B8', 'U8')):
                continue
            ops = [None] + ([1, -1] if (NUM.index(s) + NUM.index(d)) % 4 == 0 else [])
            for o in ops:
                qs.append(Q(f'vector-{s}-{d}' + ('' if o is None else '-as' if o > 0 else '-as-atom'), 'h_cast.c', defs={'VEC': None, 'N': 2, 'ST': 'TYPE_' + s, 'DT': 'TYPE_' + d, **({'OPERATOR': o} if o else {})},
                            functions=f + (['ray_cast_obj'] if o else []), bounds='2 elements, all values', solver=sol, **k))
    for a, b, d in [('I32', 'F64', 'I64'), ('I64', 'I16', 'I32'), ('B8', 'I64', 'F64'), ('I64', 'U8', 'I16'), ('I16', 'I64', 'TIMESTAMP'), ('I64', 'I64', 'DATE'), ('I16', 'U8', 'B8')]:
        qs.append(Q(f'list-{a}-{b}-{d}', 'h_cast.c', defs={'LST': None, 'ST': 'TYPE_' + a, 'ST2': 'TYPE_' + b, 'DT': 'TYPE_' + d}, functions=f + ['ins_obj', 'ins_raw'], bounds='2 elements, all values', **{**k, 'unwind': 10}))
    for a, d in [('-TYPE_GUID', '-TYPE_I64'), ('-TYPE_SYMBOL', '-TYPE_F64'), ('TYPE_SYMBOL', 'TYPE_I64'), ('TYPE_GUID', 'TYPE_I32'), ('-TYPE_I64', 'TYPE_I64'), ('-TYPE_F64', '-TYPE_GUID'), ('TYPE_I64', '-TYPE_I64'), ('TYPE_F64', 'TYPE_GUID')]:
        qs.append(Q(f'unsupported{a}{d}'.replace('TYPE_', '').replace('--', '-'), 'h_cast.c', defs={'BAD': a, 'BADT': d}, functions=f, bounds='all values', **k))
    return qs
