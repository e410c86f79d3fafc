from vf.engine import Q
NOTE = ('every type tag followed by arbitrary bytes, messages of every length 0-28 in steps (all truncation points of fixed-size parts), vectors, symbols and lists of arbitrary announced lengths, containers whose parts are '
        'arbitrary nulls, bytes, byte and symbol vectors, lists of those, or garbage.')
ASSUMPTIONS = ['containers are decided one level at a time: nested values are read by a reference reader of part of the format', 'the symbol table and the table of built-in functions are stand-ins that check what they are given',
               'the bound on nesting (1024) is not unrolled']
RP = ('symbols_intern', 'str_from_symbol', 'symbol_strlen', 'env_get_internal_function', 'vector', 'drop_obj', 'vn_list', 'table', 'dict', 'lambda')
VEC = 'B8 U8 C8 I16 I32 DATE TIME I64 TIMESTAMP F64 GUID SYMBOL'.split()


def queries(tier):
    qs = []
    k = dict(file='h_serde.c', mem=True, replace=RP, cut=['map_.*', 'ray_.*', 'drop_raw'], keep=['ray_err'])

    def q(e, t, n, tier='quick', **x):
        m = x.pop('model', 'vf_leaf')
        sx, fix = x.pop('suffix', ''), x.pop('fix', [])
        qs.append(Q(f'{e}-{t}-{n}{sx}'.replace('-TYPE_', '-'), entry='q_' + e, defs={'DE': None, 'N': n, 'T': f'({t})', **({'FIX': ','.join('{%d,%d,%s}' % f for f in fix)} if fix else {})}, bounds=f'type {t}, {n} bytes', tier=tier, functions=['de_raw', 'de_obj'], unwind=260 if e == 'other' else n + 3,
                    recall=(('de_raw', m if e != 'message' else 'vf_read'),), **{**k, **x}))
    q('bytes', 'TYPE_I64', 0)
    for l in (0, 1, 2, 3, -1):
        q('bytes', 'TYPE_SYMBOL', 14, fix=[(2, 8, l)], suffix=f'-{l}')
    for t in VEC:
        if t == 'SYMBOL':
            continue
        for n in (1, 2, 9, 10, 13, 18, 28):
            q('bytes', 'TYPE_' + t, n, 'quick' if n in (1, 9, 13) or n == 28 and t in ('I64', 'GUID') else 'thorough')
        for n in (1, 2, 3, 5, 9, 17):
            q('bytes', '-TYPE_' + t, n, 'quick' if n in (3, 9) or n == 17 and t == 'GUID' else 'thorough')
    for n in (1, 2, 8, 9, 10):
        q('bytes', 'TYPE_LIST', n)
    for l, n in ((-1, 12), (0, 12), (1, 11), (1, 14), (1, 22), (2, 13), (2, 15), (3, 15), (3, 12)):
        q('bytes', 'TYPE_LIST', n, fix=[(2, 8, l)], suffix=f'-{l}')
    for t in ('DICT', 'LAMBDA'):
        for n in (1, 2, 3, 8):
            q('bytes', 'TYPE_' + t, n)
        for kt in ('TYPE_SYMBOL', '-TYPE_U8', 'TYPE_NULL', 'TYPE_U8'):
            kl = {'-TYPE_U8': 2, 'TYPE_NULL': 1}.get(kt)
            for l in (0, 1, 2) if not kl else (0,):
                at = 2 + (kl or 10 + l)
                for v in ('TYPE_U8', 'TYPE_NULL', '64'):
                    for m in (0, 1, 2) if v == 'TYPE_U8' and not kl and t == 'DICT' else (0,):
                        q('bytes', 'TYPE_' + t, at + 12, 'quick' if l < 2 and kt != 'TYPE_U8' or l == m == 1 else 'thorough', suffix=f'-{kt}-{l}-{v}-{m}'.replace('TYPE_', ''),
                          fix=[(2, 1, kt), *([] if kl else [(4, 8, l)]), *([(12 + i, 1, 0) for i in range(l)] if kt == 'TYPE_SYMBOL' else []), (at, 1, v), *([(at + 2, 8, m)] if v == 'TYPE_U8' else [])])
    for n in (1, 2):
        q('bytes', 'TYPE_TABLE', n)
    for l, m, a, b in ((0, 0, 0, 0), (1, 1, 1, 0), (2, 2, 1, 1), (2, 2, 0, 1), (1, 2, 0, 0), (2, 1, 1, 1), (2, 0, 0, 0), (1, 1, 'TYPE_NULL', 0), (1, 1, '-TYPE_U8', 0), (1, -1, 1, 0)):
        at = 12 + l
        fix = [(2, 1, 'TYPE_SYMBOL'), (4, 8, l), *[(12 + i, 1, 0) for i in range(l)], (at, 1, 'TYPE_LIST'), (at + 2, 8, m)]
        at += 10
        for x in (a, b)[:max(m, 0)]:
            if isinstance(x, str):
                fix.append((at, 1, x))
                at += 2
            else:
                fix += [(at, 1, 'TYPE_U8'), (at + 2, 8, x)]
                at += 10 + x
        for n in (at, at - 1):
            q('bytes', 'TYPE_TABLE', n, 'quick' if n == at else 'thorough', fix=[f for f in fix if f[0] + f[1] <= n], suffix=f'-{l}-{m}-{a}-{b}'.replace('TYPE_', ''), model='vf_leaf_or_list')
    for t in ('UNARY', 'BINARY', 'VARY'):
        for n in (1, 4):
            q('bytes', 'TYPE_' + t, n)
    for n in (1, 9, 10):
        q('bytes', 'TYPE_ERR', n, fix=[(1, 1, 'EC_TYPE')] if n > 1 else [])
    for n in (9, 10, 11, 13):
        q('bytes', 'TYPE_ERR', n, fix=[(1, 1, 'EC_USER')], suffix='-user')
    q('bytes', 'TYPE_NULL', 3)
    q('other', 'TYPE_I64', 12)
    for n in (0, 15, 16, 19):
        q('message', 'TYPE_I64', n)
    return qs
