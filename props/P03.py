from vf.engine import Q
NOTE = ('every serialisable type: atoms, vectors of length 0, 1 and 3, lists, nested lists, dictionaries, tables, functions, errors; all contents, messages of errors of 0-3 characters, symbols of 0, 1 and 2 characters; '
        'values without a serial form at any place.')
ASSUMPTIONS = ['the symbol table and the table of built-in functions are stand-ins: four symbols of at most two characters']
RP = ('drop_obj', 'symbols_intern', 'str_from_symbol', 'symbol_strlen', 'env_get_internal_id', 'env_get_internal_name', 'env_get_internal_function')
TYPES = 'B8 U8 C8 I16 I32 DATE TIME I64 SYMBOL TIMESTAMP F64 GUID'.split()


def queries(tier):
    qs = []
    k = dict(file='h_serde.c', mem=True, cut=['map_.*', 'ray_.*', 'drop_raw'], keep=['ray_err'])

    def q(e, t, n, tier='quick', K=None, **x):
        s = x.pop('suffix', '')
        d = {'N': n, 'T': 'TYPE_' + t, **x.pop('defs', {}), **({} if K is None else {'K': K})}
        qs.append(Q(f'{e}-{t}-{n}' + ('' if K is None else f'-{K}') + s, entry='q_' + e, defs=d, bounds=f'{t}, length {n}', tier=tier, functions=['size_obj', 'ser_obj', 'ser_raw', 'de_raw'],
                    unwind=x.pop('unwind', 70 if e == 'whole' else 50), replace=(*RP, 'lambda') if K == 4 and e == 'pair' else RP, recall=(('de_raw', 'vf_nested'),) if e in ('pair', 'null') else (), **{**k, **x}))
    for t in TYPES:
        for n in (0, 1, 2) if t == 'GUID' else (0, 1, 3):
            q('vec', t, n, 'quick' if n != 1 else 'thorough')
        q('atom', t, 1)
        for K in range(4 if t != 'GUID' else 1):
            q('pair', t, 1 if t == 'GUID' else 2, 'quick' if K == (TYPES.index(t)) % 5 or t in ('I16', 'SYMBOL') else 'thorough', K)
    q('whole', 'I32', 2)
    for t in ('I64', 'SYMBOL', 'C8'):
        q('pair', t, 2, K=4)
    for r in (0, 2, 3):
        q('atom', 'SYMBOL', 1, defs={'ROT': r}, suffix=f'-{r}')
        q('vec', 'SYMBOL', 3, defs={'ROT': r}, suffix=f'-{r}')
        q('pair', 'SYMBOL', 2, K=0, defs={'ROT': r}, suffix=f'-{r}')
    for e in ('null', 'fn', 'err'):
        q(e, 'I64', 2)
    for r in (0, 1, 3):
        q('err', 'I64', 2, defs={'USER': 1, 'ROT': r}, suffix=f'-user{r}')
    for K in range(5):
        q('refuse', 'I64', 2, K=K)
    return qs
