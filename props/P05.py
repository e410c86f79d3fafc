from vf.engine import Q
NOTE = ('interning one text (1-9 bytes, any contents, NUL included) into a chain of 0-3 symbols of any texts, with and without memory, and reading symbols back; one text interned while another thread interns two more in the same '
        'chain, taking its steps between any two atomic operations; storage for texts while other threads take some and make it grow between any two atomic operations.')
ASSUMPTIONS = ['the hash is a stand-in (all in one chain)', 'memory is sequentially consistent; the other threads are models of the same protocol; at most 3 (thorough: 4) of their steps happen']


def queries(tier):
    qs = []
    k = dict(file='h_sym.c', keep=['symbols_.*', 'string_intern', 'str_.*', 'symbol_strlen', 'mmap_commit', 'heap_alloc'], cut=['ray_.*'])
    rp = ('heap_alloc', 'str_hash', 'backoff_spin', 'string_intern')
    for n, lens in enumerate(('{2, 2, 2, 2}', '{1, 1, 1, 1}', '{3, 4, 3, 2}', '{9, 9, 9, 8}', '{4, 5, 4, 4}')):
        for kk in range(4):
            qs.append(Q(f'one-{n}-{kk}', entry='q_one', defs={'LENS': lens, 'K': kk}, unwind=12, replace=rp, bounds=f'lengths {lens[1:-1]}; {kk} symbols in the chain', mem=kk == 1,
                        functions=['symbols_intern', 'str_from_symbol', 'symbol_strlen', 'str_cmp'], tier='quick' if kk < 3 and (n < 3 or kk == 2) else 'thorough', **k))
    for kk in (0, 1):
        for n, lens in enumerate(('{1, 1, 1, 1}',)):
            for st in (2, 3, 4):
                qs.append(Q(f'race-{n}-{kk}-{st}', entry='q_race', defs={'STEPS': st, 'K': kk, 'LENS': lens}, unwind=max(st + 2, 5), replace=rp + ('str_cmp',), cdefs={'VF_STEP': None}, tier='quick' if (st, kk) == (3, 0) else 'thorough',
                            functions=['symbols_intern'], bounds=f'{st} steps of the other thread; lengths {lens[1:-1]}; {kk} symbols in the chain', **k))
    for room in (64, 16, 9):
        for ln in (1, 3, 4, 7):
            for st in (0, 3, 5):
                qs.append(Q(f'storage-{room}-{ln}-{st}', entry='q_pool', defs={'POOLED': 1, 'ROOM': room, 'STEPS': st, 'LEN': ln}, unwind=34, inner=8, replace=('mmap_commit', 'backoff_spin', 'str_hash', 'heap_alloc'), cdefs={'VF_STEP': None},
                            tier='quick' if st == 3 and ln in (3, 4) else 'thorough', functions=['string_intern'], bounds=f'a text of {ln} bytes, {room} bytes of storage, {st} steps of other threads', **k))
    return qs
