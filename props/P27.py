from vf.engine import Q
NOTE = ('handing out, releasing (any number, live or not) and looking up from every valid table of 0-5 slots, any subset free in any order, with and without growth; valid tables are preserved, so histories of any '
        'length are covered; registration and release of three connections over epoll, the kernel refusing any of them.')
ASSUMPTIONS = ['epoll_ctl is a stand-in that succeeds or refuses']
K = dict(file='h_conn.c', keep=['poll_(de)?register', 'poll_get_selector', 'freelist.*', 'heap_realloc', 'heap_free'], functions=['freelist_push', 'freelist_pop', 'freelist_get'])


def queries(tier):
    qs = []
    for d in range(0, 6):
        for r in (0, 1):
            k = dict(defs={'D': d, 'ROOM': r}, unwind=d + 5, replace=('heap_realloc', 'heap_free'), bounds=f'every valid table of {d} slots', **K)
            s = f'{d}' + ('' if r else '-full')
            qs.append(Q('hand-out-' + s, entry='h_push', **k))
            qs.append(Q('release-' + s, entry='h_pop', **k))
    qs.append(Q('new', entry='h_create', unwind=8, **K))
    qs.append(Q('epoll', entry='h_poll', unwind=8, defs={'POLL': None}, mem=False, bounds='three connections', **K))
    return qs
