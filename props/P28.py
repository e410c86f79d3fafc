from vf.engine import Q
NOTE = ('each operation (add, remove any identifier, take, fire, the language functions) from every valid schedule of 0-5 timers (firing: 0-3 timers, up to 3 firings per call, callbacks that add or remove timers, '
        'their own included), all due times, intervals, repeat counts and non-decreasing clocks; valid schedules are preserved, so histories of any length are covered; growth beyond the capacity.')
ASSUMPTIONS = ['callbacks are stand-ins that record, add or remove', 'the clock does not run backwards', 'times below 2^41 ms, intervals below 2^20 ms']
K = dict(file='h_timer.c', unwind=8, keep=['timer.*', 'ray_timer.*', 'get_time_millis', 'call', 'heap_free', 'heap_realloc'], replace=('call', 'get_time_millis', 'clone_obj', 'drop_obj', 'heap_free', 'heap_realloc'), cut=['ray_(?!timer).*'],
         functions=['timer_add', 'timer_del', 'timer_next_timeout', 'timer_pop'])


def queries(tier):
    qs = []

    def q(name, entry, n, tier='quick', **d):
        qs.append(Q(f'{name}-{n}', entry=entry, defs={'N': n, **d}, bounds=f'every valid schedule of {n} timers', tier=tier, weight=n, **{**K, 'unwind': 5 + n}))
    for n in range(0, 6):
        q('add', 'h_add', n)
        q('grow', 'h_add', n, ROOM=0)
        q('remove', 'h_del', n)
        q('take', 'h_pop', n)
    for n in range(0, 4):
        q('fire', 'h_fire', n)
        q('language', 'h_ray', n)
    for n in range(1, 4):
        q('fire-removing', 'h_fire', n, tier='quick' if n < 3 else 'thorough', INCB=1)
        q('fire-adding', 'h_fire', n, tier='quick' if n < 3 else 'thorough', INCB=2)
    q('fire3', 'h_fire', 3, MAXFIRE=3, tier='thorough')
    q('fire-4', 'h_fire', 4, tier='thorough')
    return qs
