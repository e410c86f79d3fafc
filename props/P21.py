from vf.engine import Q
NOTE = ('every date of the years 1..9999 (in blocks of years), every time, every timestamp; the reference calendar is written independently (month by month, leap rule); '
        'components back to values for every valid triple of years 1..65535; nulls with arbitrary components; date + time of day')
CUTS = ['map_.*', 'index_.*', 'aggr_.*', 'ht_.*', 'unify_list', 'symbols_.*', 'at_.*', 'find_.*', 'filter_.*', 'pool_.*', 'obj_fmt.*', 'symbol', '.*err_.*', 'timestamp_current', 'cast_obj', 'drop_obj']


def queries(tier):
    qs = []

    def q(name, entry, bounds, solver='kissat', fn=(), **x):
        qs.append(Q(name, 'h_cal.c', entry='h_' + entry, solver=solver, unwind=15, cut=CUTS, bounds=bounds, functions=list(fn) or [entry], **x))
    step = 2500
    for a in range(1, 10000, step):
        q(f'date-{a}', 'date', f'every day of the years {a}..{min(a + step - 1, 9999)}', defs={'LO': a, 'HI': min(a + step - 1, 9999)}, timeout=600, fn=['date_from_i32'])
    q('date-into', 'date_into', 'every valid date of the years 1..65535', fn=['date_into_i32'])
    q('time', 'time', 'every 32-bit time', fn=['time_from_i32'], tier='thorough')
    q('time-div', 'time_div', 'every 32-bit time', fn=['time_from_i32'], solver='uf', hint=True)
    q('time-into', 'time_into', 'every time up to 595 hours', fn=['time_into_i32'])
    st = dict(defs={'CALSTUB': None}, replace=('date_from_i32', 'date_into_days'))
    q('timestamp', 'timestamp', 'every 64-bit timestamp', fn=['timestamp_from_i64', 'timespan_from_nanos'], solver='uf', hint=True, **st)
    q('timestamp-into', 'timestamp_into', 'every valid time of day, days far beyond the range on both sides', fn=['timestamp_into_i64', 'timespan_into_nanos'], solver='uf', hint=True, **st)
    q('days-into', 'days_into', 'every valid date of the years 1..65535', fn=['date_into_days'])
    q('null', 'null', 'null with arbitrary components', fn=['date_into_i32', 'time_into_i32', 'timestamp_into_i64'])
    q('combine', 'combine', solver='z3', bounds= 'every date within the representable timestamps, every time of day', fn=['ray_add_partial'])
    return qs
