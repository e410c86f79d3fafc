from vf.engine import Q
NOTE = ('putting and taking a task from every state of a queue of 2 or 4 cells (any cells being written or read by others), other producers and consumers claiming, filling, taking and releasing cells between any two '
        'atomic operations; a round of 1-5 tasks with the queue growing, carried out by two workers; positions of split work for every length up to 2^40 and 1-16 workers. All contents.')
ASSUMPTIONS = ['memory is sequentially consistent', 'at most 2 steps of others happen during one operation (thorough: 4)', 'a compare-and-exchange fails only when the value differs', 'mutexes and conditions are stand-ins; in a round the second worker acts before the first']


def queries(tier):
    qs = []
    k = dict(file='h_pool.c', keep=['mpmc_.*', 'pool_.*', 'heap_mmap', 'heap_unmap', 'mutex_.*', 'cond_.*', 'heap_borrow', 'heap_merge', 'rc_sync.*'], cut=['ray_.*'])
    for cells, steps in ((2, 2), (2, 4), (4, 3)):
        for head in range(cells):
            if cells == 4 and head not in (0, 3): continue
            for used in range(cells + 1):
                for e in ('push', 'pop'):
                    qs.append(Q(f'{e}-{cells}-{steps}-{head}-{used}', entry='q_' + e, defs={'CELLS': cells, 'HEAD': head, 'USED': used, 'STEPS': steps}, unwind=10, unwindset=f'mpmc_{e}.0:{steps + 2}', cdefs={'VF_STEP': None},
                                replace=('backoff_spin',), tier='quick' if (cells, steps) == (2, 2) else 'thorough', functions=['mpmc_' + e], bounds=f'{cells} cells, head at {head}, {used} in use, {steps} steps of others', **k))
    for n in range(1, 17):
        quick = n in (1, 2, 3, 4, 7, 8, 16)
        mp = ('pool_get', 'pool_prepare', 'pool_add_task', 'pool_run', 'rc_sync_get')
        qs.append(Q(f'map-{n}', entry='q_map', defs={'MAP': 1, 'N': n, 'ELEM': 8}, unwind=18, replace=mp, solver='kissat', tier='quick' if quick else 'thorough', functions=['pool_map', 'pool_split_by_mem'], bounds=f'{n} workers, lengths to 2^40', **k))
        for elem in (1, 2, 4, 8, 16, 8192):
            qs.append(Q(f'chunk-{n}-{elem}', entry='q_chunk', defs={'MAP': 1, 'N': n, 'ELEM': elem}, unwind=18, replace=mp, solver='kissat', tier='quick' if quick and elem in (1, 8) else 'thorough', functions=['pool_chunk_aligned'], bounds=f'{n} workers, lengths to 2^40', **k))
    for elem in (0, 1, 8, 16):
        qs.append(Q(f'split-{elem}', entry='q_split', defs={'MAP': 1, 'N': 1, 'ELEM': elem}, unwind=2, replace=mp, solver='kissat', tier='quick' if elem in (0, 8) else 'thorough', functions=['pool_split_by_mem'], bounds='lengths to 2^40, groups to 2^34', **k))
    rr = ('backoff_spin', 'heap_mmap', 'heap_unmap', 'mutex_lock', 'mutex_unlock', 'cond_wait', 'cond_signal', 'cond_broadcast', 'heap_borrow', 'heap_merge', 'rc_sync_set', 'vector', 'ins_obj', 'clone_obj', 'drop_obj')
    for n in range(1, 6):
        for first in range(n + 1):
            qs.append(Q(f'round-{n}-{first}', entry='q_round', defs={'TASKS': n, 'FIRST': first}, unwind=10, replace=rr, tier='quick' if n in (2, 3, 4) and first in (0, 1, n) else 'thorough',
                        functions=['pool_prepare', 'pool_add_task', 'pool_run', 'pool_call_task_fn', 'mpmc_create', 'mpmc_push', 'mpmc_pop'], bounds=f'{n} tasks, {first} of them carried out by the second worker; queues of 2 cells that grow', **k))
    return qs
