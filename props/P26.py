from vf.engine import Q
NOTE = ('receiving: every division into pieces of two messages and the start of a third, from every state of a partly received header or body (so, by induction, any number of pieces); the handshake of 1-3 bytes likewise; '
        'malformed headers of all 16 bytes; no memory for a message; the peer leaving at any byte.  Sending: four queued messages, the socket taking any number of bytes at each call.  All contents.')
ASSUMPTIONS = ['epoll_wait, recv and send are stand-ins; deserialising a body is property P03/P04']


def queries(tier):
    qs = []
    KEEP = ['ipc_.*', 'poll_.*', 'heap_.*', 'epoll.*', 'option_.*']
    SUB = ((r'\bevents\[1024\]', 'events[2]'), (r'ev\.data\.fd == __EVENT_FD', '0'))     # room for two events at a time; no shutdown
    rx = dict(file='h_ipc.c', subst=SUB, keep=KEEP, replace=('heap_alloc', 'heap_realloc', 'poll_deregister', 'ipc_call_usr_cb', 'timer_next_timeout', 'poll_send', 'de_raw', 'poll_buf_create', 'poll_send_buf'), cut=['ray_.*'],
              functions=['poll_run', 'poll_recv', 'ipc_read_header', 'ipc_read_msg', 'ipc_read_handshake', 'poll_rx_buf_request', 'poll_rx_buf_extend'])
    for p0 in (0, 1, 8, 15, 16, 17):
        for sh in (99, 1, 3):
            qs.append(Q(f'recv-{p0}' + (f'-by{sh}' if sh < 99 else ''), entry='q_recv', defs={'P0': p0, 'N': 1, 'SHORT': sh}, unwind=45, bounds=f'{p0} bytes there before',
                        tier='quick' if sh == 99 or p0 in (0, 15, 17) else 'thorough', **rx))
    for n in (1, 2, 3):
        qs.append(Q(f'hello-{n}', entry='q_hello', defs={'P0': 0, 'N': n}, unwind=45, bounds=f'handshake of {n + 1} bytes', **rx))
    for e in ('bad', 'room', 'gone'):
        qs.append(Q(e, entry='q_' + e, defs={'P0': 0, 'N': 1}, unwind=45, bounds='one message', **rx))
    tx = dict(file='h_ipctx.c', subst=SUB, keep=KEEP, cut=['ray_.*'])
    for l in (0, 1):
        for sh in (0, 1):
            qs.append(Q('send' + '-late' * l + '-short' * sh, entry='q_send', defs={**({'LATE': None} if l else {}), **({'SHORT': 1} if sh else {})}, unwind=12, replace=('heap_free', 'poll_deregister', 'timer_next_timeout'),
                        bounds='four messages of 2, 1, 3, 2 bytes', functions=['poll_send_buf', 'poll_send', 'poll_run'], unwindset=f'q_send.0:{140}', **tx))
    qs.append(Q('message', entry='q_msg', defs={'MSG': None}, unwind=12, replace=('heap_free', 'poll_deregister', 'timer_next_timeout', 'poll_buf_create', 'poll_send_buf', 'size_obj', 'ser_raw'), bounds='one message',
                functions=['ipc_send_msg'], **tx))
    return qs
