"""Classification of external functions by effect."""
import re


def norm(path):
    """drop generic arguments from a path"""
    out, d = [], 0
    i = 0
    while i < len(path):
        c = path[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::')


LOCK = re.compile(r'(^|::)(Mutex|RwLock|ReentrantLock|FairMutex)(::|$).*(lock|read|write)$')
ONCE = re.compile(r'(^|::)(OnceLock|Once|LazyLock|OnceCell)(::).*(get_or_init|call_once|call_once_force|wait|force|get_or_try_init)$')


def blocking(callee):
    """reason why calling this external function may wait, or None"""
    p = norm(callee.path)
    n = callee.name
    k = callee.krate
    if n in ('lock', 'read', 'write') and k in ('std', 'parking_lot', 'lock_api', 'spin') and ('Mutex' in p or 'RwLock' in p or 'ReentrantLock' in p):
        return 'acquires a lock'
    if 'OnceLock' in p and n in ('get_or_init', 'get_or_try_init', 'wait') or 'sync::Once' in p and n in ('call_once', 'call_once_force', 'wait') or 'LazyLock' in p:
        return 'waits for a one-time initialisation'
    if 'Condvar' in p and n.startswith('wait') or 'Barrier' in p and n == 'wait':
        return 'waits on a condition variable or barrier'
    if k == 'crossbeam_channel' or 'crossbeam' in k:
        if n in ('recv', 'recv_timeout', 'recv_deadline', 'select', 'select_timeout', 'select_deadline', 'ready', 'ready_timeout'):
            return 'waits for a channel message'
        if n in ('send', 'send_timeout', 'send_deadline'):
            return 'waits for channel capacity'
        if n == 'iter' and 'Receiver' in p:
            return 'iterates over a channel, waiting for messages'
        if n == 'next' and 'try' not in p.lower():
            return 'waits for a channel message'
        if n == 'into_iter' and 'Receiver' in p:
            return 'iterates over a channel, waiting for messages'
    if k == 'std' and 'sync::mpsc' in p and n in ('recv', 'recv_timeout', 'recv_deadline', 'iter'):
        return 'waits for a channel message'
    if k == 'std' and 'SyncSender' in p and n == 'send':
        return 'waits for channel capacity'
    if k == 'std' and 'thread' in p:
        if n in ('sleep', 'sleep_ms', 'sleep_until', 'park', 'park_timeout'):
            return 'sleeps'
        if n in ('spawn', 'spawn_scoped', 'scope', 'spawn_unchecked'):
            return 'spawns a thread'
        if n == 'join' and 'JoinHandle' in p:
            return 'waits for a thread'
        if n == 'yield_now':
            return 'yields the thread'
    if n in ('block_on', 'block_on_stream', 'block_in_place') :
        return 'waits for a future'
    if k in ('std',) and (p.startswith('std::io::') or '::io::' in p) and (n in ('_print', '_eprint', 'read', 'read_exact', 'read_to_end', 'read_to_string', 'write', 'write_all', 'write_fmt', 'flush', 'seek', 'stdin', 'stdout', 'stderr', 'read_line')):
        if 'Cursor' in p:
            return None
        return 'performs console or file I/O'
    if k == 'std' and (p.startswith('std::fs::') or 'std::net::' in p or 'std::process::' in p):
        return 'performs file, network or process I/O'
    return None


def callee_key(callee):
    """stable name of an external callee: Type::name or path tail"""
    p = norm(callee.path)
    parts = [x for x in p.split('::') if x and not x.startswith('{')]
    return '::'.join(parts[-2:])
