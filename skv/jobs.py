"""Runs units of work in forked children (deterministic state, time and memory limits)."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback


class Died:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'Died({self.why})'


def _child(fn, unit, w, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    sys.setrecursionlimit(6000)
    try:
        r = ('ok', fn(unit))
    except BaseException as e:
        r = ('err', f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:])
    try:
        data = pickle.dumps(r)
    except Exception as e:
        data = pickle.dumps(('err', f'pickle: {e}'))
    with os.fdopen(w, 'wb') as f:
        f.write(data)
    os._exit(0)


def run(units, fn, nproc=None, timeout=150, mem=6 << 30, deadline=None):
    """fn(unit) for every unit, in forked children; results in order (Died on failure)."""
    nproc = nproc or min(8, os.cpu_count() or 1)
    out = [None] * len(units)
    todo = list(range(len(units)))[::-1]
    retried = {}
    live = {}          # fd -> (index, pid, start, chunks)
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            if deadline is not None and time.time() > deadline:
                out[i] = Died('out of time')
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(fn, units[i], w, mem)
            os.close(w)
            live[r] = (i, pid, time.time(), [])
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            i, pid, t0, chunks = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                chunks.append(b)
                continue
            os.close(fd)
            del live[fd]
            _, status = os.waitpid(pid, 0)
            try:
                k, v = pickle.loads(b''.join(chunks))
                out[i] = v if k == 'ok' else Died(v)
            except Exception as e:
                out[i] = Died(f'no result ({type(e).__name__}, {status})')
                if retried.get(i, 0) < 3:
                    # the child was ended by a signal (a crash of the solver, or memory): again
                    retried[i] = retried.get(i, 0) + 1
                    todo.insert(0, i) if retried[i] > 1 else todo.append(i)
        now = time.time()
        for fd in list(live):
            i, pid, t0, chunks = live[fd]
            if now - t0 > timeout or (deadline is not None and now > deadline):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                out[i] = Died('time limit')
    return out
