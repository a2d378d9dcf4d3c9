"""fork-based parallel map: children inherit the solver terms, results come back pickled over a pipe.
A semaphore shared by all processes of a check bounds how many solve at the same time."""
import multiprocessing
import os
import pickle
import signal
import select
import sys
import time

NPROC = int(os.environ.get('VP_JOBS') or os.cpu_count() or 4)
SEM = multiprocessing.get_context('fork').BoundedSemaphore(NPROC)


class Slot:
    def __enter__(self):
        SEM.acquire()

    def __exit__(self, *a):
        SEM.release()


def pmap(tasks, deadline):
    """run the closures; returns their results in order (None: not finished before the deadline / died)"""
    results = [None] * len(tasks)
    running = {}
    todo = list(range(len(tasks)))
    while todo or running:
        while todo and len(running) < NPROC:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with Slot():
                        res = tasks[i]()
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                except BaseException as e:
                    sys.stderr.write('worker: %r\n' % (e,))
                    sys.stderr.flush()
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, b'')
        left = max(0.0, deadline - time.time())
        rd, _, _ = select.select(list(running), [], [], min(left, 1.0) + 0.01)
        for fd in rd:
            i, pid, buf = running[fd]
            d = os.read(fd, 1 << 16)
            if d:
                running[fd] = (i, pid, buf + d)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            try:
                results[i] = pickle.loads(buf)
            except Exception:
                results[i] = None
        if time.time() > deadline + 5:
            for fd, (i, pid, buf) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                # a killed child may hold a slot
                try:
                    SEM.release()
                except ValueError:
                    pass
            break
    return results
