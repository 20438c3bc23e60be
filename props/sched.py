"""Schedules and crash points: threads of ncdiff.model run one at a time and
hand over at the lines that use shared state; which of them continues is a
symbolic choice.  A crash is an exception at an arbitrary line, after which
the files touched last are in an arbitrary state."""
import linecache
import os
import queue
import re
import sys
import threading

POINT = re.compile(r'dependencies|to_be_downloaded|_queue|add_module|open\(|'
                   r'\.write\(|os\.remove')


class Deadlock(Exception):
    pass


class Crash(BaseException):
    pass


def model_file():
    import ncdiff.model as m
    f = m.__file__
    return f[:-1] if f.endswith('.pyc') else f


class Lock(object):
    """a lock of a scheduled program"""

    def __init__(self, sched, reentrant):
        self.sched = sched
        self.real = threading.RLock() if reentrant else threading.Lock()
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if self.sched.me() is None or not blocking:
            got = self.real.acquire(blocking, timeout)
        else:
            while not self.real.acquire(False):
                self.sched.wait(lambda: self.owner is None)
            got = True
        if got:
            self.owner = threading.current_thread()
            self.n += 1
        return got

    def release(self):
        self.n -= 1
        if self.n == 0:
            self.owner = None
        self.real.release()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class Queue(queue.Queue):
    """a queue whose join() runs the scheduler"""
    sched = None

    def join(self):
        if self.sched.workers:
            self.sched.run(lambda: self.unfinished_tasks == 0)
        with self.all_tasks_done:
            if not self.all_tasks_done.wait_for(
                    lambda: self.unfinished_tasks == 0, 60):
                raise Deadlock('waits for ever')

    def get(self, block=True, timeout=None):
        if self.sched.me() is None or not block:
            return queue.Queue.get(self, block, timeout)
        try:
            return queue.Queue.get(self, False)
        except queue.Empty:
            if timeout is not None:
                # nothing else happens during the timeout, or others run
                self.sched.point()
                return queue.Queue.get(self, False)
            self.sched.wait(lambda: self.qsize() > 0)
            return queue.Queue.get(self, False)


class Sched(object):
    """preemptions None: no symbolic choice, threads run one after another"""

    def __init__(self, ctx, preemptions):
        self.ctx, self.left = ctx, preemptions
        self.workers, self.steps = [], 0
        self.cur = None
        self.file = model_file()
        self.dead = False

    # in the main thread
    def start(self, thread):
        self.workers.append(Worker(self, thread, len(self.workers)))

    def run(self, done):
        while True:
            for w in self.workers:
                if w.busy and w.back.acquire(timeout=0.01):
                    w.busy = False
            able = [w for w in self.workers if not w.ended and not w.busy and
                    (w.until is None or w.until())]
            if not able:
                busy = [w for w in self.workers if w.busy]
                if busy:
                    # blocks in something that is not scheduled
                    if not busy[0].back.acquire(timeout=30):
                        raise Deadlock('a thread blocks')
                    busy[0].busy = False
                    continue
                if not done():
                    raise Deadlock('waits for ever')
                return
            w = self.choose(able)
            w.step()
            if w.error is not None:
                e, w.error = w.error, None
                raise e

    def choose(self, able):
        self.steps += 1
        if self.left is None:
            return able[0]
        if self.cur in able:
            others = [w for w in able if w is not self.cur]
            if others and self.left > 0 and \
                    self.ctx.bool('switch%d' % self.steps):
                self.left -= 1
                self.cur = others[0] if len(others) == 1 else \
                    self.ctx.pick('to%d' % self.steps, others)
        else:
            self.cur = able[0] if len(able) == 1 else \
                self.ctx.pick('next%d' % self.steps, able)
        return self.cur

    def kill(self):
        """end all threads"""
        self.dead = True
        for w in self.workers:
            if not w.ended:
                w.go.release()
                w.thread.join(5)

    def of(self, thread):
        for w in self.workers:
            if w.worker is thread:
                return w
        return None

    # in the workers
    def me(self):
        t = threading.current_thread()
        for w in self.workers:
            if w.thread is t:
                return w
        return None

    def point(self):
        w = self.me()
        if w is not None:
            w.back.release()
            w.go.acquire()
            if self.dead:
                raise SystemExit

    def wait(self, cond):
        w = self.me()
        w.until = cond
        self.point()
        w.until = None


HOOK = None     # trace function of crashing()
START = threading.Thread.start
JOIN = threading.Thread.join
ALIVE = threading.Thread.is_alive


class Worker(object):
    def __init__(self, sched, worker, n):
        self.sched, self.worker = sched, worker
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.ended, self.until, self.error = False, None, None
        self.busy = False
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.name = 'sched%d' % n
        START(self.thread)

    def step(self):
        self.go.release()
        if not self.back.acquire(timeout=10):
            self.busy = True

    def main(self):
        self.go.acquire()
        try:
            if not self.sched.dead:
                sys.settrace(HOOK if self.sched.left is None else self.trace)
                self.worker.run()
        except SystemExit:
            pass
        except Exception as e:
            # as threading does: the thread ends
            self.failed = e
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.ended = True
            self.back.release()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.sched.file:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and POINT.search(
                linecache.getline(self.sched.file, frame.f_lineno)):
            self.sched.point()
        return self.local


def ours(thread):
    """a thread that ncdiff itself programs"""
    if type(thread).__module__.startswith('ncdiff'):
        return True
    f = getattr(thread, '_target', None)
    f = getattr(f, '__func__', f)
    f = getattr(f, 'func', f)
    return (getattr(f, '__module__', None) or '').startswith('ncdiff')


class scheduled(object):
    """with scheduled(ctx, n): threads of ncdiff.model are scheduled"""

    def __init__(self, ctx, preemptions):
        self.s = Sched(ctx, preemptions)

    def __enter__(self):
        import ncdiff.model as m
        s = self.s
        self.old = []

        class Q(Queue):
            sched = s

        class queue_module(object):
            Queue, Empty, Full = Q, queue.Empty, queue.Full

            def __getattr__(self, name):
                return getattr(queue, name)

        class threading_module(object):
            Lock = staticmethod(lambda: Lock(s, False))
            RLock = staticmethod(lambda: Lock(s, True))

            def __getattr__(self, name):
                return getattr(threading, name)

        new = [(queue, queue_module()), (queue.Queue, Q),
               (threading, threading_module()),
               (threading.Lock, threading_module.Lock),
               (threading.RLock, threading_module.RLock)]
        places = [m] + [v for v in vars(m).values() if isinstance(v, type) and
                        v.__module__ == m.__name__]
        for p in places:
            for k, v in list(vars(p).items()):
                for x, y in new:
                    if v is x:
                        self.set(p, k, y)
                if isinstance(v, type(threading.Lock())):
                    self.set(p, k, Lock(s, False))
                elif isinstance(v, type(threading.RLock())):
                    self.set(p, k, Lock(s, True))

        def start(thread):
            if ours(thread):
                s.start(thread)
            else:
                START(thread)

        def join(thread, timeout=None):
            w = s.of(thread)
            if w is None:
                JOIN(thread, timeout)
            elif s.me() is None:
                s.run(lambda: w.ended or timeout is not None)
            else:
                s.wait(lambda: w.ended)

        def is_alive(thread):
            w = s.of(thread)
            if w is None:
                return ALIVE(thread)
            if s.me() is None:
                s.run(lambda: True)
            return not w.ended

        T = threading.Thread
        self.set(T, 'start', start)
        self.set(T, 'join', join)
        self.set(T, 'is_alive', is_alive)
        return s

    def set(self, where, name, value):
        self.old.append((where, name, vars(where)[name]))
        setattr(where, name, value)

    def __exit__(self, *a):
        for w, n, v in reversed(self.old):
            setattr(w, n, v)
        self.s.kill()


def sequential():
    """threads run one after another"""
    return scheduled(None, None)


class crashing(object):
    """with crashing(ctx, folder): the code in ncdiff.model ends with Crash
    before an arbitrary line; what was written by the line before may be there
    completely, in part, or not at all"""

    def __init__(self, ctx, folder):
        self.ctx, self.folder, self.n = ctx, folder, 0
        self.file = model_file()
        self.before = None
        self.crashed = False

    def snapshot(self):
        out = {}
        for r, ds, fs in os.walk(self.folder):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as h:
                    out[p] = h.read()
        return out

    def __enter__(self):
        global HOOK
        self.old = sys.gettrace()
        HOOK = self.trace
        sys.settrace(self.trace)
        return self

    def __exit__(self, t, v, tb):
        global HOOK
        HOOK = None
        sys.settrace(self.old)
        if t is Crash:
            self.crashed = True
            self.damage()
            return True
        return False

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.file:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            sys.settrace(None)
            try:
                now = self.snapshot()
                # lines that change nothing on the disk need no crash point
                if self.before is None or now != self.last:
                    self.n += 1
                    if self.ctx.bool('crash%d' % self.n):
                        self.prev = getattr(self, 'last', now)
                        raise Crash()
                self.before = self.last = now
            finally:
                sys.settrace(self.trace)
        return self.local

    def damage(self):
        now = self.snapshot()
        for p in sorted(now):
            if self.prev.get(p) != now[p]:
                how = self.ctx.pick('state of the last file',
                                    ['complete', 'half', 'empty'])
                if how != 'complete':
                    with open(p, 'wb') as h:
                        h.write(now[p][:len(now[p]) // 2]
                                if how == 'half' else b'')
