"""Stand-in for multiprocessing.Pool with an adversarial schedule: the order in
which the tasks are executed (and completed) is a choice of the exploration."""
import itertools
import multiprocessing

from . import sx

_n = itertools.count()


def free():
    """a free choice"""
    return bool(sx.Bool(sx.z3.Bool('sched%d' % next(_n))))


def permutation(n):
    """an order of 0..n-1 chosen by free Booleans (all of them are explored)"""
    rest, out = list(range(n)), []
    while rest:
        k = 0
        while k < len(rest) - 1 and free():
            k += 1
        out.append(rest.pop(k))
    return out


class Async(object):
    def __init__(self, f):
        self.f = f

    def get(self, timeout=None):
        return self.f()

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True
    successful = ready


class FakePool(object):
    schedule = staticmethod(permutation)

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass
    join = terminate = close

    def _all(self, calls):
        out = {}
        for i in self.schedule(len(calls)):
            f, a, k = calls[i]
            out[i] = f(*a, **k)
        return out          # in completion order

    def map(self, f, args, chunksize=None):
        args = list(args)
        out = self._all([(f, (a,), {}) for a in args])
        return [out[i] for i in range(len(args))]

    def starmap(self, f, args, chunksize=None):
        args = list(args)
        out = self._all([(f, tuple(a), {}) for a in args])
        return [out[i] for i in range(len(args))]

    def imap(self, f, args, chunksize=None):
        return iter(self.map(f, args))

    def imap_unordered(self, f, args, chunksize=None):
        return iter(list(self._all([(f, (a,), {}) for a in list(args)]).values()))

    def map_async(self, f, args, chunksize=None, callback=None, error_callback=None):
        r = self.map(f, args)
        if callback:
            callback(r)
        return Async(lambda: r)

    def starmap_async(self, f, args, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(f, args)
        if callback:
            callback(r)
        return Async(lambda: r)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = f(*args, **kwds)
        if callback:
            callback(r)
        return Async(lambda: r)


class Future(object):
    """result of a task of an executor; run when asked for (its order is a choice)"""

    def __init__(self, f, a, k):
        self.call, self.callbacks = (f, a, k), []

    def _run(self):
        if self.call:
            f, a, k = self.call
            self.call = None
            try:
                self.value, self.error = f(*a, **k), None
            except Exception as e:
                self.value, self.error = None, e
            for c in self.callbacks:
                c(self)

    def result(self, timeout=None):
        self._run()
        if self.error is not None:
            raise self.error
        return self.value

    def exception(self, timeout=None):
        self._run()
        return self.error

    def done(self):
        return not self.call

    def running(self):
        return False

    cancelled = running

    def cancel(self):
        return False

    def add_done_callback(self, c):
        self.callbacks.append(c)
        if self.done():
            c(self)


class FakeExecutor(FakePool):
    """stand-in for the executors of concurrent.futures"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        FakePool.__init__(self, max_workers, initializer, initargs)

    def map(self, f, *its, **k):
        calls = [(f, a, {}) for a in zip(*its)]
        out = self._all(calls)
        return iter([out[i] for i in range(len(calls))])

    def submit(self, f, *a, **k):
        return Future(f, a, k)

    def shutdown(self, wait=True, **k):
        pass


class patched(object):
    """the pools and executors replaced, in the modules that define them and in the module that uses them"""

    def __init__(self, schedule=permutation):
        kw = dict(schedule=staticmethod(schedule))
        pool, ex = type('Pool', (FakePool,), kw), type('Executor', (FakeExecutor,), kw)

        def as_completed(fs, timeout=None):
            fs = list(fs)
            return iter([fs[i] for i in schedule(len(fs))])

        class Context(object):
            Pool = pool

            def __getattr__(self, name):
                return getattr(multiprocessing, name)
        self.new = dict(Pool=pool, ThreadPool=pool, ProcessPoolExecutor=ex, ThreadPoolExecutor=ex, as_completed=as_completed,
                        get_context=lambda method=None: Context())

    def __enter__(self):
        import concurrent.futures
        import multiprocessing.dummy
        import multiprocessing.pool
        import sys
        import sympkf.model
        mm = sys.modules[sympkf.model.Model.__module__]
        where = [multiprocessing, multiprocessing.pool, multiprocessing.dummy, concurrent.futures, mm]
        self.saved = []
        for o in where:
            for n in self.new:
                if hasattr(o, n) and not (n == 'Pool' and o is multiprocessing.pool):
                    self.saved.append((o, n, getattr(o, n)))
        for o, n, _ in self.saved:
            setattr(o, n, self.new[n])
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)
