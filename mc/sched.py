"""A deterministic scheduler for Python threads: line-level interleavings of tasks, and a joblib backend that uses it."""
import pickle
import sys
import threading

from . import ext

PART = "/pystruct/"


class Stop(BaseException):
    pass


class Task(object):
    def __init__(self, f):
        self.f, self.go, self.budget, self.lines = f, threading.Semaphore(0), 0, 0
        self.result = self.error = None
        self.finished = False


class Scheduler(object):
    """run(tasks, segments): segments = [(task, lines or None)]; what is left afterwards runs in order."""
    def run(self, fs, segments):
        self.tasks = [Task(f) for f in fs]
        self.back = threading.Semaphore(0)
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,))
            t.thread.daemon = True
            t.thread.start()
        self.switches = 0
        plan = list(segments) + [(i, None) for i in range(len(fs))]
        for i, n in plan:
            t = self.tasks[i]
            if t.finished or n == 0:
                continue
            t.budget = n
            t.go.release()
            self.back.acquire()
            self.switches += 1
        for t in self.tasks:
            t.thread.join()
            if t.error is not None:
                raise t.error
        return [t.result for t in self.tasks]

    def _body(self, t):
        t.go.acquire()
        root = ext.REPO + PART

        def local(frame, event, arg):
            if event == "line":
                t.lines += 1
                if t.budget is not None:
                    if t.budget == 0:
                        self.back.release()
                        t.go.acquire()
                    if t.budget is not None:
                        t.budget -= 1
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        try:
            sys.settrace(glob)
            t.result = t.f()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.finished = True
            self.back.release()


class Plan(object):
    """How the tasks of every joblib.Parallel call are executed."""
    def __init__(self, order=None, preempt=None, copies=False):
        self.order, self.preempt, self.copies = order, preempt, copies
        self.calls, self.most, self.lines = 0, 0, 0


def backend(plan):
    from joblib._parallel_backends import ParallelBackendBase

    class Future(object):
        pass

    class Controlled(ParallelBackendBase):
        supports_retrieve_callback = False

        def __init__(self, *a, **k):
            ParallelBackendBase.__init__(self, **{q: v for q, v in k.items() if q in ("nesting_level",)})
            self.pending = []

        def effective_n_jobs(self, n_jobs):
            return 1 if n_jobs == 1 else 1000

        def submit(self, func, callback=None):
            f = Future()
            f.func, f.callback, f.done = func, callback, False
            self.pending.append(f)
            return f

        apply_async = submit

        def retrieve_result(self, out, timeout=None):
            if not out.done:
                todo, self.pending = self.pending, []
                execute(plan, todo)
                for f in todo:
                    if f.callback is not None:
                        f.callback(f)
            if out.error is not None:
                raise out.error
            return out.result

        def get_nested_backend(self):
            from joblib._parallel_backends import SequentialBackend
            return SequentialBackend(nesting_level=1), None

        def abort_everything(self, ensure_ready=True):
            self.pending = []
    return Controlled


def execute(plan, todo):
    n = len(todo)
    plan.calls += 1
    plan.most = max(plan.most, n)
    order = list(range(n))
    if plan.order is not None:
        order.sort(key=lambda i: plan.order[i % len(plan.order)] + len(plan.order) * (i // len(plan.order)))
    if plan.copies:
        blobs = [pickle.dumps(f.func) for f in todo]       # what worker processes receive
        for i in order:
            todo[i].func = pickle.loads(blobs[i])
    if plan.preempt is None:
        for i in order:
            _one(todo[i])
    else:
        s = Scheduler()
        seg = [(order[k % n], lines) for k, lines in enumerate(plan.preempt)] + [(i, None) for i in order[::-1]]
        s.run([lambda f=f: _one(f) for f in todo], seg)
        plan.lines = max([plan.lines] + [t.lines for t in s.tasks])


def _one(f):
    f.result = f.error = None
    try:
        f.result = f.func()
    except BaseException as e:
        f.error = e
    f.done = True


def parallel(plan):
    import joblib
    joblib.register_parallel_backend("verif", backend(plan))
    return joblib.parallel_backend("verif")
