"""A controlled scheduler for Python threads: stateless exploration of all schedules with a bounded number of preemptions.

Exactly one thread runs at any time. Scheduling points are the lines (or bytecode instructions) of the package under test, seen by
sys.settrace. A schedule is the list of points at which the running thread is preempted: [k1, k2, ...] means that the first thread
runs for k1 points, the next one for k2 points, the next one (round robin over the unfinished ones) for k3 ..., and the rest runs
to the end without preemption."""
from . import env
import sys
import threading


class Scheduler:
    def __init__(self, bodies, order, preemptions, opcodes=False):
        self.bodies, self.order, self.opcodes = bodies, list(order), opcodes
        self.plan = list(preemptions)
        self.baton = [threading.Semaphore(0) for _ in bodies]
        self.finished = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.errors = [None] * len(bodies)
        self.points = [0] * len(bodies)      # points passed by each thread
        self.budget = 1 << 62
        self.used = 0                        # preemptions that took place
        self.done = threading.Event()

    # -- choosing the next thread
    def _next(self, current):
        n = len(self.order)
        start = self.order.index(current)
        for i in range(1, n + 1):
            t = self.order[(start + i) % n]
            if not self.finished[t]:
                return t
        return None

    def _grant(self, t):
        self.budget = self.plan.pop(0) if self.plan else 1 << 62
        self.baton[t].release()

    def _point(self, t):
        self.points[t] += 1
        self.budget -= 1
        if self.budget <= 0:
            n = self._next(t)
            if n is None or n == t:
                self.budget = 1 << 62
                return
            self.used += 1
            self._grant(n)
            self.baton[t].acquire()

    def _tracer(self, t):
        prefix = env.PKG
        point = self._point
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line'):
                point(t)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return glob

    def _run(self, t):
        self.baton[t].acquire()
        sys.settrace(self._tracer(t))
        try:
            self.results[t] = self.bodies[t]()
        except BaseException as e:  # noqa
            self.errors[t] = e
        finally:
            sys.settrace(None)
            self.finished[t] = True
            n = self._next(t)
            if n is None:
                self.done.set()
            else:
                self._grant(n)

    def run(self):
        threads = [threading.Thread(target=self._run, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for th in threads:
            th.start()
        self._grant(self.order[0])
        if not self.done.wait(60):
            raise RuntimeError('deadlock: the threads did not finish')
        for th in threads:
            th.join()
        return self
