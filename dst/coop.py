"""Cooperative deterministic scheduling: tasks are threads, exactly one of which
runs at any time; control changes hands only at yield points, as decided by a
seeded scheduler (or by a recorded list of decisions)."""
import random
import threading


class TaskKilled(BaseException):
    pass


class Scheduler:
    """choose(n) -> index among n runnable tasks, called at each yield."""

    def __init__(self, seed, p_switch=1.):
        self.r = random.Random(seed)
        self.p = p_switch
        self.tasks = []
        self.current = None
        self.done = threading.Event()
        self.switches = 0
        self.trace = []
        self.failed = None

    def add(self, f, name=None):
        t = Task(self, f, len(self.tasks))
        self.tasks.append(t)
        return t

    def runnable(self):
        return [t for t in self.tasks if not t.finished]

    def pick(self):
        rr = self.runnable()
        if not rr:
            return None
        return rr[self.r.randrange(len(rr))]

    def run(self):
        """Run all tasks to completion.  Returns the list of tasks."""
        for t in self.tasks:
            t.thread.start()
        first = self.pick()
        if first is not None:
            self.current = first
            first.go.release()
            self.done.wait()
        for t in self.tasks:
            t.thread.join()
        if self.failed is not None:
            raise self.failed
        return self.tasks

    def point(self):
        """Yield point: possibly hands control to another task."""
        me = self.current
        if me is None or threading.current_thread() is not me.thread:
            return
        if len(self.tasks) == 1 or self.r.random() >= self.p:
            return
        nxt = self.pick()
        if nxt is not me:
            self.switches += 1
            self.trace.append(nxt.index)
            self.current = nxt
            nxt.go.release()
            me.go.acquire()

    def finish(self, me):
        me.finished = True
        nxt = self.pick()
        self.current = nxt
        if nxt is None:
            self.done.set()
        else:
            self.trace.append(nxt.index)
            nxt.go.release()


class Task:
    def __init__(self, sched, f, index):
        self.sched, self.f, self.index = sched, f, index
        self.go = threading.Semaphore(0)
        self.finished = False
        self.result = self.exc = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        try:
            self.result = self.f()
        except BaseException as e:
            self.exc = e
        finally:
            self.sched.finish(self)
