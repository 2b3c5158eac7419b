"""
Controlled scheduler for threads

Two threads run calls of rf, but only one of them at a time.  A preemption is
possible before each line of the code of rf (sys.settrace).  A schedule is a
list of numbers of lines: thread 0 runs k0 lines, then thread 1 runs k1 lines,
then thread 0 k2 lines and so on; after the last entry the threads run to their
end, beginning with the thread which is next.  A thread waiting for a lock held
by the other one is detected by a timeout and the other one continues.
"""
import os
import sys
import threading


def lines(func, root):
    """Run func and return list of (file, line, nth) it passes in root"""
    seen = []

    def local(frame, event, arg):
        if event == 'line':
            seen.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None

    def run():
        sys.settrace(glob)
        try:
            func()
        finally:
            sys.settrace(None)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return seen


def points(seen, nth):
    """Numbers of lines before which the thread is preempted"""
    count = {}
    for k, pos in enumerate(seen):
        count[pos] = count.get(pos, 0) + 1
        if nth is None or count[pos] <= nth:
            yield k


class Scheduler(object):
    blocked = 5.    # seconds until a thread is assumed to wait for the other

    def __init__(self, funcs, schedule, root):
        self.funcs = funcs
        self.todo = list(schedule)
        self.root = os.path.join(root, '')
        self.cond = threading.Condition()
        self.turn = 0
        self.left = self.todo.pop(0) if self.todo else None
        self.done = [False] * len(funcs)
        self.results = [None] * len(funcs)
        self.preemptions = 0
        self.steps = [0] * len(funcs)

    def switch(self, me):
        """Hand over to the next thread, called with condition held"""
        n = len(self.funcs)
        for d in range(1, n + 1):
            other = (me + d) % n
            if not self.done[other]:
                break
        if other != me:
            self.turn = other
        self.left = self.todo.pop(0) if self.todo else None
        self.cond.notify_all()

    def wait(self, me):
        while self.turn != me:
            # only needed if rf uses locks: the running thread is stuck
            before = list(self.steps)
            if not self.cond.wait(self.blocked) and before == self.steps:
                if self.turn != me and not self.done[me]:
                    self.turn = me
                    self.left = None

    def step(self, me):
        with self.cond:
            if self.turn != me:
                self.wait(me)
            if self.left == 0:
                self.switch(me)
                if self.turn != me:
                    self.preemptions += 1
                    self.wait(me)
            if self.left:
                self.left -= 1
            self.steps[me] += 1

    def thread(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.step(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                return local
        with self.cond:
            self.wait(me)
        sys.settrace(glob)
        try:
            try:
                res = 'ok', self.funcs[me]()
            except Exception as ex:
                res = 'error', repr(ex)
        finally:
            sys.settrace(None)
        with self.cond:
            self.results[me] = res
            self.done[me] = True
            if self.turn == me:
                self.switch(me)

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True)
              for i in range(len(self.funcs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.results
