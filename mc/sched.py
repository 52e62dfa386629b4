"""Two calls on real threads under a controlled scheduler.

Every line of the code under test is a scheduling point.  Exactly one thread runs at a time; a schedule says after how
many points each thread hands over, so a schedule is replayed deterministically.
"""
import os
import sys
import threading

from .core import REPO, Violation

ROOT = os.path.join(os.path.realpath(os.path.join(REPO, "src", "valor_lite")), "")


_MINE = {}


class Thread:
    def __init__(self, sched, idx, fn):
        self.sched, self.idx, self.fn = sched, idx, fn
        self.go = threading.Semaphore(0)
        self.points, self.quota = 0, None
        self.done, self.result, self.error = False, None, None
        self.log = [] if sched.log else None
        self.t = threading.Thread(target=self.main, daemon=True)

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        mine = _MINE.get(f)
        if mine is None:
            mine = _MINE[f] = os.path.realpath(f).startswith(ROOT)
        if not mine:
            return None
        self.point(frame, event)
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point(frame, event)
        return self.local

    def point(self, frame, event):
        self.points += 1
        if self.log is not None:
            self.log.append((frame.f_code.co_filename, frame.f_lineno, event))
        if self.quota is not None and self.points == self.quota:
            self.sched.handover(self)
            self.go.acquire()
            if self.sched.stop:
                raise SystemExit

    def main(self):
        self.go.acquire()
        if self.sched.stop:
            return
        sys.settrace(self.trace)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.handover(self)


class Scheduler:
    tick = 2  # seconds without progress after which a thread is taken to be blocked; less once that has happened

    def __init__(self, fns, quotas=(), log=False):
        """quotas: [(thread, total points after which it hands over), ...] in the order in which they run."""
        self.log, self.stop = log, False
        self.end = threading.Semaphore(0)
        self.threads = [Thread(self, i, f) for i, f in enumerate(fns)]
        self.segments = list(quotas)

    def next(self):
        """start the next segment; without segments, run the unfinished threads to their end in order."""
        while self.segments:
            i, q = self.segments.pop(0)
            t = self.threads[i]
            if not t.done:
                t.quota = q
                t.go.release()
                return
        for t in self.threads:
            if not t.done:
                t.quota = None
                t.go.release()
                return
        self.end.release()

    def handover(self, _):
        self.next()

    def run(self):
        for t in self.threads:
            t.t.start()
        self.next()
        try:
            seen = None
            while not self.end.acquire(timeout=Scheduler.tick):
                # no progress: the running thread waits for something another one holds, so let that one go on
                now = [t.points for t in self.threads]
                if now == seen:
                    Scheduler.tick = 0.05
                    self.segments = []
                    for t in self.threads:
                        if not t.done:
                            t.quota = None
                            t.go.release()
                seen = now
        except BaseException:
            self.stop = True
            for t in self.threads:
                t.go.release()
            raise
        for t in self.threads:
            t.t.join(5)
            if isinstance(t.error, Violation):
                raise t.error
        return [(t.result, t.error) for t in self.threads]


def points_of(fn):
    """the scheduling points of one call run alone: [(file, line, event)]."""
    s = Scheduler([fn], log=True)
    (res, err), = s.run()
    if err is not None:
        raise err
    return s.threads[0].log, res


def distinct(points, occurrences=1, calls_only=False):
    """indices (1-based) of the first occurrences of each program point."""
    seen, out = {}, []
    for i, p in enumerate(points, 1):
        if calls_only and p[2] != "call":
            continue
        k = p[:2]
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= occurrences:
            out.append(i)
    return out
