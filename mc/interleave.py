"""Runs operations in threads of their own and decides where they are preempted.

A schedule is a list of (thread, stop): thread runs until it is about to execute the line
event number `stop` of the library (None: to its end); then the next entry's thread goes on.
Threads left over at the end of the schedule run to their ends, in order.
"""
import sys
import threading

PATIENCE = 1.0          # seconds a thread may make no progress before it counts as blocked


def in_library(code):
    return "/celest/" in code.co_filename


def events(fn):
    """[(file, line, caller's line)] of every library line fn executes, in order."""
    seen = []

    def trace(frame, kind, arg):
        if not in_library(frame.f_code):
            return None
        if kind == "line":
            back = frame.f_back
            seen.append((frame.f_code.co_filename, frame.f_lineno,
                         back.f_lineno if back is not None else 0))
        return trace

    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(None)
    return seen


def first_occurrences(seen, repeat=1):
    """Ordinals of the events at which something is executed for the first times."""
    count, found = {}, []
    for k, event in enumerate(seen):
        count[event] = count.get(event, 0) + 1
        if count[event] <= repeat:
            found.append(k)
    return found


class _Runner:
    def __init__(self, fn):
        self.fn = fn
        self.result = self.error = None
        self.done = False
        self.stop = None
        self.at = 0
        self.free = False
        self.go = threading.Semaphore(0)
        self.paused = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.go.acquire()
        if not self.free:
            sys.settrace(self._trace)
        try:
            self.result = self.fn()
        except BaseException as error:     # handed to whoever explores
            self.error = error
        finally:
            sys.settrace(None)
            self.done = True
            self.paused.release()

    def _trace(self, frame, kind, arg):
        if self.free or not in_library(frame.f_code):
            return None
        if kind == "line":
            while self.at == self.stop:
                self.paused.release()
                self.go.acquire()
                if self.free:
                    sys.settrace(None)
                    return None
            self.at += 1
        return self._trace

    def advance(self, stop):
        """Runs on until event `stop`; False when it is blocked by another thread."""
        self.stop, self.free = stop, stop is None
        self.go.release()
        return self.paused.acquire(timeout=PATIENCE)


def run(fns, schedule):
    """Results of the fns under the schedule, and the number of context switches made."""
    runners = [_Runner(fn) for fn in fns]
    for runner in runners:
        runner.thread.start()
    blocked, switches = [], 0
    for number, stop in list(schedule) + [(k, None) for k in range(len(fns))]:
        runner = runners[number]
        if runner.done or runner in blocked:
            continue
        switches += 1
        if not runner.advance(stop):
            blocked.append(runner)
    for runner in blocked:
        runner.thread.join(60)
    for runner in runners:
        if not runner.done:
            raise RuntimeError("the threads of %s wait for each other" % (schedule,))
        runner.thread.join()
        if runner.error is not None:
            raise runner.error
    return [runner.result for runner in runners], switches
