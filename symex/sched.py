"""Runs two callables in two threads under a given schedule.

A switch point is a line of the package under test about to be executed (``fine``) or one of its functions about to be
entered (``coarse``).  Only one thread runs at any time, so everything else (the solver, the harness) is sequential."""
import os
import sys
import threading

ROOT = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "atlas_doc_parser") + os.sep
threading.stack_size(128 << 20)


class Kill(BaseException):
    pass


_in = {}


def inside(code):
    r = _in.get(code)
    if r is None:
        r = _in[code] = os.path.realpath(code.co_filename).startswith(ROOT) and not code.co_name.startswith("<")
    return r


class Side:
    """one thread, paused at its ``at``-th switch point (None: never)"""

    def __init__(self, fn, at, fine):
        self.fn, self.at, self.fine = fn, at, fine
        self.n = 0
        self.was = self.frame = None
        self.passed = None                       # the switch points, when they are recorded
        self.value = self.exc = None
        self.go = threading.Semaphore(0)         # may run
        self.report = threading.Semaphore(0)     # paused or ended
        self.ended = False
        self.halt = False                        # pause at the next point, wherever
        self.kill = False
        self.thread = threading.Thread(target=self.main, daemon=True)

    def point(self, where):
        if self.kill:
            raise Kill()
        if self.passed is not None:
            self.passed.append(where)
            return
        k = self.n
        self.n += 1
        if k == self.at or self.halt:
            self.halt = False
            self.at = None
            self.report.release()
            self.go.acquire()
            if self.kill:
                raise Kill()

    def tracer(self, frame, event, arg):
        if event != "call" or not inside(frame.f_code):
            return None
        if not self.fine:
            self.point(frame.f_code)
            return None
        return self.lines

    def lines(self, frame, event, arg):
        if event == "line":
            w = (frame.f_code, frame.f_lineno)
            if self.was == w and self.frame is frame:     # still the same statement
                return self.lines
            self.was, self.frame = w, frame
            self.point(w)
        return self.lines

    def main(self):
        self.go.acquire()
        if self.at is not None or self.passed is not None:
            sys.settrace(self.tracer)
        try:
            self.value = self.fn()
        except BaseException as e:               # also what steers the symbolic execution
            self.exc = e
        finally:
            sys.settrace(None)
            self.ended = True
            self.report.release()

    def run(self):
        """lets the thread run until it pauses or ends; False when it is blocked (on a lock of the other side)"""
        self.go.release()
        if self.report.acquire(timeout=1.5):
            return True
        self.halt = True
        if self.report.acquire(timeout=0.7):
            return True
        return False

    def finish(self):
        while not self.ended:
            if not self.run():
                self.report.acquire(timeout=20)
                if not self.ended and not self.halt:
                    continue
                if not self.ended:
                    return
        self.thread.join(20)


def points(fn, fine=True):
    """the switch points worth a pause: each place the first two times and the last time it is passed"""
    s = Side(fn, None, fine)
    s.passed = []
    s.thread.start()
    s.finish()
    if s.exc is not None:
        raise s.exc
    last = {w: i for i, w in enumerate(s.passed)}
    out, seen = [], {}
    for i, w in enumerate(s.passed):
        seen[w] = seen.get(w, 0) + 1
        if seen[w] <= 2 or last[w] == i:
            out.append(i)
    return out


def both(fa, fb, ka, kb=None, fine=True):
    """the results of fa and fb: fa runs to its switch point ka, fb to its switch point kb (None: to its end), then fa to
    its end, then fb to its end"""
    a, b = Side(fa, ka, fine), Side(fb, kb, fine)
    a.thread.start()
    b.thread.start()
    try:
        a.run()
        if a.exc is None or isinstance(a.exc, Exception):
            blocked = not b.run()
            if b.exc is None or isinstance(b.exc, Exception):
                if blocked:
                    b.halt = True                # it goes on when fa has ended
                a.finish()
                if a.exc is None or isinstance(a.exc, Exception):
                    if blocked:
                        b.report.acquire(timeout=20)
                    b.finish()
    finally:
        for s in (a, b):
            if not s.ended:
                s.kill = True
                s.go.release()
                s.thread.join(20)
    for s in (a, b):
        if s.exc is not None and not isinstance(s.exc, Exception):
            raise s.exc
    for s in (a, b):
        if s.exc is not None:
            raise s.exc
    return a.value, b.value
