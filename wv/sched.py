"""Controlled thread interleavings: one thread runs at a time; at traced lines (or bytecodes) of the code under test,
and wherever the harness asks, a seeded choice may hand control to another thread.

A thread blocked on a real lock does not stop the run: a watchdog lets another thread go on as well."""
import hashlib
import os
import sys
import threading
import time

from wv.core import BlockWatch, REPO

_repo_file = {}


def in_repo(filename):
    r = _repo_file.get(filename)
    if r is None:
        r = _repo_file[filename] = os.path.realpath(filename).startswith(REPO)
    return r


class Sched:
    stalled_before = 0          # over all runs of this process: code that holds locks stalls often, and waits get short

    def __init__(self, rng, p, opcodes=False, max_switches=4000):
        self.rng, self.p, self.opcodes, self.max_switches = rng, p, opcodes, max_switches
        self.switches = []
        self.points = 0
        self.stalls = 0
        self.index = threading.local()

    def point(self):
        """A possible switch, called by the thread that is running."""
        i = getattr(self.index, 'i', None)
        if i is None:
            return
        self.points += 1
        if len(self.switches) >= self.max_switches or self.rng.random() >= self.p:
            return
        others = [j for j in self.live if j != i]
        if not others:
            return
        j = self.rng.choice(others)
        self.switches.append((i, j, self.points))
        self.waiting.add(i)
        self.sems[j].release()
        self.sems[i].acquire()
        self.waiting.discard(i)

    def _trace(self, frame, event, arg):
        if event == 'call':
            if not in_repo(frame.f_code.co_filename):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._trace
        if event == 'opcode' or event == 'line':
            self.point()
        return self._trace

    def _thread(self, i, fn):
        self.index.i = i
        self.sems[i].acquire()
        self.waiting.discard(i)
        try:
            sys.settrace(self._trace)
            try:
                self.results[i] = ('ok', fn())
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            self.results[i] = ('error', e)
        self.live.remove(i)
        self.switches.append((i, 'end', self.points))
        if self.live:
            self.sems[self.rng.choice(sorted(self.live))].release()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.waiting = set(range(n))
        self.results = [None] * n
        threads = [threading.Thread(target=self._thread, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        self.sems[self.rng.randrange(n)].release()
        last, since = -1, time.monotonic()
        watch, looked = BlockWatch(8), time.monotonic()
        for t in threads:
            while True:
                t.join(.02 if Sched.stalled_before < 20 else .004)
                if not t.is_alive():
                    break
                if self.points != last:
                    last, since = self.points, time.monotonic()
                elif time.monotonic() - since > (.15 if Sched.stalled_before < 20 else .015) and self.waiting:
                    self.stalls += 1
                    Sched.stalled_before += 1
                    limit = 10 if Sched.stalled_before < 20 else 4
                    if self.stalls > limit:
                        self.p = 0
                    for j in (list(self.waiting) if self.stalls > limit else list(self.waiting)[:1]):
                        self.sems[j].release()
                    since = time.monotonic()
                if time.monotonic() - looked > 2:
                    looked = time.monotonic()
                    frames = sys._current_frames()
                    alive = [(t.native_id, frames[t.ident]) for t in threads if t.is_alive() and t.ident in frames]
                    # with nobody held back by the scheduler, all that live wait for each other
                    if watch.tick(alive) and not self.waiting:
                        return None
        return self.results

    def signature(self):
        return hashlib.blake2b(repr(self.switches).encode(), digest_size=8).hexdigest()
