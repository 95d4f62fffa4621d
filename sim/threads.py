"""Threads of one process under a schedule: one runs at a time, and changes happen only where the schedule says, before lines of
chosen source files.  A schedule is a list of [number of lines to run, which thread is next]; when it ends, nothing changes any more
except when a thread ends.  An exception can be made to appear at a given line of a given thread."""
import gc
import os
import sys
import threading
from types import CodeType, FunctionType


class Stuck(Exception):
    pass


class Threads:
    def __init__(self, prefixes, schedule, fault=None, patience=60, meeting=False):
        # with a meeting, each thread calls meet() once, and the schedule starts when all living ones have
        self.prefixes = tuple(prefixes)
        self.schedule = [list(x) for x in schedule]
        self.fault = fault            # [thread, line number counted in that thread]
        self.patience = patience
        self.trace = []               # where the switches happened
        self.started, self.met = not meeting, set()

    def codes(self):
        """The code of all functions of the chosen files, those within functions included; not that of modules."""
        found = set()

        def add(code):
            if code not in found and code.co_filename.startswith(self.prefixes):
                found.add(code)
                for c in code.co_consts:
                    if isinstance(c, CodeType):
                        add(c)
        for o in gc.get_objects():
            if isinstance(o, FunctionType):
                add(o.__code__)
        return found

    def run(self, fns):
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.results = [None] * n
        self.lines = [0] * n
        self.fired = None
        self.who = {}
        self.done = threading.Semaphore(0)
        self.at = 0
        self.left = self.schedule[0][0] if self.schedule else -1
        ts = [threading.Thread(target=self._main, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        mon = sys.monitoring
        mon.use_tool_id(mon.DEBUGGER_ID, 'vsim')
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, self._line)
        codes = self.codes()
        for c in codes:
            mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.LINE)
        for t in ts:
            t.start()
        self.go[0].release()
        if not self.done.acquire(timeout=self.patience):
            raise Stuck(f'threads {self.alive} of {n} do not end; last changes {self.trace[-3:]}')
        for c in codes:
            mon.set_local_events(mon.DEBUGGER_ID, c, 0)
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.DEBUGGER_ID)
        return self.results

    def _main(self, k, fn):
        self.go[k].acquire()
        self.who[threading.get_ident()] = k
        try:
            self.results[k] = fn()
        finally:
            del self.who[threading.get_ident()]
            self.alive.remove(k)
            if self.alive:
                self.go[self._coming() if not self.started else self.alive[k % len(self.alive)]].release()
            else:
                self.done.release()

    def _coming(self):
        """A thread which is not at the meeting yet; if there is none, it starts."""
        for k in self.alive:
            if k not in self.met:
                return k
        self.started = True
        return self.alive[0]

    def meet(self):
        k = self.who[threading.get_ident()]
        self.met.add(k)
        if self.started:
            return
        nxt = self._coming()
        if nxt != k:
            self.go[nxt].release()
            self.go[k].acquire()

    def _line(self, code, line):
        k = self.who.get(threading.get_ident())
        if k is not None:
            self._tick(k, code, line)

    def _tick(self, k, code, line):
        self.lines[k] += 1
        # not while another exception is dealt with
        if self.fault is not None and self.fired is None and self.fault[0] == k and self.lines[k] >= self.fault[1] and sys.exc_info()[0] is None:
            self.fired = f'{os.path.basename(code.co_filename)}:{line}'
            raise MemoryError('injected')
        if self.left < 0 or not self.started:
            return
        self.left -= 1
        if self.left > 0:
            return
        which = self.schedule[self.at][1]
        self.at += 1
        self.left = max(1, self.schedule[self.at][0]) if self.at < len(self.schedule) else -1
        if len(self.alive) == 1:
            return
        nxt = self.alive[which % len(self.alive)]
        if nxt != k:
            self.trace.append(f'{k}>{nxt} {os.path.basename(code.co_filename)}:{line}')
            self.go[nxt].release()
            self.go[k].acquire()


class AtLine:
    """Within: a MemoryError appears before the n-th executed line of the chosen files, in this thread."""

    def __init__(self, prefixes, n):
        self.t = Threads(prefixes, [], [0, n])

    def __enter__(self):
        t = self.t
        t.who, t.lines, t.left, t.fired = {threading.get_ident(): 0}, [0], -1, None
        mon = sys.monitoring
        mon.use_tool_id(mon.DEBUGGER_ID, 'vsim')
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, t._line)
        self.codes = t.codes()
        for c in self.codes:
            mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.LINE)
        return t

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(mon.DEBUGGER_ID, c, 0)
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.DEBUGGER_ID)
