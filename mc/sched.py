"""A controlled scheduler for threads that run the code under test.

Real threads run the real code one at a time.  Monitoring events stop a thread at
every executed line (or every bytecode) of the library; only there, and exactly as
the schedule says, is the next thread let run.  A schedule is

    [start, [[k, t], ...]]      thread ``start`` begins; at the k-th point reached
                                in the whole run, thread t is let run instead

When a thread ends, the unfinished thread with the lowest number goes on.  A thread
that blocks (on a lock that another thread holds) is noticed by its sleeping state and
another one is let run; if nobody can run, that is reported as a deadlock.
"""
import gc
import os
import sys
import threading
import time
import types

from .common import REPO, Bad

PKG = os.path.join(os.path.abspath(REPO), "atlas_doc_parser") + os.sep


class Deadlock(Exception):
    pass


_current = None                          # the run the monitoring events belong to
_tool = None


def _event(code, where):
    s = _current
    if s is not None:
        t = s.idents.get(threading.get_ident())
        if t is not None:
            s.point(t, code, where)


def library_code():
    """Every code object of the library that has been loaded."""
    out, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(PKG):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c not in out:
            out.add(c)
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    return out


def instrument(opcodes):
    """Report every executed line (or bytecode) of the library, from now on, in this process."""
    global _tool
    m = sys.monitoring
    if _tool is None:
        _tool = 4
        m.use_tool_id(_tool, "verif")
    ev = m.events.INSTRUCTION if opcodes else m.events.LINE
    m.register_callback(_tool, ev, _event)
    n = 0
    for c in library_code():
        m.set_local_events(_tool, c, ev)
        n += 1
    if n < 50:
        raise RuntimeError("only %d functions of the library found" % n)
    return n


class Sched:
    """imports: use a trace function, also at the start and end of modules; otherwise
    ``instrument`` has to have been called."""

    def __init__(self, programs, schedule, imports=False, limit=20.0, record=False):
        self.programs, self.imports, self.limit = programs, imports, limit
        self.keys = [[] for _ in programs] if record else None
        self.idents = {}
        self.start, self.switches = schedule[0], {k: t for k, t in schedule[1]}
        n = len(programs)
        self.n = 0                       # points reached so far
        self.per = [0] * n               # points reached by each thread
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.cur = self.start
        self.done = [False] * n
        self.waiting = [True] * n        # stands at a point, waiting for its turn
        self.results = [None] * n
        self.native = [None] * n
        self.lock = threading.Lock()     # protects the hand-over
        self.over = threading.Event()
        self.switched = 0
        self.blocked = 0

    # ---- called in the running threads
    def point(self, t, code=None, where=None):
        if self.keys is not None:
            self.keys[t].append((code.co_filename, code.co_qualname, where))
        if self.cur != t:                # it had been blocked and has just woken up
            self._wait(t)
        self.n += 1
        self.per[t] += 1
        target = self.switches.get(self.n)
        if target is not None and target != t and not self.done[target]:
            with self.lock:
                self.switched += 1
                self._to(target)
            self._wait(t)

    def _to(self, target):
        self.cur = target
        if self.waiting[target]:
            self.waiting[target] = False
            self.turn[target].release()

    def _wait(self, t):
        with self.lock:
            if self.cur == t:
                return
            self.waiting[t] = True
        self.turn[t].acquire()

    def _end(self, t):
        with self.lock:
            self.done[t] = True
            if self.cur == t:
                for u in range(len(self.done)):
                    if not self.done[u]:
                        self._to(u)
                        break
            if all(self.done):
                self.over.set()

    def _trace(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.point(t, frame.f_code, frame.f_lineno)
            return local

        def module(frame, event, arg):
            if event == "return":
                self.point(t, frame.f_code, -1)
            return module

        def glob(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(PKG):
                return None
            if code.co_name == "<module>":
                self.point(t, code, 0)
                frame.f_trace_lines = False
                return module
            return local
        return glob

    def _thread(self, t):
        self.native[t] = threading.get_native_id()
        self.turn[t].acquire()
        try:
            if self.imports:
                sys.settrace(self._trace(t))
            else:
                self.idents[threading.get_ident()] = t
            try:
                self.results[t] = self.programs[t]()
            finally:
                if self.imports:
                    sys.settrace(None)
                else:
                    del self.idents[threading.get_ident()]
        except BaseException as e:
            self.results[t] = ["thread failed", type(e).__name__, str(e)]
        finally:
            self._end(t)

    # ---- called in the main thread
    def run(self):
        threads = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(len(self.programs))]
        for th in threads:
            th.start()
        with self.lock:
            self._to(self.start)
        last, asleep, since = -1, 0, time.monotonic()
        while not self.over.wait(0.004):
            if self.n != last:
                last, asleep, since = self.n, 0, time.monotonic()
                continue
            cur = self.cur
            asleep = asleep + 1 if self._sleeping(cur) and not self.waiting[cur] else 0
            if asleep >= 4:
                with self.lock:
                    if self.n == last and self.cur == cur and not self.done[cur]:
                        for u in range(len(self.done)):
                            if u != cur and not self.done[u] and self.waiting[u]:
                                self.blocked += 1
                                self._to(u)
                                break
                        else:
                            # the others are blocked or finished: wait until one wakes up
                            for u in range(len(self.done)):
                                if u != cur and not self.done[u]:
                                    self.cur = u
                                    break
                asleep = 0
            if time.monotonic() - since > self.limit:
                raise Deadlock("no thread made progress for %d s; finished: %s" % (self.limit, self.done))
        for th in threads:
            th.join(self.limit)
        return self.results

    def _sleeping(self, t):
        try:
            with open("/proc/self/task/%d/stat" % self.native[t]) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except (OSError, IndexError, TypeError):
            return False


def run(programs, schedule, **k):
    """Run the programs under the schedule; (results, scheduler)."""
    global _current
    s = Sched(programs, schedule, **k)
    _current = s
    try:
        return s.run(), s
    except Deadlock as e:
        raise Bad("schedule %s: %s" % (schedule, e))
