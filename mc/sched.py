"""Controlled scheduler: runs real threads one at a time and switches exactly where a schedule says.

Scheduling points are the line (or bytecode) events of all code below REPO.  A schedule is [first, [step, target], ...]:
thread <first> starts, and when the <step>-th point overall is reached, thread <target> goes on instead.  When a thread
ends, the lowest-numbered one that is still alive goes on (not counted as a preemption).
"""

from __future__ import annotations

import os
import sys
import threading

from mc.core import REPO, Violation

PREFIX = os.path.realpath(REPO) + os.sep
POLL = 0.002
STALL = 2  # a thread that sleeps without reaching a point in this many polls counts as blocked, another one goes on
DEADLOCK = 30.0


def asleep(tid) -> bool:
    """Whether one of this process's own threads is waiting (and not computing)."""
    try:
        with open(f"/proc/self/task/{tid}/stat", "rb") as handle:
            return handle.read().rpartition(b")")[2].split()[0] in (b"S", b"D")
    except (OSError, IndexError):
        return True


class Scheduler:
    def __init__(self, programs, schedule, mode):
        self.programs = programs
        self.switches = {step: target for step, target in schedule[1:]}
        self.opcodes = mode == "opcode"
        self.num = len(programs)
        self.gates = [threading.Semaphore(0) for _ in programs]
        self.current = schedule[0]
        self.alive = set(range(self.num))
        self.steps = 0
        self.ended = [None] * self.num  # number of points when the thread ended
        self.results = [None] * self.num
        self.done = threading.Event()
        self.names = {}
        self.where = [0] * self.num  # code position of each thread
        self.states = set()
        self.stalls = 0
        self.mutex = threading.Lock()

    def run(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.num)]
        for thr in threads:
            thr.start()
        self.gates[self.current].release()
        seen, quiet, idle = -1, 0, 0
        while not self.done.wait(POLL):
            with self.mutex:
                if self.steps != seen:
                    seen, quiet, idle = self.steps, 0, 0
                    continue
                if not asleep(threads[self.current].native_id):
                    quiet = 0
                    continue
                quiet, idle = quiet + 1, idle + 1
                if idle * POLL > DEADLOCK:
                    raise Violation(f"threads {sorted(self.alive)} are blocked for good after {self.steps} steps")
                # The running thread waits for something only another thread can provide.
                others = sorted(self.alive - {self.current})
                if others and quiet >= STALL:
                    quiet = 0
                    self.stalls += 1
                    later = [i for i in others if i > self.current]
                    self.current = (later or others)[0]
                    self.gates[self.current].release()
        return self.results

    def _body(self, me):
        self._wait(me)
        sys.settrace(self._tracer(me))
        try:
            self.results[me] = ("ok", self.programs[me]())
        except BaseException as exc:  # pylint: disable=broad-except
            self.results[me] = ("exc", f"{type(exc).__name__}: {str(exc)[:200]}")
        finally:
            sys.settrace(None)
            with self.mutex:
                self.alive.discard(me)
                self.ended[me] = self.steps
                if not self.alive:
                    self.done.set()
                elif self.current == me:
                    self.current = min(self.alive)
                    self.gates[self.current].release()

    def _wait(self, me):
        while True:
            self.gates[me].acquire()
            if self.current == me:
                return

    def _tracer(self, me):
        names = self.names

        def local(frame, event, _arg):
            if event == "line" or event == "opcode":
                self._point(me)
                code = frame.f_code
                self.where[me] = hash((code.co_name, code.co_firstlineno, frame.f_lasti))
                self.states.add(hash(tuple(self.where)))
            return local

        def start(frame, _event, _arg):
            name = frame.f_code.co_filename
            known = names.get(name)
            if known is None:
                known = names[name] = os.path.realpath(name).startswith(PREFIX)
            if not known:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return start

    def _point(self, me):
        if self.current != me:
            self._wait(me)
        self.steps += 1
        target = self.switches.get(self.steps)
        if target is not None and target != me and target in self.alive:
            with self.mutex:
                self.current = target
                self.gates[target].release()
            self._wait(me)
