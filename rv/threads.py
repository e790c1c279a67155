"""A baton for threads: of the threads of one case a single one runs at a time, and it hands the baton to another at
points of /repo/fca code that a seeded plan picks, so that interleavings are chosen, varied and repeatable."""
import sys
import threading
import time

import core

TOOL = 3
PATIENCE = .25                    # the baton's holder is taken to be blocked after this long without a step
_on = None


def _event(code, where):
    if not code.co_filename.startswith(core.FCA_DIR):
        return sys.monitoring.DISABLE
    b = _on
    if b is not None:
        t = b.ids.get(threading.get_ident())
        if t is not None:
            b.point(t, code, where)


def install():
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'baton')
        mon.register_callback(TOOL, mon.events.LINE, _event)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _event)


class Baton:
    """run(bodies) -> results of the bodies; plan: 'often'/'seldom'/... or a set of steps at which to switch"""

    def __init__(self, rng, fine=False, rate=None, steps=()):
        self.rng, self.fine, self.rate, self.at = rng, fine, rate, frozenset(steps)
        self.ids, self.alive, self.turn = {}, set(), None
        self.cond = threading.Condition()
        self.events = self.switches = self.takeovers = 0
        self.trace = []

    def point(self, t, code, where):
        if self.turn != t:
            self.wait(t)
        self.events += 1
        if self.rate is not None and self.rng.random() < self.rate or self.events in self.at:
            others = sorted(self.alive - {t})
            if others:
                self.switches += 1
                self.trace.append((t, code.co_name, where))
                with self.cond:
                    self.turn = self.rng.choice(others)
                    self.cond.notify_all()
                self.wait(t)

    def wait(self, t):
        with self.cond:
            while self.turn != t:
                seen = self.events, self.turn
                if not self.cond.wait(PATIENCE) and (self.events, self.turn) == seen:
                    # its holder waits for something one of the others has: let them all have a go
                    self.takeovers += 1
                    self.turn = t

    def run(self, bodies):
        global _on
        n = len(bodies)
        out = [None] * n

        def main(t):
            self.ids[threading.get_ident()] = t
            self.wait(t)
            try:
                out[t] = bodies[t]()
            except BaseException as e:        # the bodies catch what they expect
                out[t] = e
            with self.cond:
                del self.ids[threading.get_ident()]
                self.alive.discard(t)
                if self.turn == t and self.alive:
                    self.turn = self.rng.choice(sorted(self.alive))
                self.cond.notify_all()
        self.alive = set(range(n))
        self.turn = None
        ts = [threading.Thread(target=main, args=(t,), daemon=True) for t in range(n)]
        mon = sys.monitoring
        install()
        _on = self
        mon.set_events(TOOL, mon.events.INSTRUCTION if self.fine else mon.events.LINE)
        try:
            for t in ts:
                t.start()
            with self.cond:
                self.turn = self.rng.randrange(n)
                self.cond.notify_all()
            end = time.time() + 600
            for t in ts:
                t.join(max(0, end - time.time()))
        finally:
            mon.set_events(TOOL, 0)
            _on = None
        if any(t.is_alive() for t in ts):
            raise core.Violation('the threads wait for each other without end', where=self.trace[-6:])
        return out
