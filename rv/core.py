"""Observation machinery: the event recorder, the logical-step monitor, violations.

Runs inside a worker process; nothing here looks at how /repo's code is written."""
import hashlib
import sys
import traceback

REPO = '/repo'
FCA_DIR = REPO + '/fca/'
DEFAULT_STEPS = 120_000_000      # loop jumps inside /repo/fca allowed for one case


class Violation(Exception):
    """The observed execution refutes the property."""
    def __init__(self, what, mechanism=None, **witness):
        super().__init__(what)
        self.what, self.mechanism, self.witness = what, mechanism, witness


class StepBudget(BaseException):
    """Raised inside the monitored code when it has used up its logical steps."""


class Steps:
    """Counts loop jumps executed in /repo/fca code and records the lines reached.

    A logical clock: unlike a wall-clock limit it does not depend on machine load."""
    def __init__(self):
        self.count = 0
        self.budget = DEFAULT_STEPS
        self.max_seen = 0
        self.max_share = 0.0                     # of the budget, in one case
        self.lines = set()
        self.active = False

    def install(self):
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'rv')
        ev = mon.events
        mon.register_callback(self.tool, ev.JUMP, self._jump)
        mon.register_callback(self.tool, ev.LINE, self._line)
        mon.set_events(self.tool, ev.JUMP | ev.LINE)
        self.active = True

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(FCA_DIR):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.count > self.budget:
            raise StepBudget()

    def _line(self, code, line):
        if code.co_filename.startswith(FCA_DIR):
            self.lines.add((code.co_filename[len(FCA_DIR):], line))
        return sys.monitoring.DISABLE

    def reset(self, budget=DEFAULT_STEPS):
        self.close_case()
        self.count = 0
        self.budget = budget

    def close_case(self):
        if self.count > self.max_seen:
            self.max_seen = self.count
        self.max_share = max(self.max_share, self.count / self.budget)


STEPS = Steps()


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:                    # a broken __repr__ must not hide the witness
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Obs:
    """Recorder and oracle front end of one case."""
    LOG_LIMIT = 400

    def __init__(self, tier, tmp):
        self.tier, self.tmp = tier, tmp
        self.apis = {}
        self.checks = 0
        self.states = set()
        self.log = []
        self.dropped = 0
        self.sample = None
        self.tags = {}

    # events ---------------------------------------------------------------
    def event(self, *e):
        if len(self.log) < self.LOG_LIMIT:
            self.log.append([len(self.log)] + [x if isinstance(x, str) else short(x) for x in e])
        else:
            self.dropped += 1

    def call(self, api, fn, *a, **k):
        """Call an API that must answer; record call and return."""
        self.apis[api] = self.apis.get(api, 0) + 1
        self.event('call', api, a, k)
        try:
            r = fn(*a, **k)
        except StepBudget:
            raise Violation('%s gave no answer within %d loop steps' % (api, STEPS.budget), args=short(a))
        except Violation:
            raise
        except RecursionError as e:
            raise Violation('%s recursed without end' % api, args=short(a))
        except (MemoryError, OSError) as e:
            if isinstance(e, MemoryError) or getattr(e, 'errno', None) in (28, 24, 12):
                raise
            raise self._unexpected(api, a, e)
        except Exception as e:
            raise self._unexpected(api, a, e)
        self.event('return', api, r)
        return r

    def _unexpected(self, api, a, e):
        tb = traceback.format_exc(limit=-4)
        return Violation('%s raised %s: %s on an input it must accept'
                         % (api, type(e).__name__, str(e)[:200]), args=short(a), traceback=tb)

    def refuse(self, api, excs, fn, *a, **k):
        """Call an API that must refuse with one of *excs*; returns the exception."""
        self.apis[api] = self.apis.get(api, 0) + 1
        self.event('call!', api, a, k)
        try:
            r = fn(*a, **k)
        except StepBudget:
            raise Violation('%s gave no answer within %d loop steps' % (api, STEPS.budget), args=short(a))
        except excs as e:
            self.checks += 1
            self.event('refused', api, type(e).__name__)
            return e
        except Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:
            raise Violation('%s should refuse with %s but raised %s: %s'
                            % (api, excs, type(e).__name__, str(e)[:200]), args=short(a),
                            traceback=traceback.format_exc(limit=-4))
        raise Violation('%s accepted an input it must refuse' % api, args=short(a), result=short(r))

    # oracle -----------------------------------------------------------------
    def check(self, cond, what, **w):
        self.checks += 1
        if not cond:
            raise Violation(what, **{k: (v if k == 'mechanism' else short(v, 1500)) for k, v in w.items()})

    def eq(self, got, want, what, **w):
        self.checks += 1
        try:
            same = bool(got == want)
        except Exception as e:
            raise Violation(what + ' (not comparable: %s)' % e, got=short(got), want=short(want))
        if not same:
            raise Violation(what, got=short(got, 1500), want=short(want, 1500),
                            **{k: short(v, 1500) for k, v in w.items()})

    # coverage ---------------------------------------------------------------
    def state(self, *key):
        """A distinct, non-trivial thing that was judged."""
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode('utf-8', 'replace'),
                                                       digest_size=6).digest(), 'big'))

    def budget(self, n):
        """loop steps the rest of this case may take (for inputs whose size is known)"""
        STEPS.reset(n)

    def tag(self, name):
        self.tags[name] = self.tags.get(name, 0) + 1
