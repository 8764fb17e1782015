"""Monitor: records events, evaluates oracles, collects violations for one case."""
import copy
import json
import signal
import traceback

import numpy as np


class StopCase(Exception):
    """Raised inside a case once a violation makes the rest of it meaningless."""


class HarnessTimeout(BaseException):
    pass


class Monitor:
    def __init__(self, case):
        self.case = case
        self.events = {}
        self.keys = set()
        self.violations = []
        self.samples = []

    # ------------------------------------------------------------------ bookkeeping
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def key(self, *parts):
        """Signature of a distinct non-trivial situation that an oracle evaluated."""
        self.keys.add('|'.join(str(p) for p in parts))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v) for k, v in kw.items()})

    def violate(self, msg, **detail):
        self.violations.append({'msg': msg, 'detail': {k: short(v) for k, v in detail.items()}})

    # ------------------------------------------------------------------ oracles
    def check(self, ok, msg, kind='oracle', stop=False, **detail):
        self.event(kind)
        if not bool(ok):
            self.violate(msg, **detail)
            if stop:
                raise StopCase()
        return bool(ok)

    def close(self, got, want, msg, tol=1e-8, kind='oracle', stop=False, **detail):
        """Numerical agreement (shape, finiteness, max-abs difference)."""
        self.event(kind)
        try:
            g = np.asarray(got, dtype=complex)
            w = np.asarray(want, dtype=complex)
            if g.shape != w.shape:
                err = 'shape %s instead of %s' % (g.shape, w.shape)
            else:
                d = float(np.max(np.abs(g - w))) if g.size else 0.0
                err = None if d <= tol else 'deviation %.3g > %.1g' % (d, tol)   # NaN -> violation
        except (TypeError, ValueError) as e:
            err = 'not numeric: %s' % e
        if err:
            self.violate('%s: %s' % (msg, err), got=got, want=want, **detail)
            if stop:
                raise StopCase()
            return False
        return True

    def call(self, what, fn, *a, **k):
        """Call the code under test on an in-domain input: an exception is a violation."""
        self.event('calls')
        try:
            return fn(*a, **k)
        except (StopCase, HarnessTimeout, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc().splitlines()[-6:]
            self.violate('%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]), traceback=tb)
            raise StopCase()

    def call_terminates(self, what, limit, fn, *a, **k):
        """Like call, but running longer than `limit` seconds (orders of magnitude above normal) is a violation."""
        class Slow(BaseException):
            pass

        def handler(signum, frame):
            raise Slow()
        old = signal.signal(signal.SIGALRM, handler)
        left = signal.alarm(limit)
        try:
            try:
                return self.call(what, fn, *a, **k)
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
                if left:
                    signal.alarm(left)
        except StopCase:
            if self.violations and 'raised Slow' in self.violations[-1]['msg']:
                self.violations[-1]['msg'] = '%s does not terminate (%d s)' % (what, limit)
            raise

    def rejects(self, what, fn, *a, **k):
        """Call with an invalid input: must raise an ordinary exception."""
        self.event('rejections')
        try:
            r = fn(*a, **k)
        except (HarnessTimeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception:
            return True
        self.violate('%s was accepted' % what, result=short(r))
        return False


def short(v, lim=600):
    """JSON-able abbreviated form."""
    if isinstance(v, (bool, int, float, str, type(None))):
        return v if not isinstance(v, str) else v[:lim]
    if isinstance(v, np.generic):
        return short(v.item())
    if isinstance(v, complex):
        return str(v)
    if isinstance(v, np.ndarray):
        return np.array2string(np.asarray(v), precision=6, threshold=40)[:lim]
    if isinstance(v, dict):
        return {str(k): short(x) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple)):
        return [short(x) for x in v[:40]]
    return repr(v)[:lim]


def snap(x):
    """Deep value snapshot of nested lists / arrays / numbers for purity monitors."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oarr', x.shape, tuple(snap(v) for v in x.ravel()))
        return ('arr', x.shape, str(x.dtype), np.asarray(x).tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snap(v)) for k, v in x.items()))
    if hasattr(x, 'wires') and hasattr(x, 'matrix'):
        return ('op', x.name if isinstance(x.name, str) else tuple(x.name), tuple(x.wires.tolist()), np.asarray(x.matrix).tobytes())
    return x
