"""Recorder shared by all property modules: counts what the monitors saw and
collects violations, each named by a *mechanism* (never by a random value)."""
import hashlib
import os
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """Raised by an oracle to end a case with a verdict."""

    def __init__(self, mechanism, message, data=None):
        Exception.__init__(self, mechanism, message)
        self.mechanism, self.message, self.data = mechanism, message, data


class CaseTimeout(BaseException):
    """The CPU guard of one case went off (not a verdict by itself)."""


class StepLimit(BaseException):
    """A case exceeded the logical step limit (interpreter line events)."""


class Recorder:
    MAX_FAILS = 40

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.fails = []
        self.fail_total = 0
        self.case = None
        self.inconclusive = []

    # -- what was observed
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, value):
        name = 'max:' + name
        if value > self.counts.get(name, -1):
            self.counts[name] = value

    def nontrivial(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8).hexdigest())

    def sample(self, value):
        if len(self.samples) < 3:
            text = value if isinstance(value, str) else repr(value)
            self.samples.append({'case': self.case, 'input': text[:1500]})

    # -- verdicts
    def fail(self, mechanism, message, data=None):
        self.fail_total += 1
        mechs = [f['mechanism'] for f in self.fails]
        if len(self.fails) < self.MAX_FAILS and mechs.count(mechanism) < 5:
            self.fails.append({
                'mechanism': mechanism,
                'message': str(message)[:4000],
                'data': None if data is None else str(data)[:8000],
                'case': self.case,
            })

    def check(self, ok, mechanism, message, data=None):
        """Oracle that records and lets the case continue."""
        if not ok:
            self.fail(mechanism, message() if callable(message) else message, data)
        return ok

    def require(self, ok, mechanism, message, data=None):
        """Oracle that ends the case."""
        if not ok:
            raise Violation(mechanism, message() if callable(message) else message, data)


def exception_site(exc):
    """(type, function in /repo closest to the raise) -- stable naming."""
    site = None
    for frame, _line in traceback.walk_tb(exc.__traceback__):
        filename = frame.f_code.co_filename
        if filename.startswith(REPO + '/') or 'vrml_accelerate' in filename or filename.endswith('.pyx'):
            site = os.path.basename(filename) + ':' + frame.f_code.co_name
    return type(exc).__name__, site or 'outside-repo'
