"""The harness interface on ordinary values: used to replay solver models
against the unmodified code (runs under the project's own interpreter)."""
import math
import os


class AssumptionFailed(BaseException):
    pass


def snap(v):
    for t in (0.0, 0.5, -0.5, 1.0, -1.0):
        if abs(v - t) < 1e-12:
            return t
    return v


class CX(object):
    symbolic = False
    TOL = 1e-8

    def __init__(self, params, values, tmpdir):
        self.p, self.v, self.tmp = params, values, tmpdir
        self.failed = []
        self.checked = 0
        self.labels = {}

    def real(self, name, lo=None, hi=None, grid=None, strict=False):
        x = float(self.v[name])
        if grid is not None:
            x = float(repr(round(x / grid))) * grid
            x = float('%.12g' % x)
        if lo is not None:
            self.assume(x >= lo - 1e-12 * max(1, abs(lo)) if not strict else x > lo)
        if hi is not None:
            self.assume(x <= hi + 1e-12 * max(1, abs(hi)) if not strict else x < hi)
        return x

    def int(self, name, lo, hi):
        return int(self.v[name])

    def bool(self, name):
        return bool(self.v[name])

    def choice(self, name, options):
        return list(options)[self.v[name]]

    def digits(self, name, n):
        return self.v[name]

    def text(self, name, n, alphabet):
        return self.v[name]

    def decimal(self, name, i, d):
        return self.pos_value(self.v[name], d)

    def angle(self, name, lo=-360, hi=360):
        return float(self.v[name])

    def unit(self, name):
        return self.cossin_deg(float(self.v[name]))

    def atan2(self, y, x):
        return math.atan2(y, x)

    def And(self, *bs): return all(bs)
    def Or(self, *bs): return any(bs)
    def Not(self, b): return not b
    def Implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b): return a if c else b

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, c, label):
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            self.failed.append(label)

    def fail(self, label):
        self.check(False, label)

    def _eq(self, a, b, tol):
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            t = self.TOL * max(1.0, abs(a), abs(b)) if tol is None else float(tol) * (1 + 1e-6) + 1e-12
            return abs(a - b) <= t
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._eq(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return sorted(a) == sorted(b) and all(self._eq(a[k], b[k], tol) for k in a)
        return a == b

    def same(self, a, b, label, tol=None):
        ok = self._eq(a, b, tol)
        self.check(ok, label)
        if not ok:
            self.failed[-1] = label
            self.detail = '%r != %r' % (a, b)

    def is_same(self, a, b):
        return self._eq(a, b, None)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def option(self, **k):
        pass

    def path(self, name):
        return os.path.join(self.tmp, name)

    def put_file(self, name, text):
        p = os.path.join(self.tmp, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as f:
            f.write(text)
        return p

    def get_file(self, name):
        with open(os.path.join(self.tmp, name), newline='') as f:
            return f.read()

    def sqrt(self, x):
        return math.sqrt(x)

    def cossin_deg(self, x):
        x = math.radians(x)
        return snap(math.cos(x)), snap(math.sin(x))

    def cossin(self, x):
        return snap(math.cos(x)), snap(math.sin(x))

    def pos_value(self, s, point=None):
        from fractions import Fraction
        if not s:
            return 0
        return float(Fraction(int(s), 10 ** (point or 0)))

    def floor(self, x):
        return math.floor(x)

    def pin(self, x):
        return x

    def length(self, s):
        return len(s)

    def chars(self, s):
        return list(s)

    def char_in(self, c, alphabet):
        return c in alphabet
