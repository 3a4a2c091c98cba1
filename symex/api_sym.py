"""The interface harnesses are written against: symbolic implementation."""
import z3
from fractions import Fraction
from .engine import (eng, Engine, Unsupported, Abort, EngineSignal, realval,
                     num_value, frac_of)
from .values import (Sym, SymBool, SymInt, SymReal, SymNum, mkbool, b2z, is_sym,
                     to_real, is_number)
from .symstr import SymStr, SymChar, mk, lift, DIGITS
from . import shadow, fmt

LOOSE = realval(Fraction(1, 10 ** 6))


class SX(object):
    symbolic = True

    def __init__(self, params):
        self.p = params

    # -- inputs ---------------------------------------------------------------
    def real(self, name, lo=None, hi=None, grid=None, strict=False):
        """arbitrary real in [lo, hi] (open interval when strict); `grid`:
        a multiple of that decimal step"""
        en = eng()
        if grid is not None:
            k = z3.Int(name + '!k')
            e = z3.simplify(z3.ToReal(k) * realval(frac_of(grid)))
            en.inputs.append((name, 'real', e))
        else:
            e = z3.Real(name)
            en.inputs.append((name, 'real', e))
        if lo is not None:
            en.assume(e > to_real(lo) if strict else e >= to_real(lo))
        if hi is not None:
            en.assume(e < to_real(hi) if strict else e <= to_real(hi))
        return SymReal(e)

    def int(self, name, lo, hi):
        en = eng()
        e = z3.Int(name)
        en.inputs.append((name, 'int', e))
        en.assume(z3.And(e >= lo, e <= hi))
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        eng().inputs.append((name, 'bool', e))
        return SymBool(e)

    def choice(self, name, options):
        """one of the options; every one is explored"""
        en = eng()
        options = list(options)
        e = z3.Int(name + '!c')
        pos = len(en.inputs)
        en.assume(z3.And(e >= 0, e < len(options)))
        i = 0
        for i in range(len(options) - 1):
            if en.branch(e == i):
                break
        else:
            i = len(options) - 1
        en.inputs.append((name, 'choice', i))
        return options[i]

    def digits(self, name, n):
        return self.text(name, n, DIGITS)

    def text(self, name, n, alphabet):
        """arbitrary string of exactly n characters over the alphabet"""
        en = eng()
        alphabet = frozenset(alphabet)
        els, codes = [], []
        for i in range(n):
            c = z3.Int('%s[%d]' % (name, i))
            ch = SymChar(c, alphabet)
            en.assume(ch.cond(alphabet))
            if alphabet <= DIGITS:
                en.digit_vars[c.get_id()] = c
            els.append(ch)
            codes.append(c)
        en.inputs.append((name, 'chars', codes))
        return mk(els)

    def decimal(self, name, i, d):
        """arbitrary non-negative decimal number with i integer and d
        fractional digits"""
        return self.pos_value(self.digits(name, i + d), d)

    def angle(self, name, lo=-360, hi=360):
        """arbitrary angle in degrees (with its exact sine and cosine)"""
        en = eng()
        e = z3.Real(name)
        en.assume(z3.And(e >= lo, e <= hi))
        c, s = [to_real(v) for v in self.cossin_deg(SymReal(e))]
        k = int(lo // 90)
        while 90 * k <= hi:
            ex = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
            en.add(z3.Implies(e == 90 * k, z3.And(c == ex[0], s == ex[1])))
            nx = [(1, 0), (0, 1), (-1, 0), (0, -1)][(k + 1) % 4]
            sc, ss = ex[0] + nx[0], ex[1] + nx[1]
            en.add(z3.Implies(z3.And(e > 90 * k, e < 90 * k + 90),
                              z3.And(c * sc > 0, s * ss > 0)))
            k += 1
        en.inputs.append((name, 'angle', (e, c, s)))
        return SymReal(e)

    def unit(self, name):
        """arbitrary point (x, y) of the unit circle"""
        en = eng()
        c, s = z3.Real(name + '!x'), z3.Real(name + '!y')
        en.assume(z3.And(c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1))
        en.inputs.append((name, 'angle', (realval(0), c, s)))
        return SymReal(c), SymReal(s)

    def atan2(self, y, x):
        return shadow.MATH.atan2(y, x)

    # -- logic -----------------------------------------------------------------
    def And(self, *bs):
        zs = [b2z(b) for b in bs]
        if any(z is False for z in zs):
            return False
        zs = [z for z in zs if z is not True]
        return mkbool(z3.And(*zs)) if zs else True

    def Or(self, *bs):
        zs = [b2z(b) for b in bs]
        if any(z is True for z in zs):
            return True
        zs = [z for z in zs if z is not False]
        return mkbool(z3.Or(*zs)) if zs else False

    def Not(self, b):
        z = b2z(b)
        return (not z) if isinstance(z, bool) else mkbool(z3.Not(z))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        z = b2z(c)
        if z is True:
            return a
        if z is False:
            return b
        return SymReal(z3.If(z, to_real(a), to_real(b)))

    def assume(self, c):
        z = b2z(c)
        eng().assume(z)

    def check(self, c, label):
        eng().prove(b2z(c), label)

    def fail(self, label):
        eng().prove(False, label)

    def _eq(self, a, b, tol):
        """(exact, loose) conditions for a == b, recursively."""
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                return False, False
            if not is_number(a) or not is_number(b):
                return False, False
            x, y = to_real(a), to_real(b)
            if x.eq(y):
                return True, True
            t = LOOSE if tol is None else to_real(tol)
            d = x - y
            if tol is not None:
                c = z3.And(d <= t, d >= -t)
                return c, c
            return x == y, z3.And(d <= t, d >= -t)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if not isinstance(a, str) or not isinstance(b, str):
                return False, False
            c = lift(a).eq_cond(lift(b))
            return c, c
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            r = b2z(a == b)
            return r, r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False, False
            ex, lo = [], []
            for x, y in zip(a, b):
                e, l = self._eq(x, y, tol)
                if l is False:
                    return False, False
                if e is not True:
                    ex.append(e)
                if l is not True:
                    lo.append(l)
            if any(e is False for e in ex):
                exact = False
            else:
                exact = z3.And(*ex) if ex else True
            return exact, (z3.And(*lo) if lo else True)
        if isinstance(a, dict) and isinstance(b, dict):
            ka, kb = sorted(a), sorted(b)
            if ka != kb:
                return False, False
            return self._eq([a[k] for k in ka], [b[k] for k in kb], tol)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not \
                (isinstance(a, bool) != isinstance(b, bool)):
            t = float(tol) if tol is not None else 1e-9
            return (abs(a - b) <= t * max(1, abs(a), abs(b)),) * 2
        r = a == b
        r = bool(r)
        return r, r

    def same(self, a, b, label, tol=None):
        """property: a and b are equal (numbers up to float noise)"""
        ex, lo = self._eq(a, b, tol)
        if lo is False:
            ex = False
        eng().prove(ex, label, None if ex is lo else lo)

    def is_same(self, a, b):
        """condition: a equals b exactly (no check)"""
        return mkbool(self._eq(a, b, None)[0])

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    # -- environment -----------------------------------------------------------
    def option(self, **k):
        eng().opts.update(k)

    def path(self, name):
        return '/sxfs/' + name

    def put_file(self, name, text):
        eng().vfs['/sxfs/' + name] = text
        return '/sxfs/' + name

    def get_file(self, name):
        return eng().vfs['/sxfs/' + name]

    def sqrt(self, x):
        return shadow.MATH.sqrt(x)

    def cossin_deg(self, x):
        return shadow.cos_sin(shadow.MATH.radians(x))

    def cossin(self, x):
        return shadow.cos_sin(x)

    def pos_value(self, s, point=None):
        """reference: decimal value of a string of digits, `point` digits after
        the decimal point"""
        from .symstr import _digits_value
        f = lift(s).hard()
        if not f:
            return 0
        t = _digits_value(f, 'float')
        return SymReal(z3.ToReal(t) / realval(10 ** (point or 0)))

    def floor(self, x):
        return x.floor() if isinstance(x, SymReal) else shadow.MATH.floor(x)

    def pin(self, x):
        """concrete value of x on this path (forks)"""
        if isinstance(x, SymStr):
            return x.concrete()
        if isinstance(x, SymInt):
            return x._pin()
        return x

    def length(self, s):
        return len(lift(s).hard())

    def chars(self, s):
        return [mk((e,)) for e in lift(s).hard()]

    def char_in(self, c, alphabet):
        e = lift(c).hard()[0]
        return SymStr._el_in(e, frozenset(alphabet))
