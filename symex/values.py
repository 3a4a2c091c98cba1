"""Symbolic booleans, integers and reals with Python operator semantics."""
import z3
from fractions import Fraction
from .engine import (eng, Unsupported, realval, frac_of, num_value)

ZERO_R = z3.RealVal(0)


class Sym(object):
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (tuple, list, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def b2z(b):
    """Python bool / SymBool -> z3 Bool or python bool."""
    if isinstance(b, SymBool):
        return b.e
    return bool(b)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        o = b2z(o)
        if o is True:
            return self
        if o is False:
            return False
        return mkbool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        o = b2z(o)
        if o is True:
            return True
        if o is False:
            return self
        return mkbool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = b2z(o)
        if o is True:
            return mkbool(z3.Not(self.e))
        if o is False:
            return self
        return mkbool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return self if o else mkbool(z3.Not(self.e))
        return int(bool(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()

    def __repr__(self):
        return repr(bool(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def sym_not(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def _cmp(op):
    def f(self, o):
        a, b = _coerce(self, o)
        if a is None:
            return NotImplemented
        if a.eq(b):
            return op in ('<=', '>=', '==')
        if op == '<':
            e = a < b
        elif op == '<=':
            e = a <= b
        elif op == '>':
            e = a > b
        elif op == '>=':
            e = a >= b
        elif op == '==':
            e = a == b
        else:
            e = a != b
        return mkbool(z3.simplify(e)) if _small(e) else mkbool(e)
    return f


def _small(e):
    return True


def _coerce(x, o):
    """z3 terms of equal sort for x (symbolic number) and o, or (None, None)."""
    if isinstance(o, SymBool):
        o = o._num()
    if isinstance(o, SymInt):
        if isinstance(x, SymInt):
            return x.e, o.e
        return x.e, z3.ToReal(o.e)
    if isinstance(o, SymReal):
        if isinstance(x, SymInt):
            return z3.ToReal(x.e), o.e
        return x.e, o.e
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        if isinstance(x, SymInt):
            return x.e, z3.IntVal(o)
        return x.e, realval(o)
    if isinstance(o, Fraction):
        return x.real(), realval(o)
    if isinstance(o, float):
        if o != o or o in (float('inf'), float('-inf')):
            return None, o
        return x.real(), realval(o)
    return None, None


class SymNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # -- comparison
    def _inf(self, o, op):
        if isinstance(o, float):
            if o != o:
                return op == '!='
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big,
                    '==': False, '!=': True}[op]
        return None

    def _c(self, o, op):
        a, b = _coerce(self, o)
        if a is None:
            if b is not None:
                return self._inf(b, op)
            if op == '==':
                return False if not isinstance(o, Sym) else NotImplemented
            if op == '!=':
                return True if not isinstance(o, Sym) else NotImplemented
            return NotImplemented
        if a.eq(b):
            return op in ('<=', '>=', '==')
        e = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
             '>=': lambda: a >= b, '==': lambda: a == b,
             '!=': lambda: a != b}[op]()
        return mkbool(z3.simplify(e))

    def __lt__(self, o): return self._c(o, '<')
    def __le__(self, o): return self._c(o, '<=')
    def __gt__(self, o): return self._c(o, '>')
    def __ge__(self, o): return self._c(o, '>=')
    def __eq__(self, o): return self._c(o, '==')
    def __ne__(self, o): return self._c(o, '!=')

    def __bool__(self):
        return eng().branch(z3.simplify(self.e != 0))

    # -- arithmetic
    def _wrap(self, a, other_real):
        return SymReal(a)

    def _bin(self, o, f):
        a, b = _coerce(self, o)
        if a is None:
            if b is not None:
                raise Unsupported('arithmetic with inf/nan')
            return NotImplemented
        r = z3.simplify(f(a, b), som=False)
        return SymInt(r) if z3.is_int(r) else SymReal(r)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        r = z3.simplify(-self.e)
        return type(self)(r)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def _div(self, a, b):
        """a / b as Python true division (z3 Real terms)."""
        if eng().branch(z3.simplify(b == 0)):
            raise ZeroDivisionError('float division by zero')
        return SymReal(z3.simplify(a / b))

    def __truediv__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            if b is not None:
                raise Unsupported('arithmetic with inf/nan')
            return NotImplemented
        return self._div(_r(a), _r(b))

    def __rtruediv__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            if b is not None:
                raise Unsupported('arithmetic with inf/nan')
            return NotImplemented
        return self._div(_r(b), _r(a))
    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def _floordiv(self, a, b):
        if eng().branch(z3.simplify(b == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        if z3.is_int(a) and z3.is_int(b):
            if num_value(z3.simplify(b)) is None:
                raise Unsupported('symbolic integer divisor')
            if num_value(z3.simplify(b)) > 0:
                return SymInt(z3.simplify(a / b))
            return SymInt(z3.simplify((-a) / (-b)))
        return SymReal(z3.simplify(z3.ToReal(z3.ToInt(_r(a) / _r(b)))))

    def __floordiv__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            return NotImplemented
        return self._floordiv(a, b)

    def __rfloordiv__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            return NotImplemented
        return self._floordiv(b, a)

    def __mod__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            return NotImplemented
        q = self._floordiv(a, b)
        return (type(q)(a) if z3.is_int(a) == z3.is_int(q.e) else SymReal(_r(a))) - q * (SymInt(b) if z3.is_int(b) else SymReal(b))

    def __rmod__(self, o):
        a, b = _coerce(self, o)
        if a is None:
            return NotImplemented
        q = self._floordiv(b, a)
        return (SymInt(b) if z3.is_int(b) else SymReal(b)) - q * self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            o2 = num_value(z3.simplify(o.e))
            if o2 is None:
                raise Unsupported('symbolic exponent')
            o = o2
        if isinstance(o, (float, Fraction)) and o == int(o):
            r = self ** int(o)
            return r if isinstance(r, SymReal) else SymReal(_r(r.e)) if isinstance(r, SymInt) else float(r)
        if isinstance(o, int):
            if o == 0:
                return 1 if isinstance(self, SymInt) else 1.0
            if o < 0:
                return 1.0 / (self ** (-o))
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        if o == 0.5:
            from .shadow import MATH
            return MATH.sqrt(self)
        raise Unsupported('power %r' % (o,))

    def __rpow__(self, o):
        return o ** self._concrete_int()

    def _concrete_int(self):
        raise Unsupported('symbolic exponent')

    def __hash__(self):
        v = num_value(z3.simplify(self.e))
        if v is None:
            raise Unsupported('hash of a symbolic number')
        return hash(v)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        from .symstr import number_text
        return _native(number_text(self))

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported('SymNum.__format__')

    def conjugate(self): return self

    def __getattr__(self, name):
        if hasattr(self._pytype, name):
            raise Unsupported('number method ' + name)
        raise AttributeError("%r object has no attribute %r" % (self._pytype.__name__, name))


def _native(s):
    if isinstance(s, str) and type(s) is str:
        return s
    raise Unsupported('native str() of a symbolic value')


def _r(e):
    return z3.ToReal(e) if z3.is_int(e) else e


class SymInt(SymNum):
    __slots__ = ()
    _pytype = int

    @property
    def __class__(self):
        return int

    def real(self):
        return z3.ToReal(self.e)

    def _pin(self):
        return eng().value_of(self.e, 'int')

    def __index__(self):
        return self._pin()

    def __int__(self):
        return self._pin()

    def __float__(self):
        raise Unsupported('native float() of a symbolic int')

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round(int, negative)')

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def _concrete_int(self):
        return self._pin()

    def __and__(self, o): return self._pin() & int(o)
    def __or__(self, o): return self._pin() | int(o)
    def __lshift__(self, o): return self * (2 ** int(o))
    def __rshift__(self, o): return self // (2 ** int(o))

    def is_integer(self): return True

    def bit_length(self): return self._pin().bit_length()


class SymReal(SymNum):
    __slots__ = ()
    _pytype = float

    def __init__(self, e):
        self.e = _r(e)

    @property
    def __class__(self):
        return float

    def real(self):
        return self.e

    def __float__(self):
        v = num_value(z3.simplify(self.e))
        if v is not None:
            return float(v)
        raise Unsupported('native float() of a symbolic real')

    def __int__(self):
        raise Unsupported('native int() of a symbolic real')

    def floor(self):
        return SymInt(z3.simplify(z3.ToInt(self.e)))

    def ceil(self):
        return SymInt(z3.simplify(-z3.ToInt(-self.e)))

    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()

    def trunc(self):
        e = self.e
        return SymInt(z3.simplify(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))))
    __trunc__ = trunc

    def nearest(self, ties='even'):
        """Fresh integer nearest to self (ties to even, or either way)."""
        en = eng()
        key = ('near', self.e.get_id(), ties)
        hit = en.memo.get(key)
        if hit is not None:
            return hit[0]
        from .linear import int_part
        sp = int_part(self.e)
        if sp is not None:
            ie, rest = sp
            if rest is None:
                r = SymInt(ie)
                en.memo[key] = (r, self.e)
                return r
            en_ok = en.entailed(z3.And(2 * rest < 1, 2 * rest > -1))
            if en_ok:
                r = SymInt(ie)
                en.memo[key] = (r, self.e)
                return r
        n = en.fresh_int('rnd')
        d = self.e - z3.ToReal(n)
        en.add(z3.And(2 * d <= 1, 2 * d >= -1))
        if ties == 'even':
            en.add(z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), n % 2 == 0))
        r = SymInt(n)
        en.memo[key] = (r, self.e)
        return r

    def __round__(self, n=None):
        if n is None:
            return self.nearest()
        if isinstance(n, Sym):
            n = n._pin()
        k = Fraction(10) ** n
        return SymReal(z3.simplify(z3.ToReal(SymReal(self.e * realval(k)).nearest().e) / realval(k)))

    def is_integer(self):
        return mkbool(z3.simplify(z3.ToReal(z3.ToInt(self.e)) == self.e))


def to_real(x):
    """z3 Real term of a Python or symbolic number."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(x._num().e)
    return realval(x)


def is_number(x):
    return isinstance(x, SymNum) or (isinstance(x, (int, float, Fraction)))
