"""Replacements for builtins and library modules inside the code under test."""
import builtins
import math as _math
import io as _io
import os as _os
import z3
from fractions import Fraction
from .engine import eng, Unsupported, realval, num_value, frac_of, EngineSignal, ckey, PI
from .values import (Sym, SymBool, SymInt, SymReal, SymNum, mkbool, is_sym,
                     has_sym, to_real, is_number)
from .symstr import SymStr, SymChar, mk, lift, parse_float, parse_int
from . import fmt
from .rx import RE_MODULE

HALFPI = PI / 2


# ------------------------------------------------------------------ math
def _snap(v):
    for t in (0.0, 0.5, -0.5, 1.0, -1.0):
        if abs(v - t) < 1e-12:
            return t
    return v


def split_angle(e):
    """e (z3 real) -> (base term or None, quarter turns m, sign)."""
    s = z3.simplify(e, som=True)
    const = Fraction(0)
    rest = []
    args = s.children() if z3.is_add(s) else [s]
    for a in args:
        v = num_value(a)
        if v is not None:
            const += v
        else:
            rest.append(a)
    if not rest:
        return None, const, 1
    m = 0
    if const:
        m = int(round(float(const / HALFPI)))
        if abs(float(const - m * HALFPI)) > 1e-9:
            m = 0
            rest.append(realval(Fraction(round(const * 10 ** 11), 10 ** 11)))
    base = rest[0] if len(rest) == 1 else z3.Sum(*rest)
    base = z3.simplify(base, som=True)
    sign = 1
    lead = base.children()[0] if z3.is_add(base) else base
    if z3.is_mul(lead):
        c = num_value(lead.children()[0])
        if c is not None and c < 0:
            sign = -1
            base = z3.simplify(-base, som=True)
    return base, m, sign


def _known_sum(en, base):
    if not z3.is_add(base) or len(base.children()) > 3:
        return False
    for t in base.children():
        if num_value(t) is not None:
            return False
        b = split_angle(t)[0]
        if ('trig', ckey(b)) not in en.memo and ('atanvar', ckey(b)) not in en.memo:
            return False
    return True


def cos_sin(x):
    if not is_sym(x):
        return _snap(_math.cos(x)), _snap(_math.sin(x))
    en = eng()
    base, m, sign = split_angle(to_real(x))
    if base is None:
        f = float(m)
        return _snap(_math.cos(f)), _snap(_math.sin(f))
    key = ('trig', ckey(base))
    hit = en.memo.get(key)
    if hit is None:
        at = en.memo.get(('atanvar', ckey(base)))
        if at is not None:
            r = en.memo.get(('atanhyp', ckey(base)))
            if r is None:
                rr = en.fresh_real('hyp')
                en.add(z3.And(rr >= 0, rr * rr == at[0] * at[0] + at[1] * at[1]))
                r = rr
            c = en.fresh_real('cos')
            s = en.fresh_real('sin')
            # atan2(0, 0) = 0
            en.add(z3.And(c * c + s * s == 1, c * r == at[1], s * r == at[0],
                          z3.Implies(r == 0, z3.And(c == 1, s == 0))))
        elif _known_sum(en, base):
            # sum of angles whose sine and cosine are known
            c, s = realval(1), realval(0)
            for t in base.children():
                u, v = [to_real(w) for w in cos_sin(SymReal(t))]
                c, s = z3.simplify(c * u - s * v), z3.simplify(s * u + c * v)
        else:
            c = en.fresh_real('cos')
            s = en.fresh_real('sin')
            en.add(c * c + s * s == 1)
            en.add(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        hit = (c, s, base)
        en.memo[key] = hit
    c, s = hit[0], hit[1]
    if sign < 0:
        s = -s
    for _ in range(m % 4):
        c, s = -s, c
    return SymReal(z3.simplify(c)), SymReal(z3.simplify(s))


def only_variable(e, limit=60):
    """the variable of an expression in one variable, else None"""
    seen, todo, n = None, [e], 0
    while todo:
        t = todo.pop()
        n += 1
        if n > limit:
            return None
        if t.num_args() == 0:
            if not z3.is_rational_value(t):
                if seen is not None and not seen.eq(t):
                    return None
                seen = t
        elif t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return None
        else:
            todo += t.children()
    return seen


def fixed_direction(en, ye, xe):
    """atan2 of a vector that is a multiple of a fixed one"""
    yv, xv = num_value(ye), num_value(xe)
    if yv is not None and yv == 0:
        y1, x1 = 0, 1
    elif xv is not None and xv == 0:
        y1, x1 = 1, 0
    else:
        a, b = only_variable(ye), only_variable(xe)
        if a is None or b is None or not a.eq(b):
            return None
        y1, x1 = [num_value(z3.simplify(z3.substitute(e, (a, realval(1))))) for e in (ye, xe)]
        if y1 is None or x1 is None or (y1 == 0 and x1 == 0):
            return None
        d = num_value(z3.simplify(ye * realval(x1) - xe * realval(y1), som=True))
        if d is None or d != 0:
            return None
    along = z3.simplify(ye * realval(y1) + xe * realval(x1))
    if en.branch(along > 0):
        return _math.atan2(float(y1), float(x1))
    if en.branch(z3.simplify(along == 0)):
        return 0.0
    return _math.atan2(-float(y1), -float(x1)) if y1 != 0 else _math.pi


class Math(object):
    pi = _math.pi
    e = _math.e
    inf = _math.inf
    nan = _math.nan
    tau = _math.tau

    def sqrt(self, x):
        if not is_sym(x):
            return _math.sqrt(x)
        en = eng()
        e = z3.simplify(to_real(x))
        v = num_value(e)
        if v is not None:
            return _math.sqrt(float(v))
        if en.branch(z3.simplify(e < 0)):
            raise ValueError('math domain error')
        key = ('sqrt', ckey(e))
        hit = en.memo.get(key)
        if hit is None:
            r = en.fresh_real('sqrt')
            en.add(z3.And(r >= 0, r * r == e))
            hit = (SymReal(r), e)
            en.memo[key] = hit
        return hit[0]

    def hypot(self, *a):
        if not any(is_sym(v) for v in a):
            return _math.hypot(*a)
        t = 0
        for v in a:
            t = t + v * v
        return self.sqrt(t)

    def dist(self, p, q):
        return self.hypot(*[a - b for a, b in zip(p, q)])

    def cos(self, x):
        return cos_sin(x)[0]

    def sin(self, x):
        return cos_sin(x)[1]

    def tan(self, x):
        c, s = cos_sin(x)
        return s / c

    def radians(self, x):
        if not is_sym(x):
            return _math.radians(x)
        return x * SymReal(realval(PI / 180))

    def degrees(self, x):
        if not is_sym(x):
            return _math.degrees(x)
        return x * SymReal(realval(180 / PI))

    def fabs(self, x):
        return abs(x) if is_sym(x) else _math.fabs(x)

    def floor(self, x):
        if isinstance(x, SymReal):
            return x.floor()
        return x if is_sym(x) else _math.floor(x)

    def ceil(self, x):
        if isinstance(x, SymReal):
            return x.ceil()
        return x if is_sym(x) else _math.ceil(x)

    def trunc(self, x):
        return x.trunc() if isinstance(x, SymReal) else x if is_sym(x) else _math.trunc(x)

    def isnan(self, x):
        return False if is_sym(x) else _math.isnan(x)

    def isinf(self, x):
        return False if is_sym(x) else _math.isinf(x)

    def isfinite(self, x):
        return True if is_sym(x) else _math.isfinite(x)

    def copysign(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return _math.copysign(a, b)
        a = abs(a)
        return a if b >= 0 else -a

    def pow(self, a, b):
        return a ** b if is_sym(a) or is_sym(b) else _math.pow(a, b)

    def fmod(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return _math.fmod(a, b)
        q = a / b
        q = q.trunc() if is_sym(q) else int(q)
        return a - b * q

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return d <= sx_max(sx_max(abs(a), abs(b)) * rel_tol, abs_tol)

    def atan2(self, y, x):
        if not is_sym(y) and not is_sym(x):
            return _math.atan2(y, x)
        en = eng()
        ye, xe = z3.simplify(to_real(y)), z3.simplify(to_real(x))
        yv, xv = num_value(ye), num_value(xe)
        if yv is not None and xv is not None:
            return _math.atan2(float(yv), float(xv))
        key = ('atan2', ckey(ye), ckey(xe))
        hit = en.memo.get(key)
        if hit is not None:
            return hit[0]
        fixed = fixed_direction(en, ye, xe)
        if fixed is not None:
            return fixed
        th = en.fresh_real('atan')
        pi, h = realval(PI), realval(HALFPI)
        en.add(z3.And(th > -pi, th <= pi))
        en.add((th > 0) == z3.Or(ye > 0, z3.And(ye == 0, xe < 0)))
        en.add((th < 0) == (ye < 0))
        en.add(z3.And(th < h, th > -h) == z3.Or(xe > 0, z3.And(xe == 0, ye == 0)))
        en.add((th == h) == z3.And(xe == 0, ye > 0))
        en.add((th == -h) == z3.And(xe == 0, ye < 0))
        en.add((th == pi) == z3.And(ye == 0, xe < 0))
        q = pi / 4
        en.add((th == q) == z3.And(xe > 0, ye == xe))
        for (o, ox, oy) in en.atans:
            cross = ox * ye - oy * xe
            dot = ox * xe + oy * ye
            d = th - o
            nz = z3.And(z3.Or(xe != 0, ye != 0), z3.Or(ox != 0, oy != 0))
            en.add(z3.Implies(nz, (cross > 0) == z3.Or(z3.And(d > 0, d < pi), z3.And(d > -2 * pi, d < -pi))))
            en.add(z3.Implies(nz, (cross < 0) == z3.Or(z3.And(d < 0, d > -pi), z3.And(d < 2 * pi, d > pi))))
            en.add(z3.Implies(nz, (dot > 0) == z3.Or(z3.And(d < h, d > -h), d > 3 * h, d < -3 * h)))
            en.add(z3.Implies(nz, z3.And(cross == 0, dot > 0) == (d == 0)))
        en.atans.append((th, xe, ye))
        r = SymReal(th)
        en.memo[key] = (r, ye, xe)
        en.memo[('atanvar', ckey(th))] = (ye, xe, th)
        return r

    def asin(self, x):
        if not is_sym(x):
            return _math.asin(x)
        en = eng()
        e = z3.simplify(to_real(x))
        if en.branch(z3.simplify(z3.Or(e > 1, e < -1))):
            raise ValueError('math domain error')
        key = ('asin', ckey(e))
        hit = en.memo.get(key)
        if hit is None:
            th = en.fresh_real('asin')
            h = realval(HALFPI)
            c = en.fresh_real('cos')
            en.add(z3.And(th >= -h, th <= h, c >= 0, c * c + e * e == 1,
                          (th > 0) == (e > 0), (th < 0) == (e < 0),
                          (th == h) == (e == 1), (th == -h) == (e == -1)))
            hit = (SymReal(th), e, th)
            en.memo[key] = hit
            en.memo[('trig', ckey(th))] = (c, e, th)
        return hit[0]

    def acos(self, x):
        if is_sym(x):
            raise Unsupported('acos')
        return _math.acos(x)

    def atan(self, x):
        if is_sym(x):
            return self.atan2(x, 1.0)
        return _math.atan(x)

    def __getattr__(self, n):
        f = getattr(_math, n)

        def g(*a):
            if any(has_sym(v) for v in a):
                raise Unsupported('math.' + n)
            return f(*a)
        return g


MATH = Math()


# ------------------------------------------------------------------ min/max
def _minmax(args, kw, lt):
    name = 'min' if lt else 'max'
    nat = builtins.min if lt else builtins.max
    key = kw.get('key')
    if len(args) == 1:
        items = list(args[0])
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError('%s() arg is an empty sequence' % name)
    else:
        items = list(args)
    if key is not None or not any(is_sym(i) for i in items):
        return nat(items, **({'key': key} if key else {}))
    if not all(is_number(i) for i in items):
        return nat(items)
    acc = items[0]
    for i in items[1:]:
        if not is_sym(acc) and not is_sym(i):
            acc = nat(acc, i)
            continue
        a, b = to_real(acc), to_real(i)
        if a.eq(b):
            continue
        if eng().opts.get('minmax') == 'decide':
            if eng().branch(z3.simplify(b < a if lt else b > a)):
                acc = i
            continue
        if isinstance(acc, int) and isinstance(i, int):
            ai = acc.e if isinstance(acc, SymInt) else z3.IntVal(int(acc))
            bi = i.e if isinstance(i, SymInt) else z3.IntVal(int(i))
            acc = SymInt(z3.simplify(z3.If(bi < ai if lt else bi > ai, bi, ai)))
        else:
            acc = SymReal(z3.simplify(z3.If(b < a if lt else b > a, b, a)))
    return acc


def sx_min(*a, **k):
    return _minmax(a, k, True)


def sx_max(*a, **k):
    return _minmax(a, k, False)


# ------------------------------------------------------------------ types
class _FloatMeta(type):
    def __call__(cls, *a):
        if not a:
            return 0.0
        x = a[0]
        if isinstance(x, SymNum):
            return SymReal(to_real(x))
        if isinstance(x, SymStr):
            return parse_float(x)
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sx_float(builtins.float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if not a:
            return 0
        x = a[0]
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x.trunc()
        if isinstance(x, SymStr):
            return parse_int(x, *a[1:], **k)
        return builtins.int(*a, **k)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sx_int(builtins.int, metaclass=_IntMeta):
    pass


class _StrMeta(type):
    def __call__(cls, *a, **k):
        if not a:
            return ''
        if len(a) == 1 and not k:
            return fmt.text(a[0])
        return builtins.str(*a, **k)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.str)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)


STR_METHODS = frozenset(n for n in dir(str) if not n.startswith('_'))


def callm(obj, name, /, *a, **k):
    """obj.name(*a) where obj may be a plain str given symbolic arguments."""
    if type(obj) is str:
        if name == 'join':
            items = list(a[0])
            if any(isinstance(i, SymStr) for i in items):
                return lift(obj).join(items)
            return obj.join(items)
        if name == 'format':
            return fmt.str_format(obj, a, k)
        if any(isinstance(x, Sym) or has_sym(x) for x in a):
            if any(isinstance(x, SymStr) or has_sym(x) for x in a):
                return getattr(SymStr(tuple(obj)), name)(*a, **k)
    return getattr(obj, name)(*a, **k)


def _strm(n):
    def f(self, *a, **k):
        return callm(self, n, *a, **k)
    return f


class sx_str(builtins.str, metaclass=_StrMeta):
    for _n in STR_METHODS:
        if _n != 'maketrans':
            locals()[_n] = _strm(_n)


TYPE_MAP = {builtins.float: sx_float, builtins.int: sx_int, builtins.str: sx_str,
            SymReal: sx_float, SymInt: sx_int, SymStr: sx_str, SymBool: bool}


def typeof(x):
    t = type(x)
    return TYPE_MAP.get(t, t)


# ------------------------------------------------------------------ dict/set
class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymDict:
            return builtins.isinstance(x, builtins.dict)
        return type.__instancecheck__(cls, x)

    def __eq__(cls, o):
        return o is cls or (cls is SymDict and o is builtins.dict)

    def __hash__(cls):
        return hash(builtins.dict)


class SymDict(builtins.dict, metaclass=_DictMeta):
    """dict that tolerates symbolic keys (compared one by one)."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sk = []            # symbolic [key, value]
        if a:
            src = a[0]
            if isinstance(src, builtins.dict):
                src = src.items()
            for key, v in src:
                self[key] = v
        for key, v in k.items():
            self[key] = v

    def __reduce_ex__(self, p):
        return (SymDict, (list(self.items()),))

    def __deepcopy__(self, memo):
        import copy
        d = SymDict()
        memo[id(self)] = d
        for k, v in self.items():
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def _find(self, k):
        """('s', cell) / ('n', key) / None"""
        if self._sk or has_sym(k):
            if not has_sym(k):
                if dict.__contains__(self, k):
                    return ('n', k)
            else:
                for nk in list(dict.keys(self)):
                    if _same(nk, k):
                        return ('n', nk)
            for cell in self._sk:
                if _same(cell[0], k):
                    return ('s', cell)
            return None
        return ('n', k) if dict.__contains__(self, k) else None

    def __contains__(self, k):
        return self._find(k) is not None

    has_key = __contains__

    def __getitem__(self, k):
        r = self._find(k)
        if r is None:
            m = getattr(type(self), '__missing__', None)
            if m:
                return m(self, k)
            raise KeyError(_key_repr(k))
        return dict.__getitem__(self, r[1]) if r[0] == 'n' else r[1][1]

    def get(self, k, d=None):
        r = self._find(k)
        if r is None:
            return d
        return dict.__getitem__(self, r[1]) if r[0] == 'n' else r[1][1]

    def __setitem__(self, k, v):
        r = self._find(k)
        if r is None:
            if has_sym(k):
                self._sk.append([k, v])
            else:
                dict.__setitem__(self, k, v)
        elif r[0] == 'n':
            dict.__setitem__(self, r[1], v)
        else:
            r[1][1] = v

    def __delitem__(self, k):
        r = self._find(k)
        if r is None:
            raise KeyError(_key_repr(k))
        if r[0] == 'n':
            dict.__delitem__(self, r[1])
        else:
            self._sk.remove(r[1])

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, *d):
        r = self._find(k)
        if r is None:
            if d:
                return d[0]
            raise KeyError(_key_repr(k))
        if r[0] == 'n':
            return dict.pop(self, r[1])
        self._sk.remove(r[1])
        return r[1][1]

    def __len__(self):
        return dict.__len__(self) + len(self._sk)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(list(dict.keys(self)) + [c[0] for c in self._sk])

    def keys(self):
        return _View(list(self))

    def values(self):
        return _View(list(dict.values(self)) + [c[1] for c in self._sk])

    def items(self):
        return _View(list(dict.items(self)) + [(c[0], c[1]) for c in self._sk])

    iteritems = None

    def update(self, *a, **k):
        for key, v in SymDict(*a, **k).items():
            self[key] = v

    def clear(self):
        dict.clear(self)
        del self._sk[:]

    def popitem(self):
        k = list(self)[-1]
        return k, self.pop(k)

    def __eq__(self, o):
        if not isinstance(o, builtins.dict):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not bool(o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % i for i in self.items())


del SymDict.iteritems


def _key_repr(k):
    return '<symbolic key>' if has_sym(k) else k


class _View(list):
    """keys()/values()/items(): not subscriptable, as in Python 3."""

    def __getitem__(self, i):
        raise TypeError("'dict_keys' object is not subscriptable")

    def __and__(self, o): return SymSet(x for x in self if x in o)
    def __or__(self, o): return SymSet(list(self) + list(o))
    def __sub__(self, o): return SymSet(x for x in self if x not in o)


def _same(a, b):
    if type(a) in (tuple, list) and type(b) in (tuple, list):
        return type(a) is type(b) and len(a) == len(b) and \
            all(_same(x, y) for x, y in zip(a, b))
    return bool(a == b)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.set)

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)


class SymSet(builtins.set, metaclass=_SetMeta):
    def __init__(self, items=()):
        builtins.set.__init__(self)
        self._s = []
        for i in items:
            self.add(i)

    def add(self, x):
        if x in self:
            return
        if has_sym(x):
            self._s.append(x)
        else:
            builtins.set.add(self, x)

    def __contains__(self, x):
        if not has_sym(x) and not self._s:
            return builtins.set.__contains__(self, x)
        return any(_same(y, x) for y in self)

    def __iter__(self):
        base = list(builtins.set.__iter__(self))
        try:
            base.sort()          # deterministic order
        except TypeError:
            pass
        return iter(base + self._s)

    def __len__(self):
        return builtins.set.__len__(self) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        for i, y in enumerate(self._s):
            if _same(y, x):
                del self._s[i]
                return
        if not has_sym(x):
            builtins.set.discard(self, x)

    def union(self, *os):
        r = SymSet(self)
        r.update(*os)
        return r

    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return self.union(o)

    def intersection(self, o): return SymSet(x for x in self if x in o)
    def __and__(self, o): return self.intersection(o)

    def difference(self, o): return SymSet(x for x in self if x not in o)
    def __sub__(self, o): return self.difference(o)

    def issubset(self, o): return all(x in o for x in self)
    __le__ = issubset

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and \
            all(x in o for x in self)

    def __ne__(self, o): return not self == o
    __hash__ = None

    def copy(self): return SymSet(self)

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x

    def clear(self):
        builtins.set.clear(self)
        del self._s[:]


# ------------------------------------------------------------------ ops
def mod(a, b):
    if isinstance(a, str):
        return fmt.percent(a, b)
    return a % b


def contains(x, c):
    if isinstance(c, str):
        if isinstance(x, SymStr) or isinstance(c, SymStr):
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            if type(c) is str and len(x.el) == 1 and type(x.el[0]) is SymChar:
                return x.el[0].in_set(frozenset(c))
            return lift(c).contains(x)
        return x in c
    if has_sym(x):
        if isinstance(c, (SymDict, SymSet)):
            return x in c
        if isinstance(c, (dict, set, frozenset)):
            return any(_same(k, x) for k in c)
    return x in c


def not_contains(x, c):
    return not contains(x, c)


def fstr(*parts):
    return mk([e for p in parts for e in lift(p).el]) if any(
        isinstance(p, SymStr) for p in parts) else ''.join(parts)


def fval(x, conv, spec):
    if conv == ord('r'):
        x = fmt._repr(x)
    elif conv == ord('s'):
        x = fmt.text(x)
    return fmt.format_one(x, spec)


# ------------------------------------------------------------------ io
class SymFile(object):
    """in-memory text file"""

    def __init__(self, initial='', sink=None):
        self.parts = [initial] if len(lift(initial).el) else []
        self.pos = 0
        self.sink = sink
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self.parts.append(s)
        return 0

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        return lift('').join(self.parts)

    def seek(self, p, w=0):
        self.pos = p
        return p

    def flush(self):
        pass

    def read(self, n=-1):
        s = self.getvalue()
        r = s[self.pos:] if self.pos else s
        self.pos = 10 ** 9
        return r

    def readlines(self):
        return lift(self.getvalue()).splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        raise Unsupported('readline')

    def close(self):
        if self.sink is not None:
            self.sink(self.getvalue())
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        raise Unsupported('file.' + n)


def sx_open(path, mode='r', *a, **k):
    if isinstance(path, str) and type(path) is str and path.startswith('/sxfs/'):
        fs = eng().vfs
        if 'w' in mode:
            fs[path] = ''
            return SymFile('', lambda v: fs.__setitem__(path, v))
        if 'a' in mode:
            return SymFile(fs.get(path, ''), lambda v: fs.__setitem__(path, v))
        if path not in fs:
            raise IOError('No such file: ' + path)
        return SymFile(fs[path])
    if 'w' in mode or 'a' in mode or '+' in mode:
        raise Unsupported('writing a real file')
    return builtins.open(path, mode.replace('U', ''), *a, **k)


class IOModule(object):
    StringIO = SymFile
    open = staticmethod(sx_open)

    def __getattr__(self, n):
        return getattr(_io, n)


class PathModule(object):
    """os.path for texts with symbolic characters and the virtual files"""

    def split(self, p):
        if not isinstance(p, SymStr):
            return _os.path.split(p)
        i = p.rfind('/') + 1
        head, tail = p[:i], p[i:]
        if head and head != '/' * len(head):
            head = head.rstrip('/')
        return head, tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def splitext(self, p):
        if not isinstance(p, SymStr):
            return _os.path.splitext(p)
        sep, dot = p.rfind('/'), p.rfind('.')
        i = sep + 1
        while i < dot:
            if p[i:i + 1] != '.':
                return p[:dot], p[dot:]
            i += 1
        return p, p[:0]

    def join(self, a, *ps):
        if not any(isinstance(x, SymStr) for x in (a,) + ps):
            return _os.path.join(a, *ps)
        for b in ps:
            if b.startswith('/'):
                a = b
            elif not a or a.endswith('/'):
                a = a + b
            else:
                a = a + '/' + b
        return a

    def abspath(self, p):
        return p if p.startswith('/') else _os.path.abspath(p)

    def isdir(self, p):
        if isinstance(p, SymStr) or not p.startswith('/sxfs'):
            return _os.path.isdir(p)
        return p.rstrip('/') == '/sxfs' or any(k.startswith(p.rstrip('/') + '/') for k in eng().vfs)

    def exists(self, p):
        return p in eng().vfs or self.isdir(p) or _os.path.exists(p)

    def isfile(self, p):
        return p in eng().vfs or _os.path.isfile(p)

    def __getattr__(self, n):
        return getattr(_os.path, n)


class OsModule(object):
    path = PathModule()

    def listdir(self, p='.'):
        if not p.startswith('/sxfs'):
            return _os.listdir(p)
        pre = p.rstrip('/') + '/'
        out = []
        for k in eng().vfs:
            if k.startswith(pre) and k[len(pre):].split('/')[0] not in out:
                out.append(k[len(pre):].split('/')[0])
        return out

    def __getattr__(self, n):
        return getattr(_os, n)


def sx_print(*a, **k):
    return None


def sx_ord(c):
    if isinstance(c, SymStr):
        f = c.hard()
        if len(f) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(f[0].code)
    return builtins.ord(c)


def sx_chr(c):
    return builtins.chr(int(c))


def sx_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    if is_sym(n):
        n = int(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sx_repr(x):
    return fmt._repr(x) if fmt._needs(x) and (is_sym(x) or has_sym(x)) else builtins.repr(x)


def sx_format(x, spec=''):
    return fmt.format_one(x, spec)


def sx_sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


from . import fakecairo
OS_MODULE = OsModule()
MODULES = {'os': OS_MODULE, 'os.path': OS_MODULE.path, 'math': MATH, 're': RE_MODULE, 'io': IOModule(), 'cairo': fakecairo,
           'cairocffi': fakecairo}
_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'os.path' and not fromlist:
            return OS_MODULE
        if name in MODULES:
            return MODULES[name]
        if name == 'cStringIO':
            raise ImportError(name)
    return _real_import(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    'float': sx_float, 'int': sx_int, 'str': sx_str, 'min': sx_min,
    'max': sx_max, 'round': sx_round, 'open': sx_open, 'print': sx_print,
    'ord': sx_ord, 'chr': sx_chr, 'repr': sx_repr, 'format': sx_format,
    'dict': SymDict, 'set': SymSet, 'sum': sx_sum, '__import__': sx_import,
})
