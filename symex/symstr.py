"""Symbolic strings: a concrete number of elements, each a literal character,
a symbolic character with a finite alphabet, or a run of digits that came from
formatting a symbolic number (expanded only if the code looks inside it)."""
import z3
from fractions import Fraction
from .engine import eng, Unsupported, realval, num_value, frac_of
from .values import (Sym, SymBool, SymInt, SymReal, SymNum, mkbool, is_sym,
                     to_real)

DIGITS = frozenset('0123456789')
ZERO = frozenset('0')
WS = frozenset(' \t\n\r\x0b\x0c')


class SymChar(object):
    __slots__ = ('code', 'base', 'hexval')

    def __init__(self, code, allowed, digit=None):
        self.code = code            # z3 Int: code point (or digit value)
        self.base = frozenset(allowed)
        eng().chars.setdefault(code.get_id(), [self.base, code, self])

    @property
    def allowed(self):
        return eng().chars[self.code.get_id()][0]

    def narrow(self, s):
        eng().chars[self.code.get_id()][0] = s

    def in_set(self, s):
        """Python bool (forks) : is this character in the set s of chars."""
        cur = self.allowed
        hit = cur & s
        if not hit:
            return False
        if len(hit) == len(cur):
            return True
        r = eng().branch(self.cond(hit))
        self.narrow(hit if r else cur - hit)
        return r

    def cond(self, chars):
        cs = sorted(ord(c) for c in chars)
        ors = []
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            if i == j:
                ors.append(self.code == cs[i])
            else:
                ors.append(z3.And(self.code >= cs[i], self.code <= cs[j]))
            i = j + 1
        return ors[0] if len(ors) == 1 else z3.Or(*ors)

    def __repr__(self):
        return '<c %s>' % ''.join(sorted(self.allowed))[:12]


class Token(object):
    """A formatted number: value (>=0 real term), which Runs came from it."""
    __slots__ = ('absval', 'integral', 'maxint', 'maxfrac', 'parts', 'frac_shape')

    def __init__(self, absval, maxint, maxfrac):
        self.absval, self.maxint, self.maxfrac = absval, maxint, maxfrac
        self.parts = {}


class Run(object):
    """Digits of a Token: 'int' or 'frac' part; not yet expanded."""
    __slots__ = ('tok', 'part')

    def __init__(self, tok, part):
        self.tok, self.part = tok, part

    def __repr__(self):
        return 'Run(%s)' % self.part

    def expand(self):
        """List of SymChar digits; forks on the number of digits."""
        en = eng()
        key = (id(self.tok), self.part)
        hit = en.memo.get(('run', key))
        if hit is not None:
            return hit[0]
        v = self.tok.absval
        whole = z3.ToInt(v)
        out = None
        if self.part == 'int':
            n = 1
            while n < self.tok.maxint:
                if en.branch(whole < 10 ** n):
                    break
                n += 1
            else:
                en.add(whole < 10 ** n)
            out = digits_of(SymInt(whole), n)
        else:
            fr = v - z3.ToReal(whole)
            n = 1
            while n < self.tok.maxfrac:
                s = fr * (10 ** n)
                if en.branch(z3.ToReal(z3.ToInt(s)) == s):
                    break
                n += 1
            sc = en.fresh_int('frac')
            en.add(z3.ToReal(sc) == fr * (10 ** n))
            en.add(z3.And(sc >= 0, sc < 10 ** n))
            out = digits_of(SymInt(sc), n)
        en.memo[('run', key)] = (out, self.tok)
        return out


def digits_of(n, count):
    """SymChars of the `count` decimal digits of symbolic int n (0<=n<10^count)."""
    en = eng()
    v = num_value(z3.simplify(n.e))
    if v is not None:
        return list(str(v).zfill(count))
    key = ('digits', n.e.get_id(), count)
    hit = en.memo.get(key)
    if hit is not None:
        return hit[0]
    from .linear import digit_layout
    lay = digit_layout(n.e, count, dict((i, c[2]) for i, c in en.chars.items()
                                        if c[0] <= DIGITS))
    if lay is not None:
        extra = lay[:len(lay) - count]
        if all(x == '0' if type(x) is str else x.allowed == ZERO for x in extra) or \
                en.entailed(n.e < 10 ** count):
            out = lay[len(lay) - count:]
            en.memo[key] = (out, n.e)
            return out
    out = []
    total = None
    for k in range(count):
        d = en.fresh_int('dg')
        en.add(z3.And(d >= 48, d <= 57))
        out.append(SymChar(d, DIGITS))
        w = 10 ** (count - 1 - k)
        term = (d - 48) * w
        total = term if total is None else total + term
    if count:
        en.add(n.e == total)
    en.memo[key] = (out, n.e)
    return out


def lift(x):
    if isinstance(x, SymStr):
        return x
    if type(x) is str or isinstance(x, str):
        return SymStr(tuple(str.__str__(x)))
    raise TypeError('expected str, got %s' % type(x).__name__)


def mk(elems):
    """SymStr or plain str when nothing is symbolic."""
    for e in elems:
        if type(e) is not str:
            return SymStr(tuple(elems))
    return ''.join(elems)


class SymStr(Sym):
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = tuple(el)

    @property
    def __class__(self):
        return str

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # -- expansion
    def soft(self):
        """Elements with closed numerals opened (sign and shape decided,
        digits still lazy)."""
        if any(type(e) is Run and e.part == 'num' for e in self.el):
            out = []
            for e in self.el:
                if type(e) is Run and e.part == 'num':
                    out.extend(open_numeral(e))
                else:
                    out.append(e)
            self.el = tuple(out)
        return self.el

    def flat(self):
        """Elements with every Run expanded (or kept, when numerals are
        opaque)."""
        self.soft()
        if any(type(e) is Run for e in self.el):
            out = []
            for e in self.el:
                if type(e) is Run:
                    out.extend(e.expand())
                else:
                    out.append(e)
            self.el = tuple(out)
        return self.el

    def hard(self):
        self.soft()
        out = []
        for e in self.el:
            if type(e) is Run:
                out.extend(e.expand())
            else:
                out.append(e)
        return tuple(out)

    def concrete(self):
        """Fork until every character is fixed."""
        out = []
        en = eng()
        for e in self.hard():
            if type(e) is str:
                out.append(e)
            else:
                a = e.allowed
                if len(a) == 1:
                    out.append(next(iter(a)))
                else:
                    v = en.value_of(e.code, 'int')
                    e.narrow(frozenset(chr(v)))
                    out.append(chr(v))
        return ''.join(out)

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __repr__(self):
        return 'SymStr(%r)' % (self.el,)

    def __format__(self, spec):
        raise Unsupported('SymStr.__format__')

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        return len(self.flat())

    def __bool__(self):
        return len(self.el) > 0

    def __iter__(self):
        return iter([mk((e,)) for e in self.flat()])

    def __getitem__(self, i):
        el = self.el
        if isinstance(i, slice):
            if i.step in (None, 1):
                a, b = i.start or 0, i.stop
                if b is None:
                    if a >= 0 and not any(type(e) is Run for e in el[:a]) and a <= len(el):
                        return mk(el[a:])
                elif a >= 0 and b >= 0 and b <= len(el) and \
                        not any(type(e) is Run for e in el[:b]):
                    return mk(el[a:b])
        elif 0 <= i < len(el):
            if not any(type(e) is Run for e in el[:i + 1]):
                return mk((el[i],))
        elif -len(el) <= i < 0 and not any(type(e) is Run for e in el[i:]):
            return mk((el[i],))
        f = self.flat()
        if isinstance(i, slice):
            return mk(f[i])
        return mk((f[i],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.el + lift(o).el)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(lift(o).el + self.el)

    def __mul__(self, n):
        return mk(self.el * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from .fmt import percent
        return percent(self, args)

    # -- comparison
    def eq_cond(self, o):
        """z3 condition or bool for self == o."""
        a = self.el
        b = o.el if isinstance(o, SymStr) else tuple(o)
        if a == b:
            return True
        a = self.soft()
        b = o.soft() if isinstance(o, SymStr) else b
        if any(type(e) is Run for e in a) or any(type(e) is Run for e in b):
            # cheap disproof: a literal non-numeral prefix mismatch
            for x, y in zip(a, b):
                if type(x) is Run or type(y) is Run:
                    z = y if type(x) is Run else x
                    if type(z) is str and z not in DIGITS:
                        return False
                    break
                if type(x) is str and type(y) is str and x != y:
                    return False
            a = self.hard()
            b = o.hard() if isinstance(o, SymStr) else b
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if x is y:
                continue
            if type(x) is str and type(y) is str:
                if x != y:
                    return False
                continue
            if type(x) is str:
                x, y = y, x
            if type(y) is str:
                al = x.allowed
                if y not in al:
                    return False
                if len(al) == 1:
                    continue
                conds.append(x.code == ord(y))
            else:
                if not (x.allowed & y.allowed):
                    return False
                conds.append(x.code == y.code)
        if not conds:
            return True
        return z3.And(*conds) if len(conds) > 1 else conds[0]

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if isinstance(o, str) and not isinstance(o, SymStr) and type(o) is not str:
            o = str.__str__(o)
        c = self.eq_cond(o)
        if c is True or c is False:
            return c
        if z3.is_and(c) or True:
            # one-character tests refine the alphabet
            r = SymBool(c)
            if len(self.el) == 1 and type(o) is str and type(self.el[0]) is SymChar:
                return self.el[0].in_set(frozenset(o))
            return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def _lt(self, o, strict):
        a = self.hard()
        b = lift(o).hard()
        for x, y in zip(a, b):
            xs = frozenset(x) if type(x) is str else x.allowed
            ys = frozenset(y) if type(y) is str else y.allowed
            if type(x) is str and type(y) is str:
                if x != y:
                    return x < y
                continue
            cx = ord(x) if type(x) is str else x.code
            cy = ord(y) if type(y) is str else y.code
            if eng().branch(z3.simplify(cx < cy)):
                return True
            if eng().branch(z3.simplify(cx > cy)):
                return False
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return not self._lt(o, False)
    def __ge__(self, o): return not self._lt(o, True)

    # -- element tests
    @staticmethod
    def _el_in(e, s):
        if type(e) is str:
            return e in s
        if type(e) is Run:
            cs = NUMCHARS if e.part == 'num' else DIGITS
            if not (cs & s):
                return False
            if cs <= s:
                return True
            raise Unsupported('partial test of an opaque numeral')
        return e.in_set(s)

    def _match_at(self, f, i, pat):
        """does plain/sym pattern elements pat match f at i (forks)."""
        if i + len(pat) > len(f):
            return False
        for k, p in enumerate(pat):
            e = f[i + k]
            if type(p) is str:
                if type(e) is Run:
                    if p not in (NUMCHARS if e.part == 'num' else DIGITS):
                        return False
                    raise Unsupported('digit search in an opaque numeral')
                if not self._el_in(e, frozenset(p)):
                    return False
            else:
                if type(e) is Run or type(p) is Run:
                    if e is p:
                        continue
                    raise Unsupported('search for an opaque numeral')
                if type(e) is str:
                    if not p.in_set(frozenset(e)):
                        return False
                elif e is not p:
                    if not eng().branch(z3.simplify(e.code == p.code)):
                        return False
        return True

    def _search_el(self, pat):
        """Elements to search for pat in: literal non-digit patterns can never
        match inside a digit run, so runs stay closed."""
        if all(type(p) is str and p not in NUMCHARS for p in pat):
            return self.el
        if all(type(p) is str and p not in DIGITS for p in pat):
            return self.soft()
        return self.hard()

    def contains(self, x):
        el = lift(x).el
        if el == ('e',) or el == ['e']:
            # repr() has an exponent exactly when the number is very small
            for e in self.el:
                if type(e) is Run and e.part == 'num':
                    v = e.tok.absval
                    a = z3.If(v < 0, -v, v)
                    if eng().branch(z3.simplify(z3.And(a > 0, a < realval(Fraction(1, 10000))))):
                        return True
            f = [e for e in self.el if type(e) is not Run]
            return self._find(el, 0, tuple(f)) >= 0
        return self._find(el) >= 0

    __contains__ = contains

    def _find(self, pat, start=0, f=None):
        f = self._search_el(pat) if f is None else f
        if not pat:
            return start
        for i in range(start, len(f) - len(pat) + 1):
            if self._match_at(f, i, pat):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        f = self.flat()
        if end is not None:
            f = f[:end]
        return self._find(lift(sub).el, start, f)

    def rfind(self, sub):
        f = self.flat()
        p = lift(sub).el
        for i in range(len(f) - len(p), -1, -1):
            if self._match_at(f, i, p):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub):
        r = self.rfind(sub)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        p = lift(sub).el
        f = self._search_el(p)
        n = i = 0
        while True:
            i = self._find(p, i, f)
            if i < 0:
                return n
            n += 1
            i += max(1, len(p))

    def startswith(self, pre, start=0):
        if isinstance(pre, tuple):
            return any(self.startswith(p, start) for p in pre)
        p = lift(pre).el
        f = self._search_el(p) if not start else self.flat()
        return self._match_at(f, start, p)

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return any(self.endswith(p) for p in suf)
        p = lift(suf).el
        f = self._search_el(p)
        if len(f) < len(p):
            return False
        return self._match_at(f, len(f) - len(p), p)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            for e in self.el:
                if type(e) is not Run and self._el_in(e, WS):
                    if cur:
                        out.append(mk(cur))
                        cur = []
                else:
                    cur.append(e)
            if cur:
                out.append(mk(cur))
            if maxsplit >= 0 and len(out) > maxsplit + 1:
                raise Unsupported('split(None, n)')
            return out
        p = lift(sep).el
        if not p:
            raise ValueError('empty separator')
        f = self._search_el(p)
        start = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self._find(p, start, f)
            if i < 0:
                break
            out.append(mk(f[start:i]))
            start = i + len(p)
        out.append(mk(f[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        p = lift(sep).el
        f = self._search_el(p)
        out = []
        end = len(f)
        while len(out) < maxsplit:
            for i in range(end - len(p), -1, -1):
                if self._match_at(f, i, p):
                    break
            else:
                break
            out.insert(0, mk(f[i + len(p):end]))
            end = i
        out.insert(0, mk(f[:end]))
        return out

    def splitlines(self, keepends=False):
        out, cur = [], []
        f = self.el
        i = 0
        while i < len(f):
            e = f[i]
            if type(e) is not Run and self._el_in(e, frozenset('\n\r')):
                if e == '\r' and i + 1 < len(f) and f[i + 1] == '\n':
                    if keepends:
                        cur.append(e)
                    i += 1
                    e = f[i]
                if keepends:
                    cur.append(e)
                out.append(mk(cur))
                cur = []
            else:
                cur.append(e)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        p = lift(sep).el
        f = self._search_el(p)
        i = self._find(p, 0, f)
        if i < 0:
            return mk(f), '', ''
        return mk(f[:i]), sep, mk(f[i + len(p):])

    def rpartition(self, sep):
        p = lift(sep).el
        f = self._search_el(p)
        for i in range(len(f) - len(p), -1, -1):
            if self._match_at(f, i, p):
                return mk(f[:i]), sep, mk(f[i + len(p):])
        return '', '', mk(f)

    def _strip_set(self, chars):
        if chars is None:
            return WS
        if isinstance(chars, SymStr):
            return frozenset(chars.concrete())
        return frozenset(chars)

    def _lstrip_i(self, f, s):
        i = 0
        while i < len(f) and self._el_in(f[i], s):
            i += 1
        return i

    def _strip_el(self, s):
        return self.el if not (s & NUMCHARS) else \
            self.soft() if not (s & DIGITS) else self.hard()

    def lstrip(self, chars=None):
        s = self._strip_set(chars)
        f = self._strip_el(s)
        return mk(f[self._lstrip_i(f, s):])

    def rstrip(self, chars=None):
        s = self._strip_set(chars)
        f = self._strip_el(s)
        n = len(f)
        while n and self._el_in(f[n - 1], s):
            n -= 1
        return mk(f[:n])

    def strip(self, chars=None):
        s = self._strip_set(chars)
        f = self._strip_el(s)
        i = self._lstrip_i(f, s)
        n = len(f)
        while n > i and self._el_in(f[n - 1], s):
            n -= 1
        return mk(f[i:n])

    def replace(self, a, b, count=-1):
        p = lift(a).el
        q = lift(b).el
        f = self._search_el(p)
        if not p:
            raise Unsupported('replace of empty string')
        out = []
        i = 0
        while i < len(f):
            if count != 0 and self._match_at(f, i, p):
                out.extend(q)
                i += len(p)
                count -= 1
            else:
                out.append(f[i])
                i += 1
        return mk(out)

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not first:
                out.extend(self.el)
            first = False
            if not isinstance(x, str):
                raise TypeError('sequence item: expected str instance')
            out.extend(lift(x).el)
        return mk(out)

    def _map_case(self, f):
        out = []
        self.soft()
        for e in self.el:
            if type(e) is str:
                out.append(f(e))
            elif type(e) is Run or all(f(c) == c for c in e.allowed):
                out.append(e)
            elif len(set(f(c) for c in e.allowed)) == 1:
                out.append(f(min(e.allowed)))
            elif all(len(f(c)) == 1 for c in e.allowed) and len(set(
                    ord(f(c)) - ord(c) for c in e.allowed if f(c) != c)) == 1:
                ch = frozenset(c for c in e.allowed if f(c) != c)
                c = min(ch)
                out.append(SymChar(z3.If(e.cond(ch), e.code + (ord(f(c)) - ord(c)), e.code),
                                   frozenset(f(c) for c in e.allowed)))
            else:
                # resolve letters: fork on the concrete character
                v = eng().value_of(e.code, 'int')
                e.narrow(frozenset(chr(v)))
                out.append(f(chr(v)))
        return mk(out)

    def upper(self): return self._map_case(str.upper)
    def lower(self): return self._map_case(str.lower)
    def casefold(self): return self._map_case(str.casefold)
    def swapcase(self): return self._map_case(str.swapcase)

    def _all(self, pred):
        if not self.el:
            return False
        self.soft()
        for e in self.el:
            if type(e) is str:
                if not pred(e):
                    return False
            elif type(e) is Run:
                if not all(pred(c) for c in DIGITS):
                    return False
            elif not e.in_set(frozenset(c for c in e.allowed if pred(c))):
                return False
        return True

    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isspace(self): return self._all(str.isspace)

    def zfill(self, n):
        f = self.hard()
        pad = n - len(f)
        if pad <= 0:
            return mk(f)
        if f and self._el_in(f[0], frozenset('+-')):
            return mk((f[0],) + ('0',) * pad + f[1:])
        return mk(('0',) * pad + f)

    def rjust(self, n, c=' '):
        f = self.hard()
        return mk(tuple(c) * max(0, n - len(f)) + f)

    def ljust(self, n, c=' '):
        f = self.hard()
        return mk(f + tuple(c) * max(0, n - len(f)))

    def center(self, n, c=' '):
        raise Unsupported('str.center')

    def format(self, *a, **k):
        from .fmt import str_format
        return str_format(self, a, k)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def encode(self, *a):
        raise Unsupported('str.encode')

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('str method ' + name)
        raise AttributeError("'str' object has no attribute %r" % name)


# ---------------------------------------------------------------- numbers
def parse_int(s, base=10):
    if base != 10:
        raise Unsupported('int() base')
    s = lift(s).strip()
    if type(s) is str:
        return int(s)
    if any(type(e) is Run and e.part == 'num' for e in s.el):
        raise ValueError('invalid literal for int()')
    f = s.el
    if len(f) >= 1 and type(f[-1]) is Run:
        neg, rest = _sign(f)
        if len(rest) == 1 and rest[0].part == 'int' and rest[0].tok.parts.get('frac') is None:
            v = SymInt(z3.simplify(z3.ToInt(rest[0].tok.absval)))
            return -v if neg else v
    f = s.hard()
    neg, f = _sign(f)
    if not f:
        raise ValueError('invalid literal for int()')
    tot = _digits_value(f, 'int')
    v = mkint(tot)
    return -v if neg else v


def mkint(e):
    e = z3.simplify(e)
    v = num_value(e)
    return SymInt(e) if v is None else v


def _sign(f):
    if f and type(f[0]) is not Run and SymStr._el_in(f[0], frozenset('+-')):
        neg = SymStr._el_in(f[0], frozenset('-'))
        return neg, f[1:]
    return False, f


def _digits_value(f, what):
    tot = z3.IntVal(0)
    n = len(f)
    terms = []
    const = 0
    for k, e in enumerate(f):
        if type(e) is Run:
            raise Unsupported('numeral inside numeral')
        if not SymStr._el_in(e, DIGITS):
            raise ValueError('invalid literal for %s()' % what)
        w = 10 ** (n - 1 - k)
        if type(e) is str:
            const += w * int(e)
        else:
            terms.append((e.code - 48) * w)
    if not terms:
        return z3.IntVal(const)
    return z3.Sum(*([z3.IntVal(const)] + terms)) if len(terms) > 1 or const else terms[0]


def parse_float(s):
    s = lift(s).strip()
    if type(s) is str:
        return float(s)
    if len(s.el) == 1 and type(s.el[0]) is Run and s.el[0].part == 'num':
        return SymReal(s.el[0].tok.absval)
    f = s.soft()
    neg, rest = _sign(f)
    runs = [e for e in rest if type(e) is Run]
    if runs:
        tok = runs[0].tok
        shape = tuple(e.part if type(e) is Run else e for e in rest)
        want = tok.parts.get('shape')
        if shape == want and all(r.tok is tok for r in runs):
            v = SymReal(tok.absval)
            return -v if neg else v
        # same token with a trailing '.0' or '.' added or dropped
        f = s.hard()
        neg, rest = _sign(f)
    if not rest:
        raise ValueError('could not convert string to float')
    ip, fp, ex = [], [], None
    seen = False
    for i, e in enumerate(rest):
        if not seen and SymStr._el_in(e, frozenset('.')):
            seen = True
        elif type(e) is str and e in 'eE' and (ip or fp):
            ex = rest[i + 1:]
            break
        elif seen:
            fp.append(e)
        else:
            ip.append(e)
    if not ip and not fp:
        raise ValueError('could not convert string to float')
    scale = 10 ** len(fp)
    tot = _digits_value(tuple(ip + fp), 'float')
    r = z3.simplify(z3.ToReal(tot) / scale)
    if ex is not None:
        e10 = parse_int(mk(ex))
        if not isinstance(e10, int) or is_sym(e10):
            raise Unsupported('symbolic exponent text')
        r = z3.simplify(r * realval(Fraction(10) ** e10))
    v = SymReal(r)
    cv = num_value(r)
    if cv is not None:
        return -float(cv) if neg else float(cv)
    return -v if neg else v


def number_text(x):
    """repr()/str() of a symbolic number."""
    en = eng()
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymInt):
        v = num_value(z3.simplify(x.e))
        if v is not None:
            return str(v)
        neg = en.branch(z3.simplify(x.e < 0))
        a = z3.simplify(-x.e) if neg else x.e
        key = ('itok', x.e.get_id())
        hit = en.memo.get(key)
        if hit is None:
            t = Token(z3.ToReal(a), en.opts.get('maxint', 8), 0)
            t.parts['shape'] = ('int',)
            hit = (t, x.e)
            en.memo[key] = hit
        return mk((('-',) if neg else ()) + (Run(hit[0], 'int'),))
    v = num_value(z3.simplify(x.e))
    if v is not None:
        return repr(float(v))
    return mk((closed_numeral(x.e),))


NUMCHARS = frozenset('0123456789.eE+-')


def closed_numeral(e):
    en = eng()
    key = ('ntok', e.get_id())
    hit = en.memo.get(key)
    if hit is None:
        t = Token(e, en.opts.get('maxint', 8), en.opts.get('maxfrac', 8))
        hit = (Run(t, 'num'), e)
        en.memo[key] = hit
    return hit[0]


def open_numeral(run):
    """repr() shape of a closed numeral: sign, integer run, fraction run."""
    en = eng()
    key = ('onum', id(run.tok))
    hit = en.memo.get(key)
    if hit is None:
        e = run.tok.absval
        neg = en.branch(z3.simplify(e < 0))
        a = z3.simplify(-e) if neg else e
        hit = ((('-',) if neg else ()) + tuple(_float_shape(
            a, run.tok.maxint, run.tok.maxfrac, True)), run)
        en.memo[key] = hit
    return hit[0]


def integral(a):
    """condition: the real term a is an integer"""
    from .linear import linear
    lin = linear(a)
    if lin is not None and lin[0]:
        leaves, const = lin
        digs = eng().digit_vars
        conds, low = [], const
        scale = None
        for x, c in leaves.values():
            if not z3.is_int(x):
                break
            if c.denominator == 1:
                continue
            if x.get_id() not in digs or abs(c.numerator) != 1 or \
                    not str(c.denominator).strip('0') == '1':
                break
            if scale is None:
                scale = c.numerator
            elif scale != c.numerator:
                break
            low += 48 * c
            conds.append((x, abs(c)))
        else:
            if low.denominator == 1 and len(set(c for _, c in conds)) == len(conds):
                return z3.And(*[x == 48 for x, _ in conds]) if conds else z3.BoolVal(True)
    return z3.ToReal(z3.ToInt(a)) == a


def _float_shape(a, maxint, maxfrac, always_frac):
    en = eng()
    key = ('ftok', a.get_id(), maxint, maxfrac)
    hit = en.memo.get(key)
    if hit is None:
        hit = (Token(a, maxint, maxfrac), a)
        en.memo[key] = hit
    t = hit[0]
    if en.branch(z3.simplify(integral(a))):
        if always_frac:
            t.parts['shape'] = ('int', '.', '0')
            return [Run(t, 'int'), '.', '0']
        t.parts['shape'] = ('int',)
        return [Run(t, 'int')]
    if not en.branch(z3.simplify(a >= realval(Fraction(1, 10000)))):
        for k in range(5, 14):
            if en.branch(z3.simplify(a >= realval(Fraction(1, 10 ** k)))):
                m = z3.simplify(a * realval(10 ** k))
                return _float_shape(m, 1, maxfrac, False) + list('e-%02d' % k)
        raise Unsupported('exponent form of a number')
    t.parts['shape'] = ('int', '.', 'frac')
    t.parts['frac'] = True
    return [Run(t, 'int'), '.', Run(t, 'frac')]
