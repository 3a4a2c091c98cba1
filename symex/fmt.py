"""%-formatting, str.format and f-strings over symbolic values."""
import re
import string
import z3
from fractions import Fraction
from .engine import eng, Unsupported, realval, num_value
from .values import Sym, SymBool, SymInt, SymReal, SymNum, is_sym, has_sym, to_real
from .symstr import (SymStr, Run, Token, mk, lift, number_text, digits_of,
                     _float_shape)

_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?'
                  r'(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[a-zA-Z%])')


def text(x):
    """str(x) possibly symbolic."""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Sym):
        return number_text(x)
    if has_sym(x):
        o, c = ('(', ')') if type(x) is tuple else ('[', ']')
        inner = lift(', ').join([_repr(y) for y in x])
        if type(x) is tuple and len(x) == 1:
            inner = inner + ','
        return o + inner + c
    t = type(x)
    m = getattr(t, '__str__', None)
    if t.__module__.startswith(('gerber', 'harness')):
        return m(x)
    return str(x)


def _repr(x):
    if isinstance(x, SymStr):
        return "'" + x + "'"
    return text(x) if isinstance(x, Sym) or has_sym(x) else repr(x)


def percent(fmt, args):
    if isinstance(fmt, SymStr):
        f = fmt.el
        fs = ''.join(e if type(e) is str else '\0' for e in f)
        hole = list(e for e in f if type(e) is not str)
    else:
        fs, hole = fmt, []
    if not hole and not _needs(args):
        return fs % args
    out = []
    pos = 0
    n = 0
    seq = args if type(args) is tuple else (args,)

    def lit(s):
        for ch in s:
            if ch == '\0' and hole:
                out.append(hole.pop(0))
            else:
                out.append(ch)
    for m in _PCT.finditer(fs):
        lit(fs[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        width, prec = m.group('width'), m.group('prec')
        if m.group('key') is not None:
            arg = args[m.group('key')]
        else:
            if width == '*':
                width = int(seq[n])
                n += 1
            if prec == '*':
                prec = int(seq[n])
                n += 1
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            arg = seq[n]
            n += 1
        width = int(width) if width is not None else None
        prec = int(prec) if prec is not None else None
        flags = m.group('flags')
        if not _needs(arg):
            spec = '%' + flags + ('' if width is None else str(width)) + \
                ('' if prec is None else '.%d' % prec) + conv
            out.extend(spec % (arg,))
            continue
        r = conv_one(arg, conv, width, prec, '0' in flags, '-' in flags,
                     '+' if '+' in flags else ' ' if ' ' in flags else '')
        out.extend(lift(r).el)
    lit(fs[pos:])
    if m_keyless(fs) and n < len(seq) and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return mk(out)


def m_keyless(fs):
    return '%(' not in fs


def _needs(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list):
        return any(_needs(y) for y in x)
    if isinstance(x, dict):
        return any(_needs(y) for y in x.values())
    # objects from the code under test may render symbolically
    return type(x).__module__.startswith(('gerber', 'harness'))


def conv_one(x, conv, width, prec, zero, left, plus):
    if conv in 'sr':
        r = text(x) if conv == 's' else _repr(x)
        if prec is not None:
            r = lift(r)[:prec]
        return pad(r, width, False, left)
    if isinstance(x, SymStr):
        raise TypeError('%%%s format: a number is required, not str' % conv)
    if conv in 'di' or conv == 'u':
        if isinstance(x, SymReal):
            x = x.trunc()
        r = number_text(x)
    elif conv in 'fF':
        r = fixed(x, 6 if prec is None else prec)
    elif conv in 'gG':
        r = general(x, 6 if prec is None else prec)
    else:
        raise Unsupported('format conversion ' + conv)
    if plus and not lift(r).startswith('-'):
        r = plus + r
    return pad(r, width, zero and not left, left)


def pad(r, width, zero, left):
    if width is None or width <= 1:
        return r
    r = lift(r)
    if zero:
        return r.zfill(width)
    return r.ljust(width) if left else r.rjust(width)


def fixed(x, prec):
    """'%.<prec>f' : round(x*10^prec) laid out with the decimal point."""
    en = eng()
    r = SymReal(to_real(x))
    v = num_value(z3.simplify(r.e))
    if v is not None:
        return '%.*f' % (prec, float(v))
    neg = en.branch(z3.simplify(r.e < 0))
    a = SymReal(z3.simplify(-r.e)) if neg else r
    n = SymReal(z3.simplify(a.e * realval(10 ** prec))).nearest('any')
    # number of integer digits: fork up to the configured maximum
    width = en.opts.get('fixed_width')
    k = prec + 1
    top = prec + en.opts.get('maxint', 8)
    while k < top:
        if en.branch(z3.simplify(n.e < 10 ** k)):
            break
        k += 1
    else:
        if not en.branch(z3.simplify(n.e < 10 ** k)):
            raise Unsupported('number too large to format')
    ds = digits_of(n, k)
    out = (['-'] if neg else []) + ds[:k - prec]
    if prec:
        out += ['.'] + ds[k - prec:]
    return mk(out)


def general(x, prec):
    """'%.<prec>g' : a numeral whose value is within half a unit of the
    prec-th significant digit of x (equal when x itself is that short)."""
    en = eng()
    r = SymReal(to_real(x))
    v = num_value(z3.simplify(r.e))
    if v is not None:
        return '%.*g' % (prec, float(v))
    if en.branch(z3.simplify(r.e == 0)):
        return '0'
    neg = en.branch(z3.simplify(r.e < 0))
    a = z3.simplify(-r.e) if neg else r.e
    if prec == 0:
        prec = 1
    if not en.branch(z3.simplify(a >= realval(Fraction(1, 10000)))):
        if en.opts.get('general') == 'exact':
            for k in range(5, 14):
                if en.branch(z3.simplify(a >= realval(Fraction(1, 10 ** k)))):
                    m = z3.simplify(a * realval(10 ** k))
                    return mk((('-',) if neg else ()) + tuple(
                        _float_shape(m, 1, prec + 4, False)) + tuple('e-%02d' % k))
        raise Unsupported('exponent form of a number')
    if not en.branch(z3.simplify(a < realval(10 ** prec - Fraction(1, 2)))):
        raise Unsupported('exponent form of a number')
    key = ('gval', a.get_id(), prec)
    hit = en.memo.get(key)
    if hit is None:
        mode = en.opts.get('general', 'decade')
        if mode == 'exact' and prec >= en.opts.get('sig', 10):
            # the harness restricts inputs to at most `sig` significant digits
            q = a
        else:
            q = en.fresh_real('gfmt')
            lo = -4
            d = lo
            while d < prec:
                if d + 1 < prec and not en.branch(a < realval(Fraction(10) ** (d + 1))):
                    d += 1
                    continue
                break
            ulp = Fraction(10) ** (d - prec + 1)
            n = en.fresh_int('gn')
            en.add(q == z3.ToReal(n) * realval(ulp))
            df = a - q
            en.add(z3.And(2 * df <= realval(ulp), 2 * df >= -realval(ulp)))
        hit = (q, a)
        en.memo[key] = hit
    q = hit[0]
    shape = _float_shape(q, prec, prec + 4, False)
    return mk((('-',) if neg else ()) + tuple(shape))


_FSPEC = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?#?'
                    r'(?P<zero>0)?(?P<width>\d+)?,?(?:\.(?P<prec>\d+))?'
                    r'(?P<type>[a-zA-Z%])?$')


def format_one(x, spec):
    if not _needs(x) and type(spec) is str:
        return format(x, spec)
    if not isinstance(x, Sym):
        if type(x) in (tuple, list):
            return text(x)
        if spec == '' or spec == 's':
            return text(x)
        return pad(text(x), *_align(spec))
    if spec == '':
        return text(x)
    m = _FSPEC.match(spec)
    if not m or (m.group('fill') not in (None, ' ', '0')) or m.group('align') == '^':
        raise Unsupported('format spec ' + spec)
    w = int(m.group('width')) if m.group('width') else None
    p = int(m.group('prec')) if m.group('prec') else None
    t = m.group('type') or ('s' if isinstance(x, SymStr) else 'r' if p is None else 'g')
    zero = bool(m.group('zero')) or m.group('fill') == '0'
    left = m.group('align') == '<' or (isinstance(x, SymStr) and not m.group('align'))
    if t == 'r':
        r = text(x)
        return pad(r, w, zero, left)
    if t == 'd' and isinstance(x, SymReal):
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    return conv_one(x, t, w, p, zero, left, m.group('sign') or '')


def _align(spec):
    m = _FSPEC.match(spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    w = int(m.group('width')) if m.group('width') else None
    return w, False, m.group('align') != '>'


def str_format(fmt, args, kwargs):
    if isinstance(fmt, SymStr):
        raise Unsupported('symbolic format string')
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = __import__('_string').formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            obj = getattr(obj, k) if is_attr else obj[k]
        if spec and '{' in spec:
            sub = []
            for l2, f2, s2, c2 in fm.parse(spec):
                sub.append(l2)
                if f2 is not None:
                    if f2 == '':
                        f2 = str(auto)
                        auto += 1
                    v = args[int(f2)] if f2.isdigit() else kwargs[f2]
                    sub.append(str(int(v)) if isinstance(v, int) else str(v))
            spec = ''.join(sub)
        if conv == 'r':
            obj = _repr(obj)
        elif conv == 's':
            obj = text(obj)
        out.extend(lift(format_one(obj, spec or '')).el)
    return mk(out)
