"""C02: coordinate values survive being written and read back."""
from gerber.utils import parse_gerber_value, write_gerber_value

BOUNDS = ('every format with i<=6 integer and d<=7 decimal digits (i+d>=1), 3 zero-suppression modes; '
          'any real value with |v| rounding below 10^i; no bound on the value beyond that')


def jobs(tier):
    out = []
    for i in range(0, 7):
        for d in range(0, 8):
            if i + d < 1:
                continue
            for zs in ('leading', 'trailing', 'none'):
                for neg in (False, True):
                    out.append(('h_roundtrip', dict(i=i, d=d, zs=zs, neg=neg)))
    return out


def h_roundtrip(sx, p):
    i, d, zs = p['i'], p['d'], p['zs']
    half = 0.5 / 10 ** d
    # every real that rounds to a number of i+d digits (exact halves aside)
    a = sx.decimal('a', i, d) + sx.real('eps', -half, half, strict=True)
    sx.assume(a >= 0)
    v = -a if p['neg'] else a
    txt = write_gerber_value(v, (i, d), zs)
    chars = sx.chars(txt)
    sx.check(len(chars) >= 1, 'text is not empty')
    body = chars
    if sx.char_in(chars[0], '-'):
        sx.check(p['neg'], 'minus sign only on negative values')
        body = chars[1:]
    sx.check(1 <= len(body) <= i + d, 'one to i+d digits')
    for c in body:
        sx.check(sx.char_in(c, '0123456789'), 'digits only')
    is_zero = len(body) == 1 and sx.char_in(body[0], '0')
    if zs == 'none' and not is_zero:
        sx.check(len(body) == i + d, 'no suppression: every digit present')
    if zs == 'leading' and not is_zero:
        sx.check(not sx.char_in(body[0], '0'), 'leading zeros suppressed')
    if zs == 'trailing' and not is_zero:
        sx.check(not sx.char_in(body[-1], '0'), 'trailing zeros suppressed')
    back = parse_gerber_value(txt, (i, d), zs)
    err = back - v
    sx.check(sx.And(err <= half * (1 + 1e-7), err >= -half * (1 + 1e-7)), 'reads back to the last decimal place')
    # grid values come back exactly: back is itself on the grid
    again = parse_gerber_value(write_gerber_value(back, (i, d), zs), (i, d), zs)
    sx.same(again, back, 'stable on representable values')
