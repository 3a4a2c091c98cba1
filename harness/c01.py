"""C01: coordinate text decodes to its positional decimal value."""
from gerber.utils import parse_gerber_value

BOUNDS = "every format with up to 6 integer and 7 decimal digits, three zero modes, every digit string of every length that fits, either sign or none; explicit points at every place"

TITLE = 'coordinate text -> number'


def jobs(tier):
    out = []
    for i in range(0, 7):
        for d in range(0, 8):
            if i + d < 1:
                continue
            for zs in ('leading', 'trailing', 'none'):
                out.append(('h_positional', dict(i=i, d=d, zs=zs)))
    for k in range(1, 9 if tier == 'quick' else 14):
        for dp in range(0, k + 1):
            out.append(('h_explicit', dict(k=k, dp=dp)))
    return out


def h_positional(sx, p):
    i, d, zs = p['i'], p['d'], p['zs']
    total = i + d
    for n in ([total] if zs == 'none' else range(1, total + 1)):
        txt = sx.digits('digits%d' % n, n)
        val = sx.pos_value(txt, 0)
        for sign in ('', '-', '+'):
            got = parse_gerber_value(sign + txt, (i, d), zs)
            if zs == 'trailing':
                # integer part first: digits after the i-th are decimals,
                # omitted zeros are on the right
                want = sx.pos_value(txt + '0' * (total - n), d)
            else:
                want = sx.pos_value(txt, d)
            if sign == '-':
                want = -want
            sx.same(got, want, 'positional value (sign %r)' % sign)


def h_explicit(sx, p):
    k, dp = p['k'], p['dp']
    a = sx.digits('a', dp)
    b = sx.digits('b', k - dp)
    want = sx.pos_value(a + b, k - dp)
    for fmt in ((2, 4), (3, 3), (6, 6)):
        for zs in ('leading', 'trailing'):
            for sign in ('', '-', '+'):
                got = parse_gerber_value(sign + a + '.' + b, fmt, zs)
                sx.same(got, -want if sign == '-' else want, 'explicit decimal point')
