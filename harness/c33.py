"""C33: a drill file rendered to Excellon statements has the same tools and holes."""
import gerber
from gerber import excellon
from gerber.cam import FileSettings
from gerber.render.excellon_backend import ExcellonContext
from harness.c18 import HEADS
from harness.c19 import BODY

BOUNDS = ('31 programs of up to 20 commands under 6 headers with any one coordinate arbitrary (either sign, such that no hole exceeds the format), others fixed; rendered in the '
          'format of the file and in one with a digit more on both sides, with leading and trailing zeros; read with the same settings, or with none given')

MORE = ['T1\nX#Y#\nX#Y#\nX#Y#\nT2\nX#Y#\n', 'T1\nX#Y#G85X#Y#\nX#Y#G85X#Y#\nX#Y#\nX#\nY#\n', 'T1\nX#Y#\nG00X#Y#\nM15\nG01X#Y#\nX#Y#\nM16\nG00X#Y#\nM15\nG01X#Y#\nX#\nM16\nG05\nX#Y#\nT2\nX#Y#G85X#Y#\n',
        'T1\nG00X#Y#\nM15\nG01X#Y#\nT2\nG01X#Y#\nX#Y#\nM16\nM17\nG05\nT1\nX#Y#\n', 'T1\nX#Y#\nT2\nX#Y#G85X#Y#\nT1\nG00X#Y#\nM15\nG01X#Y#\nM16\nG05\nX#Y#G85X#Y#\nX#Y#\n',
        'T1\nG00X#Y#\nM15\nG01X#Y#\nM16\nG05\nX#Y#\nG00X#Y#\nM15\nG01X#Y#\nX#Y#\nM16\nG05\nT2\nX#Y#\nG00X#Y#\nM15\nG01X#Y#\nM16\n',
        'T2\nX#Y#\nR4X#\nR2Y#\nT1\nX#Y#\nR3\n']
ALL = BODY + MORE


def jobs(tier):
    out = []
    for n, b in enumerate(ALL):
        c = b.count('#')
        for h in range(len(HEADS) - 1):
            if (b.startswith('T') and b[1] in '56') != (h == 5):
                continue
            for k in range(max(c, 1)):
                for m in range(4):
                    # sums of coordinates written without their trailing zeros take long
                    if m % 2 == 0 and ('R' in b or 'ON' in b) and (tier == 'quick' or m or k > 1):
                        continue
                    if tier == 'quick' and (n + h + k + m) % (10 if c > 6 else 6):
                        continue
                    for same in (False, True) if n >= len(BODY) and (tier != 'quick' or k % 2) else (False,):
                        out.append(('h_rendered', dict(body=n, head=h, sym=k, neg=(n + k + m) % 2 == 0, wide=m > 1, zeros=('leading', 'trailing')[m % 2], same=same)))
    for k in range(6):
        out.append(('h_refused', dict(kind=k)))
    return out


def program(sx, p, fmt):
    i, d = fmt
    text, k = '', 0
    for c in ALL[p['body']]:
        if c == '#':
            if k == p['sym']:
                ds = sx.digits('v', i + d)
            else:
                # with same: all fixed numbers are alike
                ds = str(7 * ((0 if p['same'] else k) + 3) % 9 + 1).zfill(i) + '1' + '0' * (d - 1)
                ds = ds[-(i + d):]
            text = text + ('-' if p['neg'] and k == p['sym'] else '') + ds
            k += 1
        else:
            text = text + c
    return text


def render(prims, settings):
    ctx = ExcellonContext(settings)
    for q in prims:
        ctx.render(q)
    text = ''
    for s in ctx.statements:
        text = text + s.to_excellon(settings) + '\n'
    return text


def h_rendered(sx, p):
    head, st, units, fmt, zeros, table = HEADS[p['head']]
    given = FileSettings('absolute', st[0], zeros=st[2], format=st[1])
    f = excellon.loads(head + program(sx, p, fmt) + 'M30\n', settings=given)
    i, d = fmt
    for h in f.hits:
        for q in ('position', 'start', 'end'):
            if hasattr(h, q):
                sx.assume(sx.And(*[sx.And(c < 10 ** i - 0.5, c > -10 ** i + 0.5) for c in getattr(h, q)]))
    sx.option(general='exact')
    target = FileSettings('absolute', f.units, zeros=p['zeros'], format=(i + 1, d + 1) if p['wide'] else (i, d))
    text = render(f.primitives, target)
    # the text says how it is to be read
    how = FileSettings('absolute', 'inch', zeros='leading', format=(2, 4)) if p['sym'] % 2 else target
    same(sx, f, excellon.loads(text, settings=how), target)


def same(sx, f, g, target):
    sx.check(g.units == f.units, 'units')
    sx.check(tuple(g.settings.format) == tuple(target.format) and g.settings.zeros == target.zeros and g.settings.notation == 'absolute', 'settings')
    sx.check(sorted(set(h.tool.number for h in f.hits)) == sorted(g.tools), 'the tools that are used')
    for n in g.tools:
        t, u = f.tools[n], g.tools[n]
        for a in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            x, y = getattr(t, a), getattr(u, a)
            sx.check((x is None) == (y is None), 'tool parameters present')
            if x is not None:
                sx.same(y, x, 'tool ' + a)
    sx.check(len(f.hits) == len(g.hits), 'number of hits')
    for x, y in zip(f.hits, g.hits):
        sx.check(type(x) == type(y) and getattr(x, 'slot_type', None) == getattr(y, 'slot_type', None), 'kind of hit')
        sx.check(x.tool.number == y.tool.number, 'tool of a hit')
        for q in ('position', 'start', 'end'):
            if hasattr(x, q):
                for m in (0, 1):
                    sx.same(getattr(y, q)[m], getattr(x, q)[m], q)


def h_refused(sx, p):
    """what a drill cannot make is refused"""
    from gerber import primitives as P
    x = sx.real('x', -5, 5)
    what = [lambda: P.Line((x, 0), (1, 1), P.Circle((0, 0), 0.1)), lambda: P.Arc((x, 0), (x + 2, 0), (x + 1, 0), 'clockwise', P.Circle((0, 0), 0.1), 'multi-quadrant'),
            lambda: P.Circle((x, 0), 1), lambda: P.Rectangle((x, 0), 1, 2), lambda: P.Obround((x, 0), 1, 2), lambda: P.Polygon((x, 0), 5, 1)][p['kind']]()
    ctx = ExcellonContext(FileSettings())
    sx.raises(ValueError, lambda: ctx.render(what), 'refused')
