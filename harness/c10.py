"""C10: an image rendered back to Gerber statements is the same image."""
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.render.rs274x_backend import Rs274xContext
from harness import shapes as S
from gerber import primitives as P
from gerber.primitives import Line, Region
from harness.c04 import FILES, HEADS, DIG, build, flat_image

BOUNDS = ('the files of C04 with any one number arbitrary, rendered through the Gerber backend in the format of the file; programs of up to '
          '5 objects from a list with one arbitrary coordinate and one arbitrary size')

# strokes (apertures, dots, repeated points, polarity changes) and files with two macros that differ in one place
MORE = ['X#Y#D02*\nX#Y#D01*\nD11*\nX#D01*\nD12*\nY#D01*', 'X#Y#D02*\nD01*\nX#Y#D02*\nX#D01*\nD02*\nD01*', '%LPC*%\nX#Y#D02*\nX#D01*\n%LPD*%\nY#D01*\nG36*\nX#Y#D02*\nX#D01*\nY#D01*\nX#Y#D01*\nG37*',
        '%ADD20R,0.5X@X@*%\n%ADD21R,0.5X@*%\nD20*\nX#Y#D03*\nD21*\nX#D03*', '%ADD20P,1X6X@*%\n%ADD21P,1X6*%\n%ADD22P,1X6X30X@*%\nD20*\nX#Y#D03*\nD21*\nX#D03*\nD22*\nY#D03*',
        'X#Y#D02*\nG02X#Y#I~J~D01*\nG03X#Y#I~J~D01*\nG01*\nX#D01*', '%ADD20C,0.5X@*%\n%ADD21C,0.5X@X@*%\nD20*\nX#Y#D03*\nD21*\nX#D03*\nD20*\nY#D03*',
        'G36*\nX#Y#D02*\nG03X#Y#I~J~D01*\nG01X#D01*\nG37*\nX#Y#D03*\nG36*\nX#Y#D02*\nX#D01*\nY#D01*\nX#Y#D01*\nG37*',
        '%ADD20O,0.5X0.25*%\n%ADD21O,0.25X0.5X0.125*%\nD20*\nX#Y#D02*\nX#D01*\nD21*\nY#D01*\nX#D03*']
ALL = FILES + MORE
# pairs of shapes that are almost the same
MACROS = [('1,1,1,0,0', '1,0,1,0,0'), ('1,1,1.25,@,0', '1,1,1.25,0,@'), ('21,1,1,1,0,0,0', '21,1,1,1,0,0,45'), ('21,1,2,2,0,0,0.5', '21,1,2,2,0,0,0'), ('5,1,4,0,0,2,0', '5,1,4,0,0,2,@'),
          ('5,1,4,0,0,2,0', '5,0,4,0,0,2,0'), ('5,1,6,0,0,2,0', '5,1,5,0,0,2,0'), ('20,1,@,0,0,1,0,0', '20,1,0.5,0,0,1,0,0'), ('20,1,1,0,0,1,0,0', '20,1,1,0,0,1,0,7.5'),
          ('4,1,3,0,0,@,0,0,2,0,0,0', '4,1,3,0,0,1.5,0,0,2,0,0,0'), ('4,1,3,0,0,1,0,0,2,0,0,0', '4,0,3,0,0,1,0,0,2,0,0,0'), ('1,1,1,0,0*21,0,1,2,0,0,0', '1,1,1,0,0*21,0,1,2,0,0,30'),
          ('7,0,0,2,1.5,0.25,0', '7,0,0,2,1.5,0.25,30'), ('1,1,$1,0,0', '1,1,1.5,0,0'), ('1,1,$1,0,0', '1,1,$1x2,0,0'), ('1,1,$1,0,0*1,0,0.25,@,0', '1,1,$1,0,0*1,0,0.25,0,@'),
          ('20,1,1,0,0,0,2,0', '21,1,1,2,0,1,0'), ('1,1,1,0,0*1,1,1,2,0', '1,1,1,2,0*1,1,1,0,0')]


def jobs(tier):
    out = []
    for n, t in enumerate(ALL):
        mac = '$' in t
        for k, c in enumerate(x for x in t if x in '#~@'):
            if mac and c == '@':
                continue
            for h in ([(n + k) % 7] if tier == 'quick' else range(7)):
                out.append(('h_file', dict(file=n, sym=k, head=h, neg=(n + k) % 2 == 0)))
    for n, (a, b) in enumerate(MACROS):
        for o in range(2):
            for h in ([(n + o) % 7] if tier == 'quick' else range(7)):
                out.append(('h_macros', dict(macro=n, swap=o, head=h)))
    for n, way in enumerate((['', ''], ['-', ''], ['', '-'], ['-', '-'])):
        for o in range(2):
            for h in ([(n + o) % 7] if tier == 'quick' else range(7)):
                out.append(('h_quadrant', dict(way=way, swap=o, head=h)))
    # arcs in multi-quadrant (m) and single-quadrant (s) mode in every order
    for n, modes in enumerate(('ss', 'ms', 'sm', 'mm', 'mms', 'msm', 'smm', 'mss', 'sms', 'ssm', 'msms', 'smsm')):
        for h in ([n % 7] if tier == 'quick' else range(7)):
            out.append(('h_quadrant', dict(way=[('', '-')[n % 2], ('', '-')[n // 2 % 2]], swap=n % 3 % 2, head=h, modes=modes)))
    for n in range(9):
        for rot in (0, 90, 30)[n % 3:n % 3 + 1] if tier == 'quick' else (0, 90, 30, -45):
            out.append(('h_group', dict(sym=n, rot=rot, units=('inch', 'metric')[n % 2])))
    for n in range(6):
        for k, pol in enumerate((['dark'], ['clear'], ['dark', 'clear'], ['clear', 'dark'])):
            out.append(('h_loose', dict(sym=n, pol=pol, units=('inch', 'metric')[(n + k) % 2], zs=('leading', 'trailing')[n % 2])))
    return out


def render(sx, f, fmt, zs='leading'):
    ctx = Rs274xContext(FileSettings('absolute', f.units, zs, fmt))
    ctx.set_bounds(f.bounding_box)
    ctx.paint_background()
    ctx.new_render_layer()
    for o in f.primitives:
        ctx.render(o)
    ctx.flatten()
    return ctx.dump().getvalue()


def edges(prims, closed):
    """without the lines of no length that repeat the end of a stroke"""
    out = []
    for x in prims:
        if isinstance(x, Line) and x.start == x.end and (out or closed):
            prev = out[-1] if out else None
            if closed or (not isinstance(prev, Region) and hasattr(prev, 'end') and prev.end == x.start and prev.level_polarity == x.level_polarity and
                          S.flat(S.snap(prev.aperture)) == S.flat(S.snap(x.aperture))):
                continue
        out.append(x)
    return out


def outlook(prims):
    out = []
    for x in edges(prims, False):
        s = S.snap(x)
        if isinstance(x, Region):
            s['kids'] = [S.snap(e) for e in edges(x.primitives, True)]
        out.append(S.flat(s))
    return out


def again(sx, p, text):
    sx.option(general='exact')
    f = rs274x.loads(text)
    t = render(sx, f, DIG[p['head']])
    g = rs274x.loads(t)
    sx.check(g.units == f.units, 'units')
    sx.check(tuple(g.format) == tuple(DIG[p['head']]), 'format')
    a, b = outlook(f.primitives), outlook(g.primitives)
    sx.check(len(a) == len(b), 'number of objects')
    flat_image(sx, a, b)


def h_file(sx, p):
    again(sx, p, build(sx, p, ALL))


def h_macros(sx, p):
    a, b = MACROS[p['macro']]
    if p['swap']:
        a, b = b, a
    v = None
    t = ['', '']
    for n, s in enumerate((a, b)):
        for c in s:
            if c == '@':
                ds = sx.digits('v', 3)
                c = ds[:1] + '.' + ds[1:]
                sx.assume(sx.pos_value(ds, 2) > 0.01)
            t[n] = t[n] + c
    i, d = DIG[p['head']]
    one = '1'.ljust(d + 1, '0') if 'T' not in HEADS[p['head']].split('%FS')[1][:1] else '1'.rjust(i, '0')
    text = (HEADS[p['head']] + '%AMAA*' + t[0] + '*%\n%AMBB*' + t[1] + '*%\n%ADD20AA' + (',1.5' if '$' in a else '') + '*%\n%ADD21BB' +
            (',1.5' if '$' in b else '') + '*%\n%ADD22AA' + (',2.5' if '$' in a else '') + '*%\nD20*\nX0Y0D03*\nD21*\nX' + one + 'D03*\nD22*\nY-' + one +
            'D03*\nD20*\nX-' + one + 'D03*\nD21*\nX0D03*\nM02*\n')
    again(sx, p, text)


def h_quadrant(sx, p):
    """quarter circles of any radius in single quadrant mode"""
    i, d = DIG[p['head']]
    r = sx.digits('v', i + d)
    sx.assume(sx.pos_value(r) > 0)
    zero = '0' * (i + d)
    x, y = p['way']
    s, e = [('X' + x + r + 'Y' + zero, 'X' + zero + 'Y' + y + r), ('X' + zero + 'Y' + y + r, 'X' + x + r + 'Y' + zero)][p['swap']]
    sign = (x, y)[p['swap']]
    ccw = (x == y) != bool(p['swap'])
    body = ''
    for m in p.get('modes', 's'):
        # the offset from the start to the centre has no sign in single quadrant mode
        off = ('I', 'J')[p['swap']] + ('-' if m == 'm' and not sign else '') + r
        body += {'m': 'G75*\n', 's': 'G74*\n'}[m] + s + 'D02*\n' + ('G03' if ccw else 'G02') + e + off + 'D01*\n'
    again(sx, p, HEADS[p['head']] + '%ADD10C,0.1*%\nD10*\n' + body + 'G75*\nM02*\n')


class _Part(object):
    def __init__(self, prims):
        self.prims = prims

    def to_primitive(self, units):
        return self.prims


def h_group(sx, p):
    """a macro put together from shapes"""
    u = p['units']
    v = sx.decimal('v', 1, 3)
    sx.assume(v >= 0.01)
    n = p['sym']
    pol = ('dark', 'clear')
    shapes = [P.Circle((0.5, 1.5 if n else v), v if n == 1 else 0.75, units=u, level_polarity=pol[n % 2]),
              P.Rectangle((v if n == 2 else 1.25, -0.5), v if n == 3 else 2, 1, units=u, rotation=p['rot'], level_polarity=pol[n % 3 == 1]),
              P.Polygon((-1, v if n == 4 else 2), 5, v if n == 5 else 1.5, units=u, rotation=p['rot'], level_polarity=pol[n % 3 == 2])]
    pts = [(0, 0), (v if n == 6 else 3, 0), (1, v if n == 7 else 2), (0, 0)]
    ap = P.Circle((0, 0), 0, units=u)
    shapes.append(P.Outline([P.Line(a, b, ap, units=u) for a, b in zip(pts, pts[1:])], units=u, level_polarity=pol[n % 2]))
    one = P.AMGroup([_Part(shapes)], units=u)
    one.position = (2.5, v if n == 8 else 0.5)
    sx.option(general='exact')
    ctx = Rs274xContext(FileSettings('absolute', u, 'leading', (3, 4)))
    ctx.render(one)
    g = rs274x.loads(ctx.dump().getvalue()).primitives
    sx.check(len(g) == 1 and isinstance(g[0], P.AMGroup), 'one macro')
    sx.same(g[0].position, one.position, 'position')
    sx.check(len(g[0].primitives) == len(one.primitives), 'number of shapes')
    for a, b in zip(one.primitives, g[0].primitives):
        sx.same(b.bounding_box, a.bounding_box, 'extent of the shape', tol=2e-6)
        sx.check(b.level_polarity == a.level_polarity, 'exposure')
        for n in ('diameter', 'sides', 'radius') if not isinstance(a, P.Outline) else ():
            sx.same(getattr(b, n, None), getattr(a, n, None), n)


def h_loose(sx, p):
    """objects that were not read from a file: regions without polarity, any number of uses"""
    u = p['units']
    v = sx.decimal('v', 1, 3)
    n = p['sym']
    ap = P.Circle(None, 0.25, units=u)
    pts = [(1, 1), (v if n == 0 else 2, 1), (2, v if n == 1 else 3), (1, 1)]
    objs = []
    for pol in p['pol']:
        region = P.Region([P.Line(a, b, ap, units=u, level_polarity=None) for a, b in zip(pts, pts[1:])], units=u, level_polarity=pol)
        objs.append(region)
        objs.append(P.Line((0, v if n == 2 else 1), (v if n == 3 else 4, 1), ap, units=u, level_polarity=pol))
        objs.append(P.Circle((v if n == 4 else 1, 1), 0.5, hole_diameter=0.25, units=u, level_polarity=pol))
        objs.append(P.Rectangle((v if n == 5 else 1, 1), 0.5, 0.75, units=u, level_polarity=pol))
    sx.option(general='exact')
    ctx = Rs274xContext(FileSettings('absolute', u, p['zs'], (3, 4)))
    for o in objs:
        ctx.render(o)
    g = rs274x.loads(ctx.dump().getvalue()).primitives
    # edges of a region have its polarity
    for o in objs:
        if isinstance(o, P.Region):
            for e in o.primitives:
                e.level_polarity = o.level_polarity
    a, b = outlook(objs), outlook(g)
    sx.check(len(a) == len(b), 'number of objects')
    sx.check([dict((x[0], x[2]) for x in o if x[0].endswith('level_polarity')) for o in a] ==
             [dict((x[0], x[2]) for x in o if x[0].endswith('level_polarity')) for o in b], 'polarity')
    for s, t in zip(a, b):
        s = [x for x in s if x[1] == 'pt']
        t = [x for x in t if x[1] == 'pt']
        sx.check([x[0] for x in s] == [x[0] for x in t], 'points')
        for x, y in zip(s, t):
            sx.same(y[2], x[2], x[0])
