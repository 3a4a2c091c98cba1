"""C06: aperture definitions give the shape, sizes, hole and units they state."""
from gerber import primitives as P
from gerber import rs274x
from harness import shapes as S

BOUNDS = ('standard apertures C, R, O, P with every number of modifiers, in 6 spellings of arbitrary decimal numbers (up to 2+3 digits), '
          'inch and millimetre files; D-codes of 2 to 4 digits; redefinition; apertures taken from macros with 9 names; pens of strokes')

FORMS = ('d.ddd', '.ddd', 'dd', 'd.', '0.0d', 'dd.d')
SHAPES = [('C', 1), ('C', 2), ('C', 3), ('R', 2), ('R', 3), ('R', 4), ('O', 2), ('O', 3), ('O', 4)]
NAMES = ['CIRC', 'RECT1', 'OVAL', 'POLY', 'MACRO', 'R0', 'R.1', 'P_x', '$om', 'Thermal-2', 'CR2', 'ab+c']


def jobs(tier):
    out = []
    for s, n in SHAPES:
        for u in ('inch', 'metric'):
            for k in range(6):
                out.append(('h_shape', dict(shape=s, n=n, units=u, form=k)))
    for u in ('inch', 'metric'):
        for n in (2, 3, 4, 5):
            for sides in (3, 6, 12) if tier == 'quick' else range(3, 13):
                for k in range(6):
                    out.append(('h_polygon', dict(n=n, sides=sides, units=u, form=k)))
        for d in (10, 11, 99, 123, 1000):
            out.append(('h_code', dict(d=d, units=u)))
        for name in NAMES:
            for k in (0, 1, 3):
                out.append(('h_macro', dict(name=name, k=k, units=u)))
        out += [('h_redefine', dict(units=u, a=a, b=b)) for a in 'CROP' for b in 'CROP']
        out += [('h_stroke', dict(units=u, shape=s, region=r)) for s in 'CRO' for r in (False, True)]
    return out


def num(sx, name, form):
    d = form.count('d')
    ds = sx.digits(name, d)
    cs = sx.chars(ds)
    txt, val, point = '', '', None
    for c in form:
        if c == 'd':
            c = cs.pop(0)
        txt = txt + c
    # value from the characters after dropping the point
    i = form.index('.') if '.' in form else len(form)
    digs = ''
    cs = sx.chars(ds)
    for c in form:
        if c == 'd':
            digs = digs + cs.pop(0)
        elif c == '0':
            digs = digs + '0'
    return txt, sx.pos_value(digs, len(form) - i - 1 if '.' in form else 0)


def header(u):
    return '%FSLAX25Y25*%\n%MO' + ('MM' if u == 'metric' else 'IN') + '*%\n'


def nums(sx, n, k, first=()):
    out = list(first)
    for i in range(len(first), n):
        out.append(num(sx, 'm%d' % i, FORMS[(k + i) % 6]))
    return 'X'.join([]) if not out else join([t for t, _ in out]), [v for _, v in out]


def join(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r + 'X' + t
    return r


def one(sx, text, u, n=1):
    f = rs274x.loads(text)
    sx.check(f.units == u, 'units of the file')
    sx.check(len(f.primitives) == n, 'one object per operation')
    for p in f.primitives:
        sx.check(p.units == u, 'units')
    return f.primitives


def hole(sx, o, ms):
    """ms: modifiers after the size"""
    if len(ms) == 1:
        sx.same(o.hole_diameter, ms[0], 'round hole')
        sx.same((o.hole_width, o.hole_height), (0, 0), 'no rectangular hole')
    elif len(ms) == 2:
        sx.same((o.hole_width, o.hole_height), (ms[0], ms[1]), 'rectangular hole')
        sx.same(o.hole_diameter or 0, 0, 'no round hole')
    else:
        sx.same((o.hole_diameter or 0, o.hole_width, o.hole_height), (0, 0, 0), 'no hole')


def shape(sx, o, s, v):
    if s == 'C':
        sx.check(type(o) is P.Circle, 'a circle')
        sx.same(o.diameter, v[0], 'diameter')
        hole(sx, o, v[1:])
    elif s == 'P':
        sx.check(type(o) is P.Polygon, 'a polygon')
        sx.same(o.radius, v[0] / 2, 'outer diameter')
        sx.same(o.sides, v[1], 'number of vertices')
        sx.same(o.rotation, v[2] if len(v) > 2 else 0, 'rotation')
        hole(sx, o, v[3:])
    else:
        sx.check(type(o) is {'R': P.Rectangle, 'O': P.Obround}[s], 'shape')
        sx.same((o.width, o.height), (v[0], v[1]), 'size')
        sx.same(o.rotation, 0, 'not rotated')
        hole(sx, o, v[2:])


def place(sx):
    x, y = sx.digits('x', 5), sx.digits('y', 6)
    return 'X' + x + 'Y-' + y, (sx.pos_value(x, 5), -sx.pos_value(y, 5))


def h_shape(sx, p):
    t, v = nums(sx, p['n'], p['form'])
    xy, q = place(sx)
    o, = one(sx, header(p['units']) + '%ADD17' + p['shape'] + ',' + t + '*%\nD17*\n' + xy + 'D03*\nM02*\n', p['units'])
    shape(sx, o, p['shape'], v)
    sx.same(o.position, q, 'place')
    sx.check(o.level_polarity == 'dark', 'polarity')


def h_polygon(sx, p):
    k = p['form']
    n = p['n']
    first = [num(sx, 'm0', FORMS[k]), (str(p['sides']) + ('' if k % 2 else '.0'), p['sides'])]
    if n > 2:
        t, val = num(sx, 'rot', 'dd.d')
        neg = k % 3 == 0
        first.append((('-' if neg else '') + t, -val if neg else val))
    t, v = nums(sx, n, k, first)
    xy, q = place(sx)
    o, = one(sx, header(p['units']) + '%ADD17P,' + t + '*%\nD17*\n' + xy + 'D03*\nM02*\n', p['units'])
    shape(sx, o, 'P', v)
    sx.same(o.position, q, 'place')


def h_code(sx, p):
    """two apertures whose codes share digits"""
    d = p['d']
    t, v = num(sx, 'a', 'd.ddd')
    t2, v2 = num(sx, 'b', '.ddd')
    other = int(str(d) + '0')
    text = (header(p['units']) + '%ADD' + str(d) + 'C,' + t + '*%\n%ADD' + str(other) + 'C,' + t2 + '*%\n')
    text = text + 'G54D' + str(other) + '*\nX0Y0D03*\nD' + str(d) + '*\nX0Y0D03*\nM02*\n'
    a, b = one(sx, text, p['units'], 2)
    sx.same((a.diameter, b.diameter), (v2, v), 'each code selects its own aperture')


def h_macro(sx, p):
    """macro apertures are found by name; absent parameters are zero"""
    sx.option(general='exact')
    vs = [num(sx, 'm%d' % i, FORMS[(i + 1) % 6]) for i in range(p['k'])]
    text = header(p['units']) + '%AM' + p['name'] + '*1,1,$1,$2,$3*%\n%ADD10' + p['name']
    if vs:
        text = text + ',' + join([t for t, _ in vs])
    xy, q = place(sx)
    o, = one(sx, text + '*%\nD10*\n' + xy + 'D03*\nM02*\n', p['units'])
    v = [v for _, v in vs] + [0, 0, 0]
    sx.check(type(o) is P.AMGroup, 'a macro')
    m, = o.primitives
    sx.same(m.diameter, v[0], 'first parameter')
    sx.same(m.position, (q[0] + v[1], q[1] + v[2]), 'place of the members')
    sx.same(o.position, q, 'place')
    sx.check(m.units == p['units'], 'units')


def h_redefine(sx, p):
    """a later definition replaces the earlier one for what follows"""
    def part(s, n):
        if s == 'C':
            t, v = num(sx, n, 'd.ddd')
            return t, [v]
        a, b = num(sx, n, 'd.ddd'), num(sx, n + 'b', '.ddd')
        if s == 'P':
            b = ('7', 7)
        return a[0] + 'X' + b[0], [a[1], b[1]]
    t, v = part(p['a'], 'a')
    t2, v2 = part(p['b'], 'c')
    text = header(p['units']) + '%ADD10' + p['a'] + ',' + t + '*%\nD10*\nX0Y0D03*\n%ADD10' + p['b'] + ',' + t2 + '*%\nX0Y0D03*\nM02*\n'
    a, b = one(sx, text, p['units'], 2)
    shape(sx, a, p['a'], v)
    shape(sx, b, p['b'], v2)


def h_stroke(sx, p):
    t, v = nums(sx, 1 if p['shape'] == 'C' else 2, 2)
    xy, q = place(sx)
    on, off = ('G36*\n', 'G37*\n') if p['region'] else ('', '')
    o, = one(sx, header(p['units']) + '%ADD17' + p['shape'] + ',' + t + '*%\nD17*\n' + on + xy + 'D01*\n' + off + 'M02*\n', p['units'])
    if p['region']:
        o, = o.primitives
    shape(sx, o.aperture, p['shape'], v)
    sx.check(o.aperture.units == p['units'], 'units of the pen')
