"""C08: a flashed aperture macro has the shapes its primitives describe."""
from gerber import primitives as P
from gerber.rs274x import GerberParser
from gerber.gerber_statements import AMParamStmt, ADParamStmt, ApertureStmt, CoordStmt
from harness import shapes as S
from harness.c14 import near
import math

BOUNDS = ('every macro primitive the library draws (circle, vector line 2/20, centre line, outline of up to 6 points, polygon of 3..12 '
          'sides, thermal), arbitrary real parameters and rotation, flashed at an arbitrary place in either unit; macros of up to 3 primitives, names given a new body; '
          'circles without rotation; polygons and thermals are rotated only when centred on the macro origin')


def jobs(tier):
    out = []
    for u in ('inch', 'metric'):
        out.append(('h_circle', dict(units=u)))
        out += [('h_vector', dict(units=u, code=c, rotated=r)) for c in (2, 20) for r in (False, True)]
        out += [('h_center', dict(units=u, rotated=r)) for r in (False, True)]
        out += [('h_outline', dict(units=u, n=n, rotated=r)) for n in (3, 4, 6) for r in (False, True)]
        out += [('h_polygon', dict(units=u, n=n, rotated=r)) for n in range(3, 13) for r in (False, True)
                if tier != 'quick' or u == 'inch' or n in (3, 7)]
        out += [('h_thermal', dict(units=u, rotated=r)) for r in (False, True)
                if tier != 'quick' or u == 'metric' or not r]
    out += [('h_mixed', dict(order=o)) for o in range(6)] + [('h_repeat', {})]
    out += [('h_redefine', dict(new=n, early=e)) for n in (0, 1) for e in (False, True)]
    return out


def flash(sx, units, macro, params, pos=None, more=()):
    p = GerberParser()
    sx.option(general='exact')
    from gerber.gerber_statements import MOParamStmt
    p.evaluate(MOParamStmt('MO', units))
    am = AMParamStmt('AM', 'MACR', macro)
    am.units = units
    p.evaluate(am)
    p.evaluate(ADParamStmt('AD', 10, 'MACR', (tuple(params),)))
    p.evaluate(ApertureStmt(10))
    pos = S.pt(sx, 'flash') if pos is None else pos
    p.evaluate(CoordStmt(None, pos[0], pos[1], None, None, 'D03', None))
    for q in more:
        p.evaluate(CoordStmt(None, q[0], q[1], None, None, 'D03', None))
    return p, pos


def members(sx, p, units, k=1):
    sx.check(len(p.primitives) == k, 'one object per flash')
    g = p.primitives[-1]
    sx.check(isinstance(g, P.AMGroup) and g.units == units, 'a group in the units of the file')
    return g.primitives


def pol(sx, o, e):
    sx.check(o.level_polarity == ('dark' if e == 1 else 'clear'), 'exposure')


def at(pos, q):
    return (pos[0] + q[0], pos[1] + q[1])


def turn(sx, a, q):
    c, s = sx.cossin_deg(a)
    return (c * q[0] - s * q[1], s * q[0] + c * q[1])


def contour(sx, o, units):
    sx.check(isinstance(o, P.Outline) and o.units == units, 'an outline in the units of the file')
    ls = o.primitives
    sx.check(all(isinstance(l, P.Line) and l.units == units for l in ls), 'made of lines')
    for a, b in zip(ls, ls[1:] + ls[:1]):
        sx.same(tuple(a.end), tuple(b.start), 'the outline is connected and closed')
    return [tuple(l.end) for l in ls]


def cycle(sx, got, want, label):
    """same closed chain of corners, up to starting point and direction"""
    sx.check(len(got) == len(want), label)
    n = len(want)
    opts = []
    for k in range(n):
        for d in (1, -1):
            opts.append(sx.And(*[near(sx, got[i], want[(k + d * i) % n]) for i in range(n)]))
    sx.check(sx.Or(*opts), label)


def h_circle(sx, p):
    e = sx.choice('e', [1, 0])
    d, c = S.size(sx, 'd'), S.pt(sx, 'c')
    g, pos = flash(sx, p['units'], '1,$1,$2,$3,$4*', [e, d, c[0], c[1]])
    o, = members(sx, g, p['units'])
    sx.check(isinstance(o, P.Circle), 'a disc')
    sx.same(o.position, at(pos, c), 'centre')
    sx.same(o.diameter, d, 'diameter')
    pol(sx, o, e)
    sx.check(o.units == p['units'], 'units')


def h_vector(sx, p):
    e = sx.choice('e', [1, 0])
    w, s = S.size(sx, 'w'), S.pt(sx, 's')
    ln, (ux, uy) = sx.real('len', 0, S.B, strict=True), sx.unit('u')
    f = (s[0] + ln * ux, s[1] + ln * uy)
    a = sx.angle('a') if p['rotated'] else 0
    g, pos = flash(sx, p['units'], '%d,$1,$2,$3,$4,$5,$6,$7*' % p['code'], [e, w, s[0], s[1], f[0], f[1], a])
    o, = members(sx, g, p['units'])
    pol(sx, o, e)
    n = (-uy * w / 2, ux * w / 2)
    want = [(s[0] + n[0], s[1] + n[1]), (s[0] - n[0], s[1] - n[1]), (f[0] - n[0], f[1] - n[1]), (f[0] + n[0], f[1] + n[1])]
    cycle(sx, contour(sx, o, p['units']), [at(pos, turn(sx, a, q)) for q in want], 'rectangle along the line')


def h_center(sx, p):
    """documented to turn about its own centre"""
    e = sx.choice('e', [1, 0])
    w, h, c = S.size(sx, 'w'), S.size(sx, 'h'), S.pt(sx, 'c')
    a = sx.angle('a') if p['rotated'] else 0
    g, pos = flash(sx, p['units'], '21,$1,$2,$3,$4,$5,$6*', [e, w, h, c[0], c[1], a])
    o, = members(sx, g, p['units'])
    pol(sx, o, e)
    want = [at(at(pos, c), turn(sx, a, q)) for q in ((-w / 2, -h / 2), (-w / 2, h / 2), (w / 2, h / 2), (w / 2, -h / 2))]
    cycle(sx, contour(sx, o, p['units']), want, 'rectangle about the centre')


def h_outline(sx, p):
    e = sx.choice('e', [1, 0])
    n = p['n']
    pts = [S.pt(sx, 'p%d' % i) for i in range(n)]
    a = sx.angle('a') if p['rotated'] else 0
    flat = [v for q in pts + pts[:1] for v in q]
    macro = '4,$1,%d,%s,$%d*' % (n, ','.join('$%d' % (2 + i) for i in range(len(flat))), 2 + len(flat))
    g, pos = flash(sx, p['units'], macro, [e] + flat + [a])
    o, = members(sx, g, p['units'])
    pol(sx, o, e)
    got = contour(sx, o, p['units'])
    want = [at(pos, turn(sx, a, q)) for q in pts[1:] + pts[:1]]
    sx.check(len(got) == n, 'number of corners')
    # lines run through the points in order
    sx.check(sx.And(*[near(sx, x, y) for x, y in zip(got, want)]), 'corners of the outline')


def h_polygon(sx, p):
    e = sx.choice('e', [1, 0])
    n, d = p['n'], S.size(sx, 'd')
    c, a = ((0, 0), sx.angle('a')) if p['rotated'] else (S.pt(sx, 'c'), 0)
    g, pos = flash(sx, p['units'], '5,$1,$2,$3,$4,$5,$6*', [e, n, c[0], c[1], d, a])
    o, = members(sx, g, p['units'])
    pol(sx, o, e)
    sx.check(isinstance(o, P.Polygon) and o.sides == n and o.units == p['units'], 'a polygon')
    sx.same(o.position, at(pos, c), 'centre')
    sx.same(o.radius, d / 2, 'radius')
    sx.same(o.rotation, a, 'rotation')


def h_thermal(sx, p):
    c, a = ((0, 0), sx.angle('a')) if p['rotated'] else (S.pt(sx, 'c'), 0)
    do, di, gap = sx.real('do', 0.1, S.B), sx.real('di', 0.1, S.B), sx.real('gap', 0, S.B, strict=True)
    # the gap leaves material on the inner circle
    sx.assume(sx.And(di < do, gap * 1.5 < di))
    g, pos = flash(sx, p['units'], '7,$1,$2,$3,$4,$5,$6*', [c[0], c[1], do, di, gap, a])
    quads = members(sx, g, p['units'])
    sx.check(len(quads) == 4, 'four pieces')
    m = at(pos, c)
    ca, sa = sx.cossin_deg(a)
    h = gap / 2
    e = 1e-6
    for k, o in enumerate(quads):
        sx.check(o.level_polarity == 'dark', 'exposure')
        got = contour(sx, o, p['units'])
        # seen from the centre, unrotated, and turned back into the first quadrant
        rel = []
        for q in got:
            x, y = q[0] - m[0], q[1] - m[1]
            x, y = ca * x + sa * y, ca * y - sa * x
            for _ in range(k):
                x, y = y, -x
            rel.append((x, y))
        sx.check(len(rel) >= 4, 'corners')
        corners = []
        for q in rel:
            r2 = q[0] * q[0] + q[1] * q[1]
            i, u = r2 * 4 - di * di, r2 * 4 - do * do
            sx.check(sx.Or(sx.And(i < e, i > -e), sx.And(u < e, u > -e)), 'points lie on the two circles')
        for d in (di, do):
            for f in ((0, 1), (1, 0)):
                sx.check(sx.Or(*[sx.And(q[f[0]] - h < e, h - q[f[0]] < e,
                                        (q[0] * q[0] + q[1] * q[1]) * 4 - d * d < e,
                                        d * d - (q[0] * q[0] + q[1] * q[1]) * 4 < e) for q in rel]), 'pieces reach the gap')


def h_mixed(sx, p):
    """several primitives in one macro keep their order; comments draw nothing"""
    d, c = S.size(sx, 'd'), S.pt(sx, 'c')
    w, h = S.size(sx, 'w'), S.size(sx, 'h')
    parts = {'c': '1,1,$1,$2,$3*', 'r': '21,0,$4,$5,$2,$3,0*', 'p': '5,1,6,$2,$3,$1,0*'}
    order = ['crp', 'cpr', 'rcp', 'rpc', 'pcr', 'prc'][p['order']]
    macro = '0 some note*' + parts[order[0]] + parts[order[1]] + '0 other*' + parts[order[2]]
    g, pos = flash(sx, 'metric', macro, [d, c[0], c[1], w, h])
    ms = members(sx, g, 'metric')
    sx.check(len(ms) == 3, 'three members')
    for k, o in zip(order, ms):
        if k == 'c':
            sx.check(isinstance(o, P.Circle) and o.level_polarity == 'dark', 'disc')
            sx.same((o.diameter, o.position), (d, at(pos, c)), 'disc')
        elif k == 'p':
            sx.check(isinstance(o, P.Polygon) and o.sides == 6, 'hexagon')
            sx.same((o.radius, o.position), (d / 2, at(pos, c)), 'hexagon')
        else:
            sx.check(o.level_polarity == 'clear', 'exposure')
            got = contour(sx, o, 'metric')
            cycle(sx, got, [at(at(pos, c), q) for q in ((-w / 2, -h / 2), (-w / 2, h / 2), (w / 2, h / 2), (w / 2, -h / 2))], 'rectangle')


def h_repeat(sx, p):
    """one macro used by two apertures, flashed several times"""
    q = GerberParser()
    sx.option(general='exact')
    q.evaluate(AMParamStmt('AM', 'MACR', '1,1,$1,$2,$3*'))
    a, b = S.pt(sx, 'a'), S.pt(sx, 'b')
    d, e = S.size(sx, 'd'), S.size(sx, 'e')
    q.evaluate(ADParamStmt('AD', 10, 'MACR', ((d, a[0], a[1]),)))
    q.evaluate(ADParamStmt('AD', 11, 'MACR', ((e, b[0]),)))
    at_ = [S.pt(sx, 'f%d' % i) for i in range(3)]
    for n, f in zip((10, 11, 10), at_):
        q.evaluate(ApertureStmt(n))
        q.evaluate(CoordStmt(None, f[0], f[1], None, None, 'D03', None))
    want = [(d, at(at_[0], a)), (e, at(at_[1], (b[0], 0))), (d, at(at_[2], a))]
    sx.check(len(q.primitives) == 3, 'one object per flash')
    for o, (dd, c) in zip(q.primitives, want):
        m, = o.primitives
        sx.same((m.diameter, m.position), (dd, c), 'each flash uses its own parameters')


def h_redefine(sx, p):
    """a macro name that is given a new body: apertures keep the body they were defined with"""
    d, c = S.size(sx, 'd'), S.pt(sx, 'c')
    q = GerberParser()
    sx.option(general='exact')
    at_ = [S.pt(sx, 'f%d' % i) for i in range(3)]
    new = ('1,0,$1,$2,$3*', '5,1,4,$2,$3,$1,0*')[p['new']]
    q.evaluate(AMParamStmt('AM', 'MACR', '1,1,$1,$2,$3*'))
    q.evaluate(ADParamStmt('AD', 10, 'MACR', ((d, c[0], c[1]),)))
    if p['early']:
        q.evaluate(ApertureStmt(10))
        q.evaluate(CoordStmt(None, at_[0][0], at_[0][1], None, None, 'D03', None))
    q.evaluate(AMParamStmt('AM', 'MACR', new))
    q.evaluate(ADParamStmt('AD', 11, 'MACR', ((d, c[0], c[1]),)))
    for n, f in ([] if p['early'] else [(10, at_[0])]) + [(11, at_[1]), (10, at_[2])]:
        q.evaluate(ApertureStmt(n))
        q.evaluate(CoordStmt(None, f[0], f[1], None, None, 'D03', None))
    sx.check(len(q.primitives) == 3, 'one object per flash')
    for n, (o, f) in enumerate(zip(q.primitives, at_)):
        m, = o.primitives
        sx.same(m.position, at(f, c), 'place')
        if n == 1:
            sx.check(type(m) is (P.Circle, P.Polygon)[p['new']] and m.level_polarity == ('clear', 'dark')[p['new']], 'new body')
        else:
            sx.check(type(m) is P.Circle and m.level_polarity == 'dark', 'body of the time of definition')
            sx.same(m.diameter, d, 'diameter')
