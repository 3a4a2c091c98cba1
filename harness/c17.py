"""C17: arcs keep the centre, radius and sweep the coordinates denote."""
from gerber import primitives as P
from gerber.rs274x import GerberParser
from gerber.gerber_statements import (CoordStmt, ADParamStmt, ApertureStmt, QuadrantModeStmt, RegionModeStmt)
from harness import shapes as S
from harness.c15 import cross, dot
import math

BOUNDS = ('arcs of any real radius up to 50, any centre, any start and end direction, both directions of travel, '
          'inside and outside contours, with the mode and the direction set before or inside them; single-quadrant arcs: any radius and centre, 20 exact start directions, every sweep among them up to 90 degrees')


def jobs(tier):
    out = []
    for f in ('G02', 'G03'):
        for reg in (False, True):
            for how in ('before', 'inside', 'late'):
                out.append(('h_multi', dict(f=f, region=reg, how=how)))
                if how != 'before':
                    out += [('h_single', dict(f=f, region=reg, a=a, b=(a + n if f == 'G03' else a + 20 - n), how=how)) for a, n in ((1, 5), (8, 3), (15, 4))]
            for a in range(20):
                for n in range(1, 6):
                    if tier == 'quick' and reg and n != 3:
                        continue
                    out.append(('h_single', dict(f=f, region=reg, a=a, b=a + n if f == 'G03' else a + 20 - n)))
        out += [('h_zero', dict(f=f, region=reg, a=a)) for reg in (False, True) for a in range(0, 20, 3)]
        out.append(('h_sweep', dict(f=f)))
        out += [('h_axis', dict(f=f, k=k)) for k in range(4)]
    out += [('h_missing', dict(f=f, which=w)) for f in ('G02', 'G3') for w in ('i', 'j', 'x', 'y')]
    return out


def run(mode, f, start, end, ij, region, how='before'):
    """how: the mode is set before the contour, inside it, or after the move,
    and with the direction in a command of its own"""
    p = GerberParser()
    other = 'single-quadrant' if mode == 'multi-quadrant' else 'multi-quadrant'
    p.evaluate(ADParamStmt.circle(10, 0.1))
    p.evaluate(ApertureStmt(10))
    p.evaluate(QuadrantModeStmt(mode if how == 'before' else other))
    if region:
        p.evaluate(RegionModeStmt('on'))
    if how == 'inside':
        p.evaluate(QuadrantModeStmt(mode))
    p.evaluate(CoordStmt('G01', start[0], start[1], None, None, 'D02', None))
    if how == 'late':
        p.evaluate(CoordStmt(f, None, None, None, None, None, None))
        p.evaluate(QuadrantModeStmt(mode))
    p.evaluate(CoordStmt(f if how != 'late' else None, end[0], end[1], ij[0], ij[1], 'D01', None))
    if region:
        p.evaluate(RegionModeStmt('off'))
        return p.primitives[-1].primitives[-1]
    return p.primitives[-1]


def check(sx, a, f, start, end, centre):
    sx.check(isinstance(a, P.Arc), 'an arc is drawn')
    sx.same(a.center, centre, 'centre')
    sx.same(a.start, start, 'start point')
    sx.same(a.end, end, 'end point')
    sx.check(a.direction == ('clockwise' if f in ('G02', 'G2') else 'counterclockwise'), 'direction')


def h_multi(sx, p):
    start, end, ij = S.pt(sx, 's'), S.pt(sx, 'e'), S.pt(sx, 'o')
    a = run('multi-quadrant', p['f'], start, end, ij, p['region'], p.get('how', 'before'))
    c = (start[0] + ij[0], start[1] + ij[1])
    check(sx, a, p['f'], start, end, c)
    r = a.radius
    sx.check(r >= 0, 'radius')
    sx.same(r * r, ij[0] * ij[0] + ij[1] * ij[1], 'radius')


# exact unit vectors, in order of angle
_Q = [(1.0, 0.0), (0.96, 0.28), (0.8, 0.6), (0.6, 0.8), (0.28, 0.96)]
DIRS = _Q + [(-y, x) for x, y in _Q] + [(-x, -y) for x, y in _Q] + [(y, -x) for x, y in _Q]


def h_single(sx, p):
    """any radius and centre, start in one of 20 directions, every end within 90
    degrees among them"""
    c = S.pt(sx, 'c')
    r = sx.real('r', 0.001, S.B)
    a, b = DIRS[p['a']], DIRS[p['b'] % 20]
    start = (c[0] + r * a[0], c[1] + r * a[1])
    end = (c[0] + r * b[0], c[1] + r * b[1])
    ij = (r * abs(a[0]), r * abs(a[1]))
    arc = run('single-quadrant', p['f'], start, end, ij, p['region'], p.get('how', 'before'))
    sx.check(arc.center is not None, 'a centre is found')
    check(sx, arc, p['f'], start, end, c)


def h_zero(sx, p):
    """a single-quadrant arc that ends where it starts has no length"""
    c = S.pt(sx, 'c')
    r = sx.real('r', 0.001, S.B)
    a = DIRS[p['a']]
    start = (c[0] + r * a[0], c[1] + r * a[1])
    arc = run('single-quadrant', p['f'], start, start, (r * abs(a[0]), r * abs(a[1])), p['region'])
    sx.check(arc.center is not None, 'a centre is found')
    q = (arc.center[0] - start[0], arc.center[1] - start[1])
    sx.same(q[0] * q[0] + q[1] * q[1], r * r, 'radius')
    check(sx, arc, p['f'], start, start, arc.center)


def h_sweep(sx, p):
    """0 < sweep < 360 degrees and turning the start direction by it gives the
    end direction"""
    c = S.pt(sx, 'c')
    r = sx.real('r', 0, S.B, strict=True)
    a, b = sx.unit('u'), sx.unit('v')
    start = (c[0] + r * a[0], c[1] + r * a[1])
    end = (c[0] + r * b[0], c[1] + r * b[1])
    ccw = p['f'] == 'G03'
    sx.assume(sx.Or(cross(a, b) > 0.001, cross(a, b) < -0.001, dot(a, b) < 0))
    o = P.Arc(start, end, c, 'counterclockwise' if ccw else 'clockwise', P.Circle(None, 1), 'multi-quadrant', units='inch')
    t0, t1 = o.start_angle, o.end_angle
    s = o.sweep_angle
    two = 2 * math.pi
    d = t1 - t0 if ccw else t0 - t1
    sx.check(sx.And(s > 0, s < two), 'sweep is between zero and a full turn')
    e = 1e-7
    sx.check(sx.Or(*[sx.And(s - d - k * two < e, d + k * two - s < e) for k in (-1, 0, 1, 2)]), 'sweep leads from start to end')
    half = cross(a, b) > 0 if ccw else cross(a, b) < 0
    sx.check(sx.Implies(half, s < math.pi), 'arcs shorter than half a turn')
    sx.check(sx.Implies(sx.Not(half), s >= math.pi - e), 'arcs of half a turn and more')


def h_axis(sx, p):
    """angles of the four axis directions"""
    r = sx.real('r', 0.001, S.B)
    d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    k = p['k']
    c = S.pt(sx, 'c')
    for n in (1, 2, 3):
        s, e = d[k], d[(k + n) % 4]
        o = P.Arc((c[0] + r * s[0], c[1] + r * s[1]), (c[0] + r * e[0], c[1] + r * e[1]), c,
                  'counterclockwise' if p['f'] == 'G03' else 'clockwise', P.Circle(None, 1), 'multi-quadrant')
        want = n if p['f'] == 'G03' else 4 - n
        sx.same(o.sweep_angle, want * math.pi / 2, 'quarter turns')
        sx.same(o.start_angle % (2 * math.pi), k * math.pi / 2, 'start angle')


def h_missing(sx, p):
    """omitted offsets are zero, omitted coordinates keep their value"""
    start, end, ij = S.pt(sx, 's'), list(S.pt(sx, 'e')), list(S.pt(sx, 'o'))
    w = p['which']
    sent_e, sent_o = list(end), list(ij)
    if w in 'ij':
        sent_o['ij'.index(w)] = None
        ij['ij'.index(w)] = 0
    else:
        sent_e['xy'.index(w)] = None
        end['xy'.index(w)] = start['xy'.index(w)]
    a = run('multi-quadrant', p['f'], start, sent_e, sent_o, False)
    check(sx, a, p['f'], start, tuple(end), (start[0] + ij[0], start[1] + ij[1]))
