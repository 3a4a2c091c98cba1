"""C15: bounding boxes of strokes, arcs, contours and groups."""
from gerber import primitives as P
from harness import shapes as S
from harness.c14 import mx

BOUNDS = ('arbitrary real end points, pens, radii (0..50) and centres; arcs in both directions and both quadrant modes with '
          'arbitrary start and end directions; contours and groups of up to 4 members')


def jobs(tier):
    out = [('h_line', dict(ap=a)) for a in ('circle', 'rect', 'obround', 'none')] + [('h_slot', {})]
    for d in ('clockwise', 'counterclockwise'):
        for m in ('multi-quadrant', 'single-quadrant'):
            for a in ('circle', 'rect'):
                out.append(('h_arc', dict(direction=d, mode=m, ap=a)))
        out.append(('h_full', dict(direction=d)))
    for k in (1, 2, 3, 4):
        out.append(('h_union', dict(kind='region', k=k)))
        if k > 1:
            out.append(('h_union', dict(kind='outline', k=k)))
    for k in (1, 2, 3):
        out.append(('h_union', dict(kind='group', k=k)))
    out.append(('h_region_arc', {}))
    out += [('h_line_vertices', dict(axis=a)) for a in ('h', 'v')]
    return out


def half(o):
    return o.width / 2, o.height / 2


def hull(sx, pts):
    return tuple((-mx(sx, *[-q[i] for q in pts]), mx(sx, *[q[i] for q in pts])) for i in (0, 1))


def grow(box, hw, hh):
    return ((box[0][0] - hw, box[0][1] + hw), (box[1][0] - hh, box[1][1] + hh))


def pen(o):
    a = o.aperture
    return (a.diameter / 2, a.diameter / 2) if isinstance(a, P.Circle) else (a.width / 2, a.height / 2)


def h_line(sx, p):
    o = S.line(sx, ap=p['ap'])
    box = hull(sx, [o.start, o.end])
    sx.same(o.bounding_box_no_aperture, box, 'box of the centre line')
    sx.same(o.bounding_box, grow(box, *pen(o)), 'box of the stroke')


def h_slot(sx, p):
    o = S.slot(sx)
    r = o.diameter / 2
    sx.same(o.bounding_box, grow(hull(sx, [o.start, o.end]), r, r), 'box of the slot')


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def swept(sx, a, b, d):
    """does the counterclockwise turn from direction a to b (a full turn when
    they are equal) pass over d?"""
    ab, ad, db = cross(a, b), cross(a, d), cross(d, b)
    small = sx.Or(ab > 0, sx.And(sx.is_same(ab, 0), dot(a, b) < 0))
    full = sx.And(sx.is_same(ab, 0), dot(a, b) > 0)
    within = sx.And(ad >= 0, db >= 0)
    # the complementary turn b -> a is less than half: d is outside iff strictly within it
    bd, da = -db, -ad
    outside = sx.And(bd > 0, da > 0)
    return sx.Or(full, sx.And(small, within), sx.And(sx.Not(small), sx.Not(full), sx.Not(outside)))


def arc_box(sx, c, r, a, b, direction, pts):
    if direction == 'clockwise':
        a, b = b, a
    box = []
    for i in (0, 1):
        e = [(1, 0), (0, 1)][i]
        m = (-e[0], -e[1])
        hi = sx.ite(swept(sx, a, b, e), c[i] + r, mx(sx, pts[0][i], pts[1][i]))
        lo = sx.ite(swept(sx, a, b, m), c[i] - r, -mx(sx, -pts[0][i], -pts[1][i]))
        box.append((lo, hi))
    return tuple(box)


def h_arc(sx, p):
    c = S.pt(sx, 'c')
    r = sx.real('r', 0, S.B, strict=True)
    a, b = sx.unit('u'), sx.unit('v')
    start = (c[0] + r * a[0], c[1] + r * a[1])
    end = (c[0] + r * b[0], c[1] + r * b[1])
    sx.assume(sx.Or(sx.Not(sx.is_same(a[0], b[0])), sx.Not(sx.is_same(a[1], b[1]))))
    if p['mode'] == 'single-quadrant':
        t = cross(a, b)
        sx.assume(sx.And(dot(a, b) >= 0, t < 0 if p['direction'] == 'clockwise' else t > 0))
    o = P.Arc(start, end, c, p['direction'], S.aperture(sx, p['ap'], 'ap', 'metric'), p['mode'],
              level_polarity='dark', units='metric')
    sx.same(o.radius, r, 'radius')
    box = arc_box(sx, c, r, a, b, p['direction'], (start, end))
    sx.same(o.bounding_box_no_aperture, box, 'box of the arc', tol=1e-6)
    sx.same(o.bounding_box, grow(box, *pen(o)), 'box of the stroked arc', tol=1e-6)


def h_full(sx, p):
    c = S.pt(sx, 'c')
    r = sx.real('r', 0, S.B, strict=True)
    a = sx.unit('u')
    start = (c[0] + r * a[0], c[1] + r * a[1])
    o = P.Arc(start, start, c, p['direction'], S.aperture(sx, 'circle', 'ap', 'metric'), 'multi-quadrant', units='metric')
    q = pen(o)[0] + r
    sx.same(o.bounding_box, ((c[0] - q, c[0] + q), (c[1] - q, c[1] + q)), 'box of a full circle', tol=1e-6)
    box = ((c[0] - r, c[0] + r), (c[1] - r, c[1] + r))
    sx.same(o.bounding_box_no_aperture, box, 'box of a full circle without the pen', tol=1e-6)
    g = P.Region([P.Line(c, start, S.aperture(sx, 'none', '', 'metric')), o], level_polarity='dark', units='metric')
    sx.same(g.bounding_box, box, 'box of a contour with a full circle', tol=1e-6)


def h_union(sx, p):
    o = S.ALL[p['kind']](sx, k=p['k'])
    if p['kind'] == 'region':
        boxes = [hull(sx, [m.start, m.end]) for m in o.primitives]
    else:
        boxes = [m.bounding_box for m in o.primitives]
    want = tuple((-mx(sx, *[-b[i][0] for b in boxes]), mx(sx, *[b[i][1] for b in boxes])) for i in (0, 1))
    sx.same(o.bounding_box, want, 'box is the union of the members')


def h_region_arc(sx, p):
    l = S.line(sx)
    a = S.arc(sx)
    o = P.Region([l, a], level_polarity='dark', units='metric')
    boxes = [hull(sx, [l.start, l.end]), a.bounding_box_no_aperture]
    want = tuple((-mx(sx, *[-b[i][0] for b in boxes]), mx(sx, *[b[i][1] for b in boxes])) for i in (0, 1))
    sx.same(o.bounding_box, want, 'box is the union of the members')


def h_line_vertices(sx, p):
    """stroke of a rectangular pen along an axis: a rectangle"""
    s = S.pt(sx, 's')
    d = sx.real('d', 1, S.B)
    e = (s[0] + d, s[1]) if p['axis'] == 'h' else (s[0], s[1] + d)
    w, h = sx.real('w', 1, S.B), sx.real('h', 1, S.B)
    o = P.Line(s, e, P.Rectangle(None, w, h, units='metric'), units='metric')
    got = [tuple(v) for v in o.vertices]
    box = grow(hull(sx, [s, e]), w / 2, h / 2)
    for x in box[0]:
        for y in box[1]:
            sx.check(sx.Or(*[sx.And(sx.is_same(g[0], x), sx.is_same(g[1], y)) for g in got]), 'corners of the stroke')
    for g in got:
        sx.check(sx.Or(*[sx.And(sx.is_same(g[0], x), sx.is_same(g[1], y)) for x in box[0] for y in box[1]]),
                 'only corners of the stroke')
