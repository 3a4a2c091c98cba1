"""C14: the bounding box of a flashed shape encloses it, tightly where stated."""
from harness import shapes as S

BOUNDS = ('all flashed shapes, arbitrary real position, sizes (0..50) and rotation (-360..360 degrees); polygons of 3..12 sides; '
          'rotated obrounds, chamfered, rounded rectangles and diamonds: enclosure only')


def jobs(tier):
    out = [('h_round', dict(kind=k)) for k in ('circle', 'drill', 'butterfly')]
    for k in ('rectangle', 'obround', 'chamfer', 'roundrect', 'diamond'):
        for r in (False, True):
            out.append(('h_box', dict(kind=k, rotated=r)))
    out += [('h_chamfer_corners', dict(mask=m)) for m in range(16)]
    out += [('h_polygon', dict(sides=n, rotated=r)) for n in range(3, 13) for r in (False, True)]
    out += [('h_ellipse', dict(rotated=r)) for r in (False, True)]
    out += [('h_square', dict(kind=k)) for k in ('sqbutterfly', 'sqdonut', 'donut:round', 'donut:square', 'donut:octagon', 'donut:hexagon')]
    out += [('h_obround_parts', {})]
    out += [('h_rect_corners', dict(kind=k)) for k in ('rectangle', 'diamond', 'chamfer')]
    return out


def box_about(c, hw, hh):
    return ((c[0] - hw, c[0] + hw), (c[1] - hh, c[1] + hh))


def inside(sx, box, q, label):
    e = 1e-9
    sx.check(sx.And(q[0] >= box[0][0] - e, q[0] <= box[0][1] + e, q[1] >= box[1][0] - e, q[1] <= box[1][1] + e), label)


def mx(sx, *vs):
    m = vs[0]
    for v in vs[1:]:
        m = sx.ite(v > m, v, m)
    return m


def turn(c, s, v):
    return (c * v[0] - s * v[1], s * v[0] + c * v[1])


def h_round(sx, p):
    o = S.ALL[p['kind']](sx)
    r = o.diameter / 2
    sx.same(o.bounding_box, box_about(o.position, r, r), 'box of a disc')
    sx.same(o.bounding_box_no_aperture, o.bounding_box, 'box without pen')


def h_box(sx, p):
    """extent in x (and y) of the rotated shape, from its corners / lobes"""
    o = S.ALL[p['kind']](sx, rotated=p['rotated'])
    c, s = sx.cossin_deg(o.rotation)
    w, h, pos = o.width / 2, o.height / 2, o.position
    box = o.bounding_box
    corners = [turn(c, s, (a * w, b * h)) for a in (1, -1) for b in (1, -1)]
    full = [mx(sx, *[v[i] for v in corners]) for i in (0, 1)]
    cx = ((box[0][0] + box[0][1]) / 2, (box[1][0] + box[1][1]) / 2)
    sx.same(cx, pos, 'box is centred on the shape')
    if p['kind'] == 'rectangle' or not p['rotated']:
        sx.same(box, box_about(pos, full[0], full[1]), 'box touches the shape on every side')
        return
    if p['kind'] == 'obround':
        d = mx(sx, w - h, h - w)
        r = sx.ite(w < h, w, h)
        vx, vy = sx.ite(w < h, -s, c), sx.ite(w < h, c, s)
        need = [mx(sx, d * vx, -d * vx) + r, mx(sx, d * vy, -d * vy) + r]
    elif p['kind'] == 'diamond':
        need = [mx(sx, w * c, -w * c, h * s, -h * s), mx(sx, w * s, -w * s, h * c, -h * c)]
    elif p['kind'] == 'roundrect':
        r = o.radius
        inner = [turn(c, s, (a * (w - r), b * (h - r))) for a in (1, -1) for b in (1, -1)]
        # three of the four corners are rounded; the square one may reach out
        need = [mx(sx, *[v[i] for v in inner]) + r for i in (0, 1)]
    else:
        k = o.chamfer
        pts = [turn(c, s, (a * (w - k), b * h)) for a in (1, -1) for b in (1, -1)] + \
              [turn(c, s, (a * w, b * (h - k))) for a in (1, -1) for b in (1, -1)]
        need = [mx(sx, *[v[i] for v in pts]) for i in (0, 1)]
    for i in (0, 1):
        got = (box[i][1] - box[i][0]) / 2
        sx.check(got >= need[i] - 1e-9, 'box encloses the shape')
        sx.check(got <= full[i] + 1e-9, 'box is no larger than that of the enclosing rectangle')


def h_rect_corners(sx, p):
    o = S.ALL[p['kind']](sx, rotated=True)
    c, s = sx.cossin_deg(o.rotation)
    w, h, pos = o.width / 2, o.height / 2, o.position
    if p['kind'] == 'rectangle':
        want = [(-w, -h), (-w, h), (w, h), (w, -h)]
    elif p['kind'] == 'diamond':
        want = [(0, h), (w, 0), (0, -h), (-w, 0)]
    else:
        k = o.chamfer
        want = [(w - k, h), (w, h - k), (k - w, h), (-w, h - k), (-w, -h), (w - k, -h), (w, k - h)]
    corners(sx, o, [(pos[0] + q[0], pos[1] + q[1]) for q in [turn(c, s, v) for v in want]])


def corners(sx, o, want):
    got = [tuple(v) for v in o.vertices]
    sx.check(len(got) == len(want), 'number of corners')
    for q in want:
        sx.check(sx.Or(*[near(sx, g, q) for g in got]), 'every corner is listed')
    for g in got:
        sx.check(sx.Or(*[near(sx, g, q) for q in want]), 'only corners are listed')


def near(sx, a, b):
    e = 1e-7
    return sx.And(a[0] - b[0] < e, b[0] - a[0] < e, a[1] - b[1] < e, b[1] - a[1] < e)


def h_chamfer_corners(sx, p):
    on = [bool(p['mask'] >> i & 1) for i in range(4)]
    o = S.chamfer(sx, corners=on)
    w, h, pos, k = o.width / 2, o.height / 2, o.position, o.chamfer
    want = []
    for (a, b), cut in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), on):
        if cut:
            want += [(a * (w - k), b * h), (a * w, b * (h - k))]
        else:
            want.append((a * w, b * h))
    want = [(pos[0] + q[0], pos[1] + q[1]) for q in want]
    corners(sx, o, want)
    sx.same(o.bounding_box, box_about(pos, w, h), 'box touches the shape on every side')


def h_polygon(sx, p):
    o = S.polygon(sx, rotated=p['rotated'], sides=p['sides'])
    n, pos, r = p['sides'], o.position, o.radius
    box = o.bounding_box
    got = [tuple(v) for v in o.vertices]
    sx.check(len(got) == n, 'number of corners')
    for k in range(n):
        c, s = sx.cossin_deg(o.rotation + 360.0 / n * k)
        q = (pos[0] + r * c, pos[1] + r * s)
        sx.same(got[k], q, 'corners are spread evenly over the circle', tol=1e-6)
        inside(sx, box, q, 'box encloses the shape')
    for i in (0, 1):
        sx.check((box[i][1] - box[i][0]) <= 2 * r + 1e-9, 'box is no larger than that of the circumscribed circle')


def h_ellipse(sx, p):
    o = S.ellipse(sx, rotated=p['rotated'])
    c, s = sx.cossin_deg(o.rotation)
    a, b = o.width / 2, o.height / 2
    box = o.bounding_box
    sx.same(((box[0][0] + box[0][1]) / 2, (box[1][0] + box[1][1]) / 2), o.position, 'box is centred on the shape')
    hw, hh = (box[0][1] - box[0][0]) / 2, (box[1][1] - box[1][0]) / 2
    sx.check(sx.And(hw >= 0, hh >= 0), 'box is not inverted')
    sx.same(hw * hw, a * a * c * c + b * b * s * s, 'box touches the ellipse')
    sx.same(hh * hh, a * a * s * s + b * b * c * c, 'box touches the ellipse')


def h_square(sx, p):
    k, _, shape = p['kind'].partition(':')
    o = S.ALL[k](sx, shape=shape) if shape else S.ALL[k](sx)
    d = (o.side if k == 'sqbutterfly' else o.outer_diameter) / 2
    dx = d if shape != 'hexagon' else d * 0.5 * 3 ** 0.5
    sx.same(o.bounding_box, box_about(o.position, dx, d), 'box of the outer outline', tol=1e-6)


def h_obround_parts(sx, p):
    """an obround is two discs and a rectangle, together as large as its box"""
    o = S.obround(sx)
    sub = o.subshapes
    w, h, pos = o.width, o.height, o.position
    d = sx.ite(w < h, w, h)
    c1, c2, r = sub['circle1'], sub['circle2'], sub['rectangle']
    sx.same((c1.diameter, c2.diameter), (d, d), 'disc diameter')
    sx.same(((c1.position[0] + c2.position[0]) / 2, (c1.position[1] + c2.position[1]) / 2), pos, 'discs are symmetric')
    boxes = [q.bounding_box for q in (c1, c2, r)]
    lo = [mx(sx, *[-b[i][0] for b in boxes]) for i in (0, 1)]
    hi = [mx(sx, *[b[i][1] for b in boxes]) for i in (0, 1)]
    sx.same(((-lo[0], hi[0]), (-lo[1], hi[1])), o.bounding_box, 'parts fill the box')
    sx.same((r.width + r.height), sx.ite(w < h, h, w), 'rectangle spans the disc centres')
