"""C28: the picture of a layer shows its objects where they are."""
from gerber import primitives as P
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.layers import PCBLayer
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.render import RenderSettings
from harness import picture as V

BOUNDS = ('every kind of object, alone and over another one, dark and clear, on normal, inverted and mirrored layers, with any one of its numbers arbitrary '
          '(positions within +-9, sizes up to 6), at every point of the picture farther than 0.001 from an outline; scales 10 and 25')

U = 'inch'
SQ = 0.5 ** 0.5


def lines(pts):
    return [('L', a, b) for a, b in zip(pts, pts[1:] + pts[:1])]


def edge(a, b, **k):
    return P.Line(a, b, P.Circle(None, 0.05, units=U), units=U, level_polarity=k.get('pol', 'dark'))


def bend(a, b, c, ccw, ap=None, mode='multi-quadrant', pol='dark'):
    return P.Arc(a, b, c, 'counterclockwise' if ccw else 'clockwise', ap or P.Circle(None, 0.05, units=U), mode, level_polarity=pol, units=U)


def circle(v, pol, **k):
    c, d = (v('x', 3), v('y', 2)), v('d', 2)
    h = v('h', 0.5) if k.get('hole') else None
    w = (v('hw', 0.5), v('hh', 0.25)) if k.get('slit') else (None, None)
    o = P.Circle(c, d, hole_diameter=h, hole_width=w[0] or 0, hole_height=w[1] or 0, units=U, level_polarity=pol)
    return o, lambda s: minus(s, s.disc(c, d), c, h, w)


def minus(s, inside, c, h, w, turn=0):
    if h is not None:
        inside = s.sx.And(inside, s.sx.Not(s.disc(c, h)))
    if w[0] is not None:
        inside = s.sx.And(inside, s.sx.Not(s.box(c, w[0], w[1], turn)))
    return inside


def rectangle(v, pol, **k):
    c, w, h = (v('x', 3), v('y', 2)), v('w', 2), v('h', 1)
    hd = v('hd', 0.5) if k.get('hole') else None
    s = (v('hw', 0.5), v('hh', 0.25)) if k.get('slit') else (None, None)
    rot = k.get('rot', 0)
    o = P.Rectangle(c, w, h, hole_diameter=hd or 0, hole_width=s[0] or 0, hole_height=s[1] or 0, units=U, level_polarity=pol, rotation=rot)
    return o, lambda sh: minus(sh, sh.box(c, w, h, rot), c, hd, s, rot)


def obround(v, pol, tall=False, **k):
    c = (v('x', 3), v('y', 2))
    w, h = (v('w', 1), v('h', 2.5)) if tall else (v('w', 2.5), v('h', 1))
    hd = v('hd', 0.5) if k.get('hole') else None
    s = (v('hw', 0.5), v('hh', 0.25)) if k.get('slit') else (None, None)
    o = P.Obround(c, w, h, hole_diameter=hd or 0, hole_width=s[0] or 0, hole_height=s[1] or 0, units=U, level_polarity=pol)

    def inside(sh):
        sx = sh.sx
        dx, dy = (0, (h - w) / 2) if tall else ((w - h) / 2, 0)
        d = w if tall else h
        body = sh.stroke((c[0] - dx, c[1] - dy), (c[0] + dx, c[1] + dy), d)
        return minus(sh, body, c, hd, s)
    return o, inside


def polygon(v, pol, sides=5, rot=0, **k):
    c, r = (v('x', 3), v('y', 2)), v('r', 1.5)
    hd = v('hd', 0.5) if k.get('hole') else 0
    o = P.Polygon(c, sides, r, hole_diameter=hd, units=U, level_polarity=pol, rotation=rot)

    def inside(sh):
        pts = []
        for i in range(sides):
            cs, sn = sh.sx.cossin_deg(rot + 360.0 * i / sides)
            pts.append((c[0] + r * cs, c[1] + r * sn))
        return minus(sh, sh.convex(pts), c, hd if k.get('hole') else None, (None, None))
    return o, inside


def line(v, pol, ap='circle', **k):
    a, b = (v('x', 1), v('y', 2)), (v('ex', 4), v('ey', 3 if not k.get('flat') else 2))
    if k.get('up'):
        b = (a[0], v('ey', 4))
    if k.get('dot'):
        b = a
    if k.get('by'):
        b = (a[0] + k['by'][0], a[1] + k['by'][1])
    if ap == 'circle':
        d = v('d', 0.5)
        o = P.Line(a, b, P.Circle(None, d, units=U), units=U, level_polarity=pol)
        return o, lambda s: s.stroke(a, b, d)
    w, h = v('w', 0.5), v('h', 0.25)
    o = P.Line(a, b, P.Rectangle(None, w, h, units=U), units=U, level_polarity=pol)
    return o, lambda s: s.swept_box(a, b, w, h)


DIRS = dict(e=(1.0, 0.0), n=(0.0, 1.0), w=(-1.0, 0.0), s=(0.0, -1.0), a=(0.75, 1.0), b=(-1.0, 0.75), W=(-1.25, 0.0))


def arc(v, pol, way='en', ccw=True, mode='multi-quadrant', **k):
    c, r, d = (v('x', 3), v('y', 2)), v('r', 1.5), v('d', 0.5)
    u, w = DIRS[way[0]], DIRS[way[1]]
    a, b = [(c[0] + r * t[0], c[1] + r * t[1]) for t in (u, w)]
    if way[0] == way[1]:
        b = a
    R = r * 1.25 if way[0] in 'abW' else r
    o = bend(a, b, c, ccw, P.Circle(None, d, units=U), mode, pol)

    def inside(sh):
        sx = sh.sx
        q = V.sub(sh.q, c)
        n = V.dot(q, q)
        es = [(R + d / 2) * (R + d / 2) - n, n - (R - d / 2) * (R - d / 2)]
        sh.edges += es
        body = sx.And(es[0] >= 0, sx.Or(es[1] >= 0, R <= d / 2), sh.sector(c, u, w, ccw, way[0] == way[1]))
        return sx.Or(body, sh.disc(a, d), sh.disc(b, d))
    return o, inside


def region(v, pol, kind='tri', **k):
    if kind == 'tri':
        pts = [(v('x', 1), v('y', 1)), (4, 1), (2, 3)]
    elif kind == 'concave':
        pts = [(1, 1), (4, 1), (4, 4), (v('x', 2.5), v('y', 2)), (1, 4)]
    else:
        return curved(v, pol, kind)
    o = P.Region([edge(a, b, pol=pol) for a, b in zip(pts, pts[1:] + pts[:1])], units=U, level_polarity=pol)
    return o, lambda s: s.polygon(lines(pts))


def curved(v, pol, kind):
    c, r = (v('x', 3), v('y', 2)), v('r', 1.5)
    e, n, w = [(c[0] + r * t[0], c[1] + r * t[1]) for t in (DIRS['e'], DIRS['n'], DIRS['w'])]
    if kind == 'half':
        segs, prims = [('A', e, w, c, True), ('L', w, e)], [bend(e, w, c, True, pol=pol), edge(w, e, pol=pol)]
    elif kind == 'bite':
        # three quarters of a disc, clockwise
        segs = [('A', e, n, c, False), ('L', n, c), ('L', c, e)]
        prims = [bend(e, n, c, False, pol=pol), edge(n, c, pol=pol), edge(c, e, pol=pol)]
    else:
        ccw = kind == 'disc'
        segs, prims = [('A', e, e, c, ccw)], [bend(e, e, c, ccw, pol=pol)]
    return P.Region(prims, units=U, level_polarity=pol), lambda s: s.polygon(segs)


def drill(v, pol, **k):
    c, d = (v('x', 3), v('y', 2)), v('d', 1)
    o = P.Drill(c, d, units=U)
    o.level_polarity = pol
    return o, lambda s: s.disc(c, d)


def slot(v, pol, **k):
    a, d = (v('x', 1), v('y', 2)), v('d', 0.5)
    b = (a[0] + 3, a[1] + 1) if k.get('by') else (v('ex', 4), a[1])
    o = P.Slot(a, b, d, units=U)
    o.level_polarity = pol
    return o, lambda s: s.stroke(a, b, d)


class _Part(object):
    def __init__(self, prims):
        self.prims = prims

    def to_primitive(self, units):
        return self.prims


def group(v, pol, off=False, **k):
    at = (v('x', 3), v('y', 2))
    pts = [(0, 0), (1.5, 0.25), (0.5, v('h', 1.5))]
    d = v('d', 0.75)
    ol = P.Outline([P.Line(a, b, P.Circle((0, 0), 0, units=U), units=U) for a, b in zip(pts, pts[1:] + pts[:1])], units=U)
    parts = [P.Circle((0, 0), 2, units=U), ol, P.Circle((0.25, 0.25), d, units=U, level_polarity='clear' if off else 'dark')]
    o = P.AMGroup([_Part(parts)], units=U)
    o.position = at
    o.level_polarity = pol

    def inside(s):
        m = lambda q: (at[0] + q[0], at[1] + q[1])
        a = s.sx.Or(s.disc(at, 2), s.polygon(lines([m(q) for q in pts])))
        b = s.disc(m((0.25, 0.25)), d)
        return s.sx.And(a, s.sx.Not(b)) if off else s.sx.Or(a, b)
    return o, inside


KINDS = {
    'circle': (circle, {}, 'xyd'), 'circle hole': (circle, dict(hole=True), 'xdh'), 'circle slit': (circle, dict(slit=True), 'y.hw.hh'),
    'rectangle': (rectangle, {}, 'xywh'), 'rectangle hole': (rectangle, dict(hole=True), 'x.w.hd'), 'rectangle slit': (rectangle, dict(slit=True), 'y.h.hw.hh'),
    'rectangle turned': (rectangle, dict(rot=90), 'xywh'), 'rectangle slanted': (rectangle, dict(rot=30, hole=True), 'xw'),
    'obround': (obround, {}, 'xywh'), 'obround tall': (obround, dict(tall=True), 'xywh'), 'obround hole': (obround, dict(hole=True), 'x.h.hd'),
    'obround slit': (obround, dict(slit=True, tall=True), 'y.hw.hh'),
    'polygon': (polygon, dict(sides=5), 'xyr'), 'polygon turned': (polygon, dict(sides=6, rot=15), 'xyr'), 'polygon hole': (polygon, dict(sides=4, hole=True), 'x.r.hd'),
    'polygon tri hole': (polygon, dict(sides=3, hole=True), 'x.hd'), 'rectangle turned slit': (rectangle, dict(rot=90, slit=True), 'hw.hh'),
    'line': (line, dict(by=(3, 1)), 'xyd'), 'line level': (line, dict(flat=True), 'x.ex.d'), 'line up': (line, dict(up=True), 'y.ey.d'), 'line dot': (line, dict(dot=True), 'xyd'), 'line rect': (line, dict(ap='rect', by=(3, 1)), 'xy'),
    'line rect down': (line, dict(ap='rect', by=(-1, -3)), 'xy'), 'line rect steep': (line, dict(ap='rect', by=(-0.5, 2)), 'xy'),
    'line flat': (line, dict(ap='rect', flat=True), 'x.ex.w.h'),
    'arc': (arc, dict(way='en'), 'xyd'), 'arc back': (arc, dict(way='ne', ccw=False), 'xd'), 'arc long': (arc, dict(way='en', ccw=False), 'yd'),
    'arc half': (arc, dict(way='ew'), 'xd'), 'arc odd': (arc, dict(way='ab'), 'xd'), 'arc odd long': (arc, dict(way='ab', ccw=False), 'yd'),
    'arc west': (arc, dict(way='Wa', ccw=True), 'xyd'), 'arc quarter': (arc, dict(way='en', mode='single-quadrant'), 'xd'),
    'ring': (arc, dict(way='ee'), 'xyrd'), 'ring back': (arc, dict(way='nn', ccw=False), 'xyrd'), 'ring odd': (arc, dict(way='aa', ccw=False), 'xrd'),
    'region': (region, {}, 'xy'), 'region concave': (region, dict(kind='concave'), 'xy'), 'region half': (region, dict(kind='half'), 'xr'),
    'region bite': (region, dict(kind='bite'), 'yr'), 'region disc': (region, dict(kind='disc'), 'xr'), 'region disc back': (region, dict(kind='back'), 'yr'),
    'drill': (drill, {}, 'xyd'), 'slot': (slot, dict(by=1), 'xyd'), 'slot level': (slot, {}, 'x.ex.d'),
    'group': (group, {}, 'xyhd'), 'group off': (group, dict(off=True), 'xhd'),
}
THOROUGH = {'line slanted': (line, {}, 'x.y.ex.ey')}
SIZES = ('d', 'h', 'w', 'r', 'hd', 'hw', 'hh')
MAX = dict(h=1.75, hw=1.5, hh=1.0, hd=1.0)


def names(t):
    return t.split('.') if '.' in t else list(t)


def jobs(tier):
    out = []
    n = 0
    kinds = KINDS if tier == 'quick' else dict(KINDS, **THOROUGH)
    for kind in kinds:
        for s in names(kinds[kind][2]):
            for pol in ('dark', 'clear'):
                for inv in (False, True):
                    n += 1
                    mirrors = (False, True) if tier != 'quick' else (n % 3 == 0,)
                    if tier == 'quick' and inv and (n // 4) % 2:
                        continue
                    for mi in mirrors:
                        out.append(('h_object', dict(kind=kind, sym=s, pol=pol, invert=inv, mirror=mi, scale=(10, 25)[n % 2],
                                                     origin=[[-1, -1], [0.25, 0.5], [-2.04, 0.03]][n % 3])))
    return out


def image(sx, p, objs, q):
    """what the objects of a layer leave at q, and the outlines met on the way"""
    got = False
    edges = []
    for o, inside in objs:
        s = V.Shape(sx, q)
        i = inside(s)
        edges += s.edges
        got = sx.Or(got, i) if o.level_polarity == 'dark' else sx.And(got, sx.Not(i))
    return got, edges


def h_object(sx, p):
    lo = 0.01 if p['sym'] in SIZES else -2.0
    hi = MAX.get(p['sym'], 4.0) if p['sym'] in SIZES else 7.0
    x = sx.real('v', lo, hi)
    if p['kind'] == 'obround':
        sx.assume(x >= 1 if p['sym'] == 'w' else x <= 2.5 if p['sym'] == 'h' else True)
    if p['kind'] == 'obround tall':
        sx.assume(x <= 2.5 if p['sym'] == 'w' else x >= 1 if p['sym'] == 'h' else True)
    v = lambda n, d: x if n == p['sym'] else d
    fn, kw, _ = KINDS.get(p['kind']) or THOROUGH[p['kind']]
    o, inside = fn(v, p['pol'], **kw)
    objs = [(o, inside)]
    if p['pol'] == 'clear':
        plate = P.Rectangle((3, 2.5), 5, 4.5, units=U, level_polarity='dark')
        objs.insert(0, (plate, lambda s: s.box((3, 2.5), 5, 4.5)))
        if p['kind'] not in ('line', 'slot') and not p['kind'].startswith('arc'):
            bar = P.Rectangle((2.75, 2.25), 1.125, 1.125, units=U, level_polarity='dark')
            objs.append((bar, lambda s: s.box((2.75, 2.25), 1.125, 1.125)))
    elif any(t in p['kind'] for t in ('hole', 'slit', 'off')):
        # what lies beneath the hole of an object still shows
        half = P.Rectangle((1, 2.5), 4, 4.5, units=U, level_polarity='dark')
        objs.insert(0, (half, lambda s: s.box((1, 2.5), 4, 4.5)))
    show(sx, p, objs)


def show(sx, p, objs):
    (ox, oy), size, k = p['origin'], (8.5, 7.3), p['scale']
    bounds = ((ox, ox + size[0]), (oy, oy + size[1]))
    ctx = GerberCairoContext(scale=k)
    cam = rs274x.GerberFile([], FileSettings(units=U), [a for a, _ in objs], {})
    layer = PCBLayer('x.gtl', 'top', cam)
    ctx.render_layer(layer, settings=RenderSettings((0.5, 0.25, 0.125), 0.75, p['invert'], p['mirror']),
                     bgsettings=RenderSettings((1.0, 0.0, 0.5)), bounds=bounds)
    q = (sx.real('qx', ox, ox + size[0]), sx.real('qy', oy, oy + size[1]))
    want, edges = image(sx, p, objs, q)
    far = [sx.Or(e > 0.001, e < -0.001) for e in edges]
    sx.assume(sx.And(*far))
    mx = (size[0] - (q[0] - ox)) if p['mirror'] else q[0] - ox
    at = (mx * k, (size[1] - (q[1] - oy)) * k)
    seen = V.painted(sx, ctx.surface, at)
    sx.check(len(seen) == 2, 'background and layer')
    sx.check(seen[0][0] is True and seen[0][1][:3] == (1.0, 0.0, 0.5), 'background')
    sx.check(seen[1][1] == (0.5, 0.25, 0.125, 0.75), 'colour of the layer')
    got = seen[1][0]
    if p['invert']:
        want = sx.Not(want)
    sx.check(sx.Implies(want, got), 'the picture covers what the objects cover')
    sx.check(sx.Implies(got, want), 'the picture covers nothing else')
    sx.check(tuple(ctx.size_in_pixels) == (size[0] * k, size[1] * k) or abs(ctx.size_in_pixels[0] - size[0] * k) < 1e-6, 'size of the picture')
