"""Graphic objects with arbitrary geometry, and what they look like from outside."""
from gerber import primitives as P

B = 50          # positions within +-B, sizes within 0..B


def pt(sx, n):
    return (sx.real(n + 'x', -B, B), sx.real(n + 'y', -B, B))


def size(sx, n):
    return sx.real(n, 0, B)


def rot(sx, name, on):
    return sx.angle(name) if on else 0


def circle(sx, n='c', units='metric', hole=True):
    h = size(sx, n + 'h') if hole else None
    return P.Circle(pt(sx, n), size(sx, n + 'd'), hole_diameter=h, units=units)


def rectangle(sx, n='r', units='metric', rotated=False):
    return P.Rectangle(pt(sx, n), size(sx, n + 'w'), size(sx, n + 'ht'),
                       hole_diameter=size(sx, n + 'h'), units=units, rotation=rot(sx, n + 'a', rotated))


def obround(sx, n='o', units='metric', rotated=False):
    return P.Obround(pt(sx, n), size(sx, n + 'w'), size(sx, n + 'ht'),
                     hole_width=size(sx, n + 'hw'), hole_height=size(sx, n + 'hh'), units=units,
                     rotation=rot(sx, n + 'a', rotated))


def polygon(sx, n='p', units='metric', rotated=False, sides=5):
    return P.Polygon(pt(sx, n), sides, size(sx, n + 'rad'), hole_diameter=size(sx, n + 'h'),
                     units=units, rotation=rot(sx, n + 'a', rotated))


def line(sx, n='l', units='metric', ap='circle', zero=False):
    return P.Line(pt(sx, n + 's'), pt(sx, n + 'e'), aperture(sx, ap, n + 'ap', units),
                  level_polarity='dark', units=units)


def aperture(sx, kind, n, units):
    if kind == 'circle':
        return P.Circle(None, size(sx, n + 'd'), units=units)
    if kind == 'rect':
        return P.Rectangle(None, size(sx, n + 'w'), size(sx, n + 'h'), units=units)
    if kind == 'obround':
        return P.Obround(None, size(sx, n + 'w'), size(sx, n + 'h'), units=units)
    return P.Circle((0, 0), 0)


def arc(sx, n='a', units='metric', ap='circle', direction='clockwise', mode='multi-quadrant', flat=False):
    if flat:
        # half circle with its centre at the origin
        r = sx.real(n + 'r', 0, B, strict=True)
        return P.Arc((r, 0), (-r, 0), (0, 0), direction, aperture(sx, ap, n + 'ap', units), mode,
                     level_polarity='dark', units=units)
    c = pt(sx, n + 'c')
    r = sx.real(n + 'r', 0, B, strict=True)
    a, b = sx.unit(n + 'u'), sx.unit(n + 'v')
    return P.Arc((c[0] + r * a[0], c[1] + r * a[1]), (c[0] + r * b[0], c[1] + r * b[1]), c, direction,
                 aperture(sx, ap, n + 'ap', units), mode, level_polarity='dark', units=units)


def chain(sx, n, k, units, ap='none', closed=True):
    pts = [pt(sx, '%s%d' % (n, i)) for i in range(k)]
    ap = aperture(sx, ap, n + 'ap', units)
    ends = pts[1:] + ([pts[0]] if closed else [])
    return [P.Line(a, b, ap, level_polarity='dark', units=units) for a, b in zip(pts, ends)]


def region(sx, n='g', units='metric', k=3):
    return P.Region(chain(sx, n, k, units, 'circle'), level_polarity='dark', units=units)


def outline(sx, n='ol', units='metric', k=3):
    return P.Outline(chain(sx, n, k, units), level_polarity='dark', units=units)


class _Part(object):
    def __init__(self, prims):
        self.prims = prims

    def to_primitive(self, units):
        return self.prims


def group(sx, n='am', units='metric', k=3):
    prims = [P.Circle(pt(sx, n + 'c'), size(sx, n + 'cd'), units=units)]
    if k > 1:
        prims.append(P.Outline(chain(sx, n + 'o', 3, units), level_polarity='dark', units=units))
    if k > 2:
        prims.append(P.Polygon(pt(sx, n + 'p'), 6, size(sx, n + 'pr'), units=units))
    g = P.AMGroup([_Part(prims[:1]), _Part(prims[1:])], units=units)
    g.position = pt(sx, n)
    return g


def drill(sx, n='d', units='metric'):
    return P.Drill(pt(sx, n), size(sx, n + 'd'), units=units)


def slot(sx, n='s', units='metric'):
    return P.Slot(pt(sx, n + 's'), pt(sx, n + 'e'), size(sx, n + 'd'), units=units)


def chamfer(sx, n='ch', units='metric', rotated=False, corners=(True, True, False, True)):
    w, h, c = size(sx, n + 'w'), size(sx, n + 'h'), size(sx, n + 'c')
    sx.assume(sx.And(c * 2 <= w, c * 2 <= h))
    return P.ChamferRectangle(pt(sx, n), w, h, c, list(corners), units=units, rotation=rot(sx, n + 'a', rotated))


def roundrect(sx, n='rr', units='metric', rotated=False):
    w, h, c = size(sx, n + 'w'), size(sx, n + 'h'), size(sx, n + 'c')
    sx.assume(sx.And(c * 2 <= w, c * 2 <= h))
    return P.RoundRectangle(pt(sx, n), w, h, c, [True, False, True, True], units=units,
                            rotation=rot(sx, n + 'a', rotated))


def diamond(sx, n='di', units='metric', rotated=False):
    return P.Diamond(pt(sx, n), size(sx, n + 'w'), size(sx, n + 'h'), units=units,
                     rotation=rot(sx, n + 'a', rotated))


def ellipse(sx, n='el', units='metric', rotated=False):
    return P.Ellipse(pt(sx, n), size(sx, n + 'w'), size(sx, n + 'h'), units=units,
                     rotation=rot(sx, n + 'a', rotated))


def butterfly(sx, n='b', units='metric'):
    return P.RoundButterfly(pt(sx, n), size(sx, n + 'd'), units=units)


def sqbutterfly(sx, n='sb', units='metric'):
    return P.SquareButterfly(pt(sx, n), size(sx, n + 'd'), units=units)


def donut(sx, n='do', units='metric', shape='round'):
    i, o = size(sx, n + 'i'), size(sx, n + 'o')
    sx.assume(i < o)
    return P.Donut(pt(sx, n), shape, i, o, units=units)


def sqdonut(sx, n='sd', units='metric'):
    i, o = size(sx, n + 'i'), size(sx, n + 'o')
    sx.assume(i < o)
    return P.SquareRoundDonut(pt(sx, n), i, o, units=units)


def testrecord(sx, n='t', units='metric'):
    return P.TestRecord(pt(sx, n), 'NET', 'top', units=units)


ALL = dict(circle=circle, rectangle=rectangle, obround=obround, polygon=polygon, line=line, arc=arc,
           region=region, outline=outline, group=group, drill=drill, slot=slot, chamfer=chamfer,
           roundrect=roundrect, diamond=diamond, ellipse=ellipse, butterfly=butterfly,
           sqbutterfly=sqbutterfly, donut=donut, sqdonut=sqdonut, testrecord=testrecord)

POINTS = ('position', 'start', 'end', 'center')
SIZES = ('diameter', 'radius', 'width', 'height', 'hole_diameter', 'hole_radius', 'hole_width',
         'hole_height', 'chamfer', 'side', 'inner_diameter', 'outer_diameter')
PLAIN = ('rotation', 'sides', 'level_polarity', 'direction', 'quadrant_mode', 'corners', 'shape',
         'net_name', 'layer')


def get(p, name):
    try:
        v = getattr(p, name)
    except (AttributeError, TypeError):
        return None
    return None if callable(v) else v


def snap(p, parent=None):
    """observable geometry: (coordinates, lengths, everything else)"""
    pts, sizes, plain = {}, {}, {'type': type(p).__name__}
    for a in POINTS:
        v = get(p, a)
        if v is not None:
            pts[a] = tuple(v)
    for a in SIZES:
        v = get(p, a)
        if v is not None:
            sizes[a] = v
    for a in PLAIN:
        v = get(p, a)
        if v is not None:
            plain[a] = v
    kids = []
    for k in (get(p, 'primitives') or []):
        kids.append(snap(k))
    ap = get(p, 'aperture')
    if ap is not None:
        kids.append(snap(ap))
    return dict(pts=pts, sizes=sizes, plain=plain, units=p.units, kids=kids)


def flat(s, out=None, path=''):
    """list of (path, kind, value)"""
    out = [] if out is None else out
    for k in sorted(s['pts']):
        out.append((path + k, 'pt', s['pts'][k]))
    for k in sorted(s['sizes']):
        out.append((path + k, 'size', s['sizes'][k]))
    for k in sorted(s['plain']):
        out.append((path + k, 'plain', s['plain'][k]))
    out.append((path + 'units', 'units', s['units']))
    for i, c in enumerate(s['kids']):
        flat(c, out, '%s[%d].' % (path, i))
    return out
