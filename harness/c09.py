"""C09: converting a graphic object between inch and millimetre scales every length."""
from harness import shapes as S

BOUNDS = ('every kind of graphic object (20 kinds, groups and contours of 1 to 3 members, strokes with round, '
          'rectangular and obround apertures), arbitrary real geometry; sequences of up to 3 conversions')

KINDS = [(k, {}) for k in sorted(S.ALL)] + [
    ('circle', dict(hole=False)), ('line', dict(ap='rect')), ('line', dict(ap='obround')), ('line', dict(ap='none')),
    ('arc', dict(ap='rect')), ('arc', dict(direction='counterclockwise', mode='single-quadrant')),
    ('group', dict(k=1)), ('group', dict(k=2)), ('region', dict(k=1)), ('region', dict(k=2)),
    ('outline', dict(k=1)), ('outline', dict(k=4)), ('rectangle', dict(rotated=True)),
    ('obround', dict(rotated=True)), ('polygon', dict(rotated=True)), ('polygon', dict(sides=8)),
    ('chamfer', dict(rotated=True)), ('roundrect', dict(rotated=True)), ('diamond', dict(rotated=True)),
    ('ellipse', dict(rotated=True)), ('donut', dict(shape='hexagon')), ('donut', dict(shape='octagon')),
    ('region', dict(k=5))]


def jobs(tier):
    out = []
    for k, o in KINDS:
        for units in ('metric', 'inch'):
            out.append(('h_convert', dict(kind=k, opt=o, units=units)))
    return out


def h_convert(sx, p):
    o = S.ALL[p['kind']](sx, units=p['units'], **p['opt'])
    other = 'inch' if p['units'] == 'metric' else 'metric'
    before = S.flat(S.snap(o))
    box = S.get(o, 'bounding_box') if p['kind'] not in ('testrecord',) and not ('rotated' in p['opt'] or p['kind'] == 'arc') else None
    # converting to the units it already has changes nothing
    (o.to_inch if p['units'] == 'inch' else o.to_metric)()
    same(sx, S.flat(S.snap(o)), before, 'no-op when already in the requested units')
    (o.to_metric if p['units'] == 'inch' else o.to_inch)()
    after = S.flat(S.snap(o))
    sx.check([x[0] for x in after] == [x[0] for x in before], 'same members')
    f = (lambda v: v * 25.4) if other == 'metric' else (lambda v: v / 25.4)
    for (path, kind, v), (_, _, w) in zip(before, after):
        nounit = path.endswith('units') and v is None
        if kind == 'pt':
            sx.same(w, tuple(f(c) for c in v), 'coordinates are scaled')
        elif kind == 'size':
            sx.same(w, f(v), 'lengths are scaled')
        elif kind == 'units':
            sx.check(w == (None if nounit else other), 'units are recorded')
        else:
            sx.same(w, v, 'angles, counts and names are kept')
    if box is not None:
        sx.same(o.bounding_box, tuple(tuple(f(c) for c in r) for r in box), 'bounding box is scaled')
    # a second request changes nothing; converting back restores the object
    (o.to_metric if other == 'metric' else o.to_inch)()
    same(sx, S.flat(S.snap(o)), after, 'converting twice equals converting once')
    (o.to_inch if other == 'metric' else o.to_metric)()
    same(sx, S.flat(S.snap(o)), before, 'converting back restores the object')


def same(sx, a, b, label):
    sx.check([(x[0], x[1]) for x in a] == [(x[0], x[1]) for x in b], 'same members')
    for x, y in zip(a, b):
        sx.same(x[2], y[2], label)
