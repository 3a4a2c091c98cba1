"""C16: bounding boxes and corners never go stale."""
from harness import shapes as S

BOUNDS = ('every kind of graphic object, arbitrary real geometry; two changes (moves, unit conversions, new position, size, '
          'rotation, end points, centre) in every combination, with box, corners and edges read before each; arcs: one change, new end points/centres for half circles')

SET = dict(circle=['position', 'diameter'], rectangle=['position', 'width', 'height', 'rotation'],
           obround=['position', 'width', 'height', 'rotation'], polygon=['position', 'radius', 'rotation'],
           line=['start', 'end'], arc=['start', 'end', 'center'], region=[], outline=[], group=['position'],
           drill=['position', 'diameter'], slot=['start', 'end', 'diameter'],
           chamfer=['position', 'width', 'height', 'chamfer', 'rotation'],
           roundrect=['position', 'width', 'height', 'radius', 'rotation'],
           diamond=['position', 'width', 'height', 'rotation'], ellipse=['position', 'width', 'height', 'rotation'],
           butterfly=[], sqbutterfly=[], donut=[], sqdonut=[])
ROT = ('rectangle', 'obround', 'polygon', 'chamfer', 'roundrect', 'diamond')
CORNERS = ('rectangle', 'polygon', 'chamfer', 'diamond')


def jobs(tier):
    out = []
    for k in sorted(SET):
        opt = dict(rotated=True) if k in ROT else {}
        ops = ['move', 'inch', 'set units'] + SET[k]
        for a in ops:
            if k == 'arc':
                for d in ('clockwise', 'counterclockwise'):
                    flat = a in ('start', 'center', 'end')
                    out.append(('h_fresh', dict(kind=k, opt=dict(direction=d, flat=flat), ops=[a])))
                continue
            for b in ops:
                out.append(('h_fresh', dict(kind=k, opt=opt, ops=[a, b])))
    for a in ('move', 'inch', 'start', 'end'):
        out.append(('h_fresh', dict(kind='line', opt=dict(ap='rect'), ops=[a])))
    return out


def read(o, kind):
    r = [o.bounding_box]
    if kind in ('line', 'arc'):
        r.append(o.bounding_box_no_aperture)
    if kind in CORNERS:
        r.append([tuple(v) for v in o.vertices])
        r.append([tuple(v) for s in o.segments for v in s])
    return r


def apply(sx, o, op, n, v):
    if op == 'move':
        o.offset(*v)
    elif op == 'inch':
        if n % 2:
            o.to_metric()
        o.to_inch()
    elif op == 'set units':
        o.units = 'inch'
    else:
        setattr(o, op, v)


def value(sx, op, n):
    if op in ('move', 'position', 'start', 'end', 'center'):
        return S.pt(sx, 'v%d' % n)
    if op == 'rotation':
        return sx.angle('v%d' % n)
    if op in ('inch', 'set units'):
        return None
    return S.size(sx, 'v%d' % n)


def h_fresh(sx, p):
    o = S.ALL[p['kind']](sx, **p['opt'])
    t = S.ALL[p['kind']](sx, **p['opt'])
    vals = [value(sx, op, i) for i, op in enumerate(p['ops'])]
    if p['opt'].get('flat'):
        # keep it an arc: a new centre on the bisector, a new end point on the axis
        vals = [(0, v[1]) if op == 'center' else (v[0], 0) for op, v in zip(p['ops'], vals)]
    for i, op in enumerate(p['ops']):
        read(o, p['kind'])
        apply(sx, o, op, i, vals[i])
    for i, op in enumerate(p['ops']):
        apply(sx, t, op, i, vals[i])
    sx.same(read(o, p['kind']), read(t, p['kind']), 'box and corners match a shape that was never asked before')
