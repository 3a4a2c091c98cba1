"""C12: moving a graphic object translates it and changes nothing else."""
from harness import shapes as S
from harness.c09 import KINDS, same

BOUNDS = 'every kind of graphic object, arbitrary real geometry and offsets, two consecutive moves'


def jobs(tier):
    return [('h_move', dict(kind=k, opt=o, read=r)) for k, o in KINDS for r in (False, True)]


def h_move(sx, p):
    o = S.ALL[p['kind']](sx, **p['opt'])
    hasbox = p['kind'] != 'testrecord' and p['kind'] != 'arc'
    before = S.flat(S.snap(o))
    box = o.bounding_box if p['read'] and hasbox else None
    verts = S.get(o, 'vertices') if p['read'] and p['kind'] in ('rectangle', 'diamond', 'chamfer', 'polygon') else None
    a, b = S.pt(sx, 'off'), S.pt(sx, 'off2')
    o.offset(a[0], a[1])
    check(sx, before, S.flat(S.snap(o)), a)
    o.offset(b[0], b[1])
    t = (a[0] + b[0], a[1] + b[1])
    check(sx, before, S.flat(S.snap(o)), t)
    if box is not None:
        sx.same(o.bounding_box, tuple((r[0] + d, r[1] + d) for r, d in zip(box, t)), 'bounding box moves along')
    if verts is not None:
        sx.same([tuple(v) for v in o.vertices], [(v[0] + t[0], v[1] + t[1]) for v in verts], 'corners move along')
    o.offset(-t[0], -t[1])
    check(sx, before, S.flat(S.snap(o)), (0, 0))


def check(sx, before, after, d):
    sx.check([x[0] for x in after] == [x[0] for x in before], 'same members')
    for (path, kind, v), (_, _, w) in zip(before, after):
        # a stroke's pen has no place of its own
        if kind == 'pt' and not pen(path, before):
            sx.same(w, (v[0] + d[0], v[1] + d[1]), 'coordinates are translated')
        else:
            sx.same(w, v, 'sizes, angles, units and names are kept')


def pen(path, before):
    parent = path.rsplit('[', 1)[0]
    if '[' not in path:
        return False
    types = dict((x[0], x[2]) for x in before if x[0].endswith('type'))
    return types.get(parent + 'type') in ('Line', 'Arc')
