"""C24: a Gerber file's extents are those of its coordinates and of its objects."""
from gerber import rs274x
from harness.c04 import FILES, build

BOUNDS = ('files of up to 5 flashes, lines, arcs and contour edges in any order of the listed ones with all coordinates and aperture sizes '
          'arbitrary, and the files of C04 with any one number arbitrary; as read, after a move and after unit conversion')

SEQS = ['f', 'l', 'ff', 'fl', 'lf', 'll', 'fff', 'lll', 'flf', 'mlf', 'R', 'Rf', 'flR', 'xf', 'fx', 'fyl', 'fxy', 'ffff', 'lflf', 'mlll', 'flmlf']


def jobs(tier):
    out = []
    for n, s in enumerate(SEQS):
        for u in ('inch', 'metric') if tier != 'quick' else (('inch', 'metric')[n % 2],):
            for when in ('read', 'moved', 'converted'):
                out.append(('h_file', dict(seq=s, u=u, when=when)))
    for n, t in enumerate(FILES):
        c = sum(t.count(x) for x in '#~@')
        for k in range(max(c, 1)):
            out.append(('h_text', dict(file=n, sym=k, head=(n + k) % 7, neg=k % 2 == 0)))
    return out


def file(sx, p):
    """text of the file, and the coordinates it states"""
    u = p['u']
    t = '%FSLAX33Y33*%\n%MO' + ('IN' if u == 'inch' else 'MM') + '*%\n'
    t += '%ADD10C,' + str_dec(sx, 'c', 1, 2) + '*%\n%ADD11R,' + str_dec(sx, 'w', 1, 2) + 'X' + str_dec(sx, 'h', 1, 2) + '*%\n'
    xs, ys, pos, n = [], [], [None, None], [0]

    def num(axis):
        n[0] += 1
        d = sx.digits('%s%d' % (axis, n[0]), 4)
        neg = (n[0] * 7 + len(p['seq'])) % 3 == 0
        v = sx.pos_value(d, 3)
        v = -v if neg else v
        (xs if axis == 'x' else ys).append(v)
        return axis.upper() + ('-' if neg else '') + d

    for k, c in enumerate(p['seq']):
        t += ('D10*\n', 'D11*\n')[k % 2]
        if c == 'f':
            t += num('x') + num('y') + 'D03*\n'
        elif c == 'l':
            t += 'G01' + num('x') + num('y') + 'D01*\n'
        elif c == 'm':
            t += num('x') + num('y') + 'D02*\n'
        elif c == 'x':
            t += num('x') + 'D03*\n'
        elif c == 'y':
            t += 'G01' + num('y') + 'D01*\n'
        elif c == 'R':
            t += 'G36*\n' + num('x') + num('y') + 'D02*\nG01' + num('x') + num('y') + 'D01*\nG01' + num('x') + num('y') + 'D01*\nG37*\n'
    return t + 'M02*\n', xs, ys


def str_dec(sx, name, i, d):
    s = sx.digits(name, i + d)
    return s[:i] + '.' + s[i:]


def tight(sx, box, los, his, label):
    for a, lo, hi in ((box[0], los[0], his[0]), (box[1], los[1], his[1])):
        for v in lo:
            sx.check(a[0] <= v, label + ' encloses')
        for v in hi:
            sx.check(a[1] >= v, label + ' encloses')
        sx.check(sx.Or(*[sx.is_same(a[0], v) for v in lo]), label + ' is tight')
        sx.check(sx.Or(*[sx.is_same(a[1], v) for v in hi]), label + ' is tight')


def union(sx, f, label):
    bs = [o.bounding_box for o in f.primitives]
    tight(sx, f.bounding_box, [[b[k][0] for b in bs] for k in (0, 1)], [[b[k][1] for b in bs] for k in (0, 1)], label)


def h_file(sx, p):
    t, xs, ys = file(sx, p)
    f = rs274x.loads(t)
    k = 1
    if p['when'] == 'moved':
        f.bounds, f.bounding_box
        dx, dy = sx.real('dx', -100, 100), sx.real('dy', -100, 100)
        f.offset(dx, dy)
        xs, ys = [x + dx for x in xs], [y + dy for y in ys]
    elif p['when'] == 'converted':
        f.bounding_box
        if p['u'] == 'inch':
            f.to_metric()
            xs, ys = [x * 25.4 for x in xs], [y * 25.4 for y in ys]
        else:
            f.to_inch()
            xs, ys = [x / 25.4 for x in xs], [y / 25.4 for y in ys]
    union(sx, f, 'bounding box')
    b = f.bounds
    tol(sx, b, xs, ys)
    s = f.size
    sx.same(s, (b[0][1] - b[0][0], b[1][1] - b[1][0]), 'size')


def tol(sx, b, xs, ys):
    """extents of the coordinates (up to float noise)"""
    e = 1e-9
    for a, vs, n in ((b[0], xs, 'x'), (b[1], ys, 'y')):
        for v in vs:
            sx.check(sx.And(a[0] <= v + e, a[1] >= v - e), n + ' range encloses every coordinate')
        sx.check(sx.Or(*[sx.And(a[0] <= v + e, a[0] >= v - e) for v in vs]), n + ' range starts at a coordinate')
        sx.check(sx.Or(*[sx.And(a[1] <= v + e, a[1] >= v - e) for v in vs]), n + ' range ends at a coordinate')


def h_text(sx, p):
    f = rs274x.loads(build(sx, p))
    if not f.primitives:
        sx.check(True, 'nothing drawn')
        return
    union(sx, f, 'bounding box')
