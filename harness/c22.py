"""C22: an IPC-D-356 netlist is read column by column."""
from gerber import ipc356

BOUNDS = ('test records with any numbers in their columns (zero or space padded, signed), reference designators of 0 to 14 and net names of 1 to 14 characters, ended after any field; '
          'outlines and conductors of up to 4 points with modal coordinates; continuation lines, net name aliases, adjacency of up to 7 nets; all unit declarations')

#                   net, id, pin, mid, dia, plated, access
IDS = ['', 'R1', 'VIA', 'ABCDEF', 'ABCDEFG', 'COMMUNICATION', 'LONGCOMPONENT1']
UNITS = [('', 'inch', 'degrees'), ('P  UNITS CUST\n', 'inch', 'degrees'), ('P  UNITS CUST 0\n', 'inch', 'degrees'), ('P  UNITS CUST 1\n', 'metric', 'degrees'), ('P  UNITS CUST 2\n', 'inch', 'radians'), ('P  UNITS CUST 1\nP  UNITS CUST 2\n', 'inch', 'radians')]
ENDS = ['y', 'dx', 'dy', 'rot', 'sm', 'opt']
PADS = ['zero', 'space', 'minus', 'plus', 'short']


def jobs(tier):
    out = []
    n = 0
    for e in ENDS:
        for i in range(len(IDS)):
            for pad in PADS:
                for u in range(len(UNITS)):
                    n += 1
                    if tier == 'quick' and n % 3:
                        continue
                    out.append(('h_record', dict(end=e, id=i, pad=pad, u=u, op=('317', '327', '367')[n % 3], dash=IDS[i] != '' or n % 2 == 0,
                                                 hole=n % 4 != 0, mid=n % 5 == 0, net=(1, 6, 14)[n % 3])))
    for u in range(4):
        for k in range(4):
            out.append(('h_outline', dict(u=u, k=k)))
            out.append(('h_conductor', dict(u=u, k=k)))
    for a in (0, 1, 2):
        out.append(('h_alias', dict(a=a)))
    for m in range(16 if tier == 'quick' else 64):
        out.append(('h_nets', dict(m=m)))
    out.append(('h_lists', {}))
    return out


def field(sx, name, width, pad):
    """text of a numeric field of the given width and its value"""
    if pad == 'zero':
        ds = sx.digits(name, width)
        return ds, sx.pos_value(ds)
    n = {'space': width - 2, 'minus': width - 1, 'plus': width - 1, 'short': 1}[pad]
    ds = sx.digits(name, n)
    v = sx.pos_value(ds)
    if pad == 'minus':
        return '-' + ds, -v
    if pad == 'plus':
        return '+' + ds, v
    return ' ' * (width - n) + ds, v


ACCESS = ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom']


def h_record(sx, p):
    head, units, ang = UNITS[p['u']]
    k = 0.0001 if units == 'inch' else 0.001
    net = sx.text('net', p['net'], 'AZ09_+-/#.')
    rid = IDS[p['id']]
    plated = sx.choice('plated', 'PU')
    acc = sx.int('access', 0, 8)
    dia, vdia = field(sx, 'dia', 4, 'space' if p['pad'] in ('space', 'short') else 'zero')
    x, vx = field(sx, 'x', 7, p['pad'])
    y, vy = field(sx, 'y', 7, p['pad'])
    upad = 'zero' if p['pad'] in ('minus', 'plus') else p['pad']
    dx, vdx = field(sx, 'dx', 4, upad)
    dy, vdy = field(sx, 'dy', 4, upad)
    rot, vrot = field(sx, 'rot', 3, 'zero' if upad == 'space' else upad)
    sm = sx.int('sm', 0, 3)
    t = p['op'] + net + ' ' * (14 - p['net']) + '   ' + rid.ljust(6) + ('-1   ' if p['dash'] else '     ') + ('M' if p['mid'] else ' ')
    t = t + (('D' + dia) if p['hole'] else '     ') + plated + 'A0' + str(acc) + 'X' + x + 'Y' + y
    e = ENDS.index(p['end'])
    if e > 0:
        t = t + 'X' + dx
    if e > 1:
        t = t + 'Y' + dy
    if e > 2:
        t = t + 'R' + rot
    if e > 3:
        t = t + ' S' + str(sm)
    if e > 4:
        t = t + ' AB12'
    f = ipc356.loads(head + t + '\n999\n')
    sx.check(f.units == units and f.settings.angle_units == ang, 'units')
    sx.check(len(f.test_records) == 1 and len(f.primitives) == 1, 'one record')
    r = f.test_records[0]
    sx.check(r.feature_type == {'1': 'through-hole', '2': 'smt', '6': 'non-plated-tooling-hole'}[p['op'][1]], 'feature type')
    sx.same(r.net_name, net, 'net name')
    sx.same(r.id, rid, 'reference designator')
    sx.same(r.pin, '1' if p['dash'] else None, 'pin')
    sx.check(r.location == ('middle' if p['mid'] else 'end'), 'location')
    if p['hole']:
        sx.same(r.hole_diameter, vdia * k, 'hole diameter')
    else:
        sx.check(not hasattr(r, 'hole_diameter'), 'no hole')
    sx.check(r.plated == (plated == 'P'), 'plating')
    for n, w in enumerate(ACCESS):
        sx.check((r.access == w) == (acc == n), 'access')
    sx.same(r.x_coord, vx * k, 'x')
    sx.same(r.y_coord, vy * k, 'y')
    o = f.primitives[0]
    sx.same(o.position[0], vx * k, 'x of the object')
    sx.same(o.position[1], vy * k, 'y of the object')
    sx.same(o.net_name, net, 'net of the object')
    sx.check(o.layer == r.access, 'layer of the object')
    for n, (a, v) in enumerate((('rect_x', vdx * k), ('rect_y', vdy * k))):
        if e > n:
            sx.same(getattr(r, a), v, a)
        else:
            sx.check(not hasattr(r, a), 'no ' + a)
    if e > 2:
        sx.same(r.rect_rotation, vrot if ang == 'degrees' else vrot * 57.29577951308232, 'rotation', tol=1e-6)
    if e > 3:
        for n, w in enumerate(('none', 'primary side', 'secondary side', 'both')):
            sx.check((r.soldermask_info == w) == (sm == n), 'solder mask')
    if e > 4:
        sx.same(r.optional_info, 'AB12', 'optional information')


FORMS = ['XY', 'X', 'Y', 'XY', 'X', 'XY']


def coords(sx, k, n, name='c'):
    """n coordinate words, the first complete, and the points they denote"""
    words, pts, cur = [], [], [0, 0]
    for m in range(n):
        form = 'XY' if m == 0 else FORMS[(m + k) % 6]
        w = ''
        for ax in form:
            ds = sx.digits('%s%d%s' % (name, m, ax), (6, 3, 1)[(m + k) % 3])
            cur['XY'.index(ax)] = sx.pos_value(ds)
            w = w + ax + ds
        words.append(w)
        pts.append(tuple(cur))
    return words, pts


def join(words, sep):
    t = words[0]
    for w in words[1:]:
        t = t + sep + w
    return t


def same_points(sx, a, b, k, label):
    sx.check(len(a) == len(b), 'number of points')
    for q, r in zip(a, b):
        sx.same(q[0], r[0] * k, label)
        sx.same(q[1], r[1] * k, label)


def h_outline(sx, p):
    head, units, ang = UNITS[p['u']]
    k = 0.0001 if units == 'inch' else 0.001
    words, pts = coords(sx, p['k'], 4)
    kind = ('BOARD_EDGE', 'PANEL_EDGE', 'SCORE_LINE', 'OTHER_FAB')[p['k']]
    t = head + '389' + kind.ljust(18) + join(words[:2], ' ')
    t = t + ('\n089               ' if p['k'] % 2 else '') + ' ' + join(words[2:], ' ') + '\n999\n'
    f = ipc356.loads(t)
    sx.check(len(f.outlines) == 1, 'one outline')
    sx.check(f.outlines[0].type == kind, 'kind of outline')
    same_points(sx, f.outlines[0].points, pts, k, 'outline point')


def h_conductor(sx, p):
    head, units, ang = UNITS[p['u']]
    k = 0.0001 if units == 'inch' else 0.001
    w1, p1 = coords(sx, p['k'], 3, 'a')
    w2, p2 = coords(sx, p['k'] + 1, 2, 'b')
    ap = sx.digits('ap', 4)
    lay = sx.digits('lay', 2)
    one = p['k'] % 2
    t = '378' + 'NET_7'.ljust(14) + ' L' + lay + ' X' + ap + ('' if one else 'Y0250') + ' ' + join(w1, ' ') + '*' + join(w2, ' ')
    f = ipc356.loads(head + t + '\n999\n')
    c = [s for s in f.statements if isinstance(s, ipc356.IPC356_Conductor)]
    sx.check(len(c) == 1, 'one conductor')
    sx.check(c[0].net_name == 'NET_7', 'net of the conductor')
    sx.same(c[0].layer, sx.pos_value(lay), 'layer')
    sx.same(c[0].aperture[0], sx.pos_value(ap) * k, 'aperture')
    if one:
        sx.check(c[0].aperture[1] is None, 'round aperture')
    else:
        sx.same(c[0].aperture[1], 250 * k, 'aperture')
    sx.check(len(c[0].shapes) == 2, 'number of shapes')
    same_points(sx, c[0].shapes[0], p1, k, 'conductor point')
    same_points(sx, c[0].shapes[1], p2, k, 'conductor point')


REC = '317%-14s   R1    -1    D0150PA00X 006647Y 012900X0000          S3\n'


def h_alias(sx, p):
    name = sx.text('name', 4, 'AZ09_')
    d = sx.digits('d', 1)
    t = 'P  NNAME' + d + '  LONG_' + name + '\n' + (REC % 'OTHER')
    alias = 'NNAME' + d if p['a'] != 1 else 'NNAME' + d + '7'
    rec = '317' + alias + ' ' * (14 if p['a'] != 1 else 13)
    t = t + rec[:17] + (REC % '')[17:] + (REC % 'NNAMEX')
    f = ipc356.loads(t + '999\n')
    r = f.test_records
    sx.check(len(r) == 3, 'three records')
    sx.check(r[0].net_name == 'OTHER' and r[2].net_name == 'NNAMEX', 'plain names')
    sx.same(r[1].net_name, 'LONG_' + name if p['a'] != 1 else alias, 'alias')


NETS = ['GND', 'VCC', 'SIG', 'CLK', 'N$12', 'A_LONGER_NAME', 'X']


def h_nets(sx, p):
    adj = [[(n * 5 + p['m'] * 3 + a) % 7 for a in range((1 + p['m'] + n * 2) % 7)] for n in range(1 + p['m'] % 3)]
    t = ''.join(REC % n for n in NETS + NETS[:2])
    want = {n: set() for n in NETS}
    for n, a in enumerate(adj):
        who = sx.choice('who%d' % n, NETS)
        others = [NETS[x] for x in a if NETS[x] != who]
        if not others:
            continue
        t += '379' + who.ljust(14) + ' ' + ' '.join(others) + '\n'
        for o in others:
            want[who].add(o)
            want[o].add(who)
    f = ipc356.loads(t + '999\n')
    nets = f.nets
    sx.check(sorted(n.name for n in nets) == sorted(NETS), 'every net once')
    for n in nets:
        sx.check(set(n.adjacent_nets) == want[n.name], 'adjacent nets')


def h_lists(sx, p):
    c = sx.text('c', 5, 'aZ 0-:')
    sx.assume(sx.And(c[0] != ' ', c[4] != ' '))
    t = 'C  ' + c + '\nP  JOB   my job\nP  VER IPC-D-356A\n' + REC % 'A' + (REC % 'B').replace('R1 ', 'VIA') + REC % 'A' + (REC % 'B').replace('R1 ', 'U2 ') + '999\n'
    f = ipc356.loads(t)
    sx.same([x.comment for x in f.comments][0], c, 'comment')
    sx.check([(q.parameter, q.value) for q in f.parameters] == [('JOB', 'my job'), ('VER', 'IPC-D-356A')], 'parameters')
    sx.check(sorted(f.components) == ['R1', 'U2'], 'components')
    sx.check(len(f.vias) == 1, 'vias')
    sx.check(sorted(n.name for n in f.nets) == ['A', 'B'], 'nets')
