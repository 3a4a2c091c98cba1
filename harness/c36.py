"""C36: the layout of a netlist has no influence on what it says; its test points are drawn by side."""
import gerber
from gerber import ipc356
from gerber.render.render import GerberContext

BOUNDS = ('netlists of up to 16 lines of every kind of record in all unit declarations with any one number arbitrary, in 14 layouts: line ends LF, CRLF and CR, empty lines, blanks at the ends of lines, '
          'comments between the records, records broken into continuation lines at every word or inside words, read from text, from file and with the format detected; '
          'up to 4 test points of any access drawn for either side, both or an unknown one')

LAYOUTS = ['crlf', 'cr', 'empty', 'first empty', 'blanks', 'no end', 'comments', 'cont words', 'cont inside', 'cont deep', 'cont crlf', 'read', 'detect', 'all']
UNITS = ['', 'P  UNITS CUST', 'P  UNITS CUST 0', 'P  UNITS CUST 1', 'P  UNITS CUST 2']
# '#' is a number of the width of the run
BODY = ['P  JOB   some board', 'P  VER   IPC-D-356A', 'P  NNAME1  A_VERY_LONG_NET_NAME',
        '317GND              VIA   -     D####PA00X ######Y ######X0000          S3',
        '317NNAME1           VIA   -    MD####PA00X ######Y ######X####          S1',
        '327N$12             U2    -A4        PA01X-######Y+######X####Y####R045 S0',
        '327GND              R12   -2          A08X ######Y ######',
        '378GND            L02 X####Y0250 X######Y###### X######*X####Y#### Y####',
        '379GND            VCC N$12 SIG_A',
        '389BOARD_EDGE        X######Y###### X###### Y###### X######Y######',
        '999']


def jobs(tier):
    out = []
    total = len(numbers())
    for k, lay in enumerate(LAYOUTS):
        for u in range(len(UNITS)):
            for m in range(total):
                if tier == 'quick' and (m + k + u) % 3:
                    continue
                out.append(('h_layout', dict(layout=lay, u=u, sym=m)))
    for side in (None, 'both', 'top', 'bottom', 'inside'):
        for u in (0, 3):
            for k in range(4):
                out.append(('h_side', dict(side=side, u=u, k=k, n=2 if tier == 'quick' else 3)))
    return out


def numbers():
    out = []
    for a, l in enumerate(BODY):
        run = 0
        for c in l + ' ':
            if c == '#':
                run += 1
            elif run:
                out.append(run)
                run = 0
    return out


def lines(sx, p):
    """the lines of the netlist, each a list of words"""
    out, k = [], 0
    for l in ([UNITS[p['u']]] if UNITS[p['u']] else []) + BODY:
        words, cur, run = [], '', 0
        for c in l + '\n':
            if c == '#':
                run += 1
                continue
            if run:
                cur = cur + (sx.digits('v', run) if k == p['sym'] else str(1234567 * (k + 3))[-run:])
                k, run = k + 1, 0
            if c == '\n':
                break
            cur = cur + c
        out.append(cur)
    return out


def put(ls, end='\n', after='', extra=()):
    t = ''
    for l in ls:
        for e in extra:
            t = t + e + end
        t = t + l + after + end
    return t


def broken(ls, mode):
    """lists of words go on in continuation lines"""
    out = []
    for l in ls:
        head = l[:3]
        if head in ('378', '379', '389'):
            at = {'words': [i for i in range(21, len(l)) if l[i] == ' '], 'inside': [25], 'deep': list(range(22, len(l), 7))}[mode]
            # a break leaves no blank at the end of a line
            cuts = [0] + [i for i in at if l[i - 1] != ' '] + [len(l)]
            for n, (a, b) in enumerate(zip(cuts, cuts[1:])):
                out.append(l[a:b] if n == 0 else '0' + head[1:] + l[a:b])
        else:
            out.append(l)
    return out


def text(sx, p, ls):
    k = p['layout']
    if k == 'crlf':
        return put(ls, '\r\n')
    if k == 'cr':
        return put(ls, '\r')
    if k == 'empty':
        return put(ls, '\n\n   \n')
    if k == 'first empty':
        return '\n\n' + put(ls)
    if k == 'blanks':
        return put(ls, '\n', '   ')
    if k == 'no end':
        t = put(ls[:-1]) + ls[-1]
        return t
    if k == 'comments':
        return put(ls, extra=('C  317GND   X 000001Y 000002',))
    if k.startswith('cont '):
        m = k[5:]
        return put(broken(ls, 'words' if m == 'crlf' else m), '\r\n' if m == 'crlf' else '\n')
    if k == 'all':
        return put(broken(ls, 'words'), '\r\n')  # see h_layout
    return put(ls)


def same_value(sx, a, b, label):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        sx.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            same_value(sx, x, y, label)
    elif a is None or b is None:
        sx.check(a is None and b is None, label)
    else:
        sx.same(a, b, label)


def same(sx, f, g, comments):
    sx.check(f.units == g.units and f.settings.angle_units == g.settings.angle_units, 'units')
    for a, b in ((f.parameters, g.parameters), (f.test_records, g.test_records), (f.outlines, g.outlines), (f.adjacency_records, g.adjacency_records),
                 ([s for s in f.statements if isinstance(s, ipc356.IPC356_Conductor)], [s for s in g.statements if isinstance(s, ipc356.IPC356_Conductor)])):
        sx.check(len(a) == len(b), 'number of records')
        for x, y in zip(a, b):
            vx, vy = vars(x), vars(y)
            sx.check(type(x) is type(y) and sorted(vx) == sorted(vy), 'kind of record')
            for n in sorted(vx):
                same_value(sx, vx[n], vy[n], '%s of %s' % (n, type(x).__name__))
    sx.check(len(g.comments) == comments, 'comments')
    kinds = lambda h: [type(s) for s in h.statements if not isinstance(s, ipc356.IPC356_Comment)]
    sx.check(kinds(f) == kinds(g), 'order of the records')
    sx.check(len(f.primitives) == len(g.primitives), 'number of objects')
    for x, y in zip(f.primitives, g.primitives):
        same_value(sx, x.position, y.position, 'place of a test point')
        sx.check(x.net_name == y.net_name and x.layer == y.layer, 'net and side of a test point')


def h_layout(sx, p):
    ls = lines(sx, p)
    f = ipc356.loads(put(ls))
    sx.check(len(f.test_records) == 4 and len(f.outlines) == 1 and len(f.adjacency_records) == 1, 'every record is read')
    t = text(sx, p, ls)
    if p['layout'] == 'all':
        t = put(broken(ls, 'words'), '\r\n')
        t = '\r\n' + 'C  first\r\n' + t + '\r\n'
    if p['layout'] == 'read':
        path = sx.put_file('a.net', t)
        g = ipc356.read(path)
        sx.check(g.filename == path, 'name of the file')
    elif p['layout'] == 'detect':
        g = gerber.loads(t)
    else:
        g = ipc356.loads(t)
    sx.check(type(g) is ipc356.IPCNetlist, 'a netlist')
    same(sx, f, g, {'comments': len(ls), 'all': 1}.get(p['layout'], 0))


class Recorder(GerberContext):
    def __init__(self):
        super(Recorder, self).__init__()
        self.seen, self.files = [], []

    def _render_test_record(self, primitive, color):
        self.seen.append(primitive)

    def dump(self, filename):
        self.files.append(filename)


def h_side(sx, p):
    t = UNITS[p['u']] + '\n'
    acc = []
    x = sx.digits('x', 6)
    for n in range(4):
        a = sx.int('a%d' % n, 0, 8) if n < p['n'] else (0, 1, 2, 8)[(n + p['k']) % 4]
        acc.append(a)
        t = t + '317NET%d             VIA   -     D0100PA0' % n + str(a) + 'X ' + x + 'Y 0000' + '%d0' % n + '\n'
    f = ipc356.loads(t + '999\n')
    sx.check(len(f.primitives) == 4, 'test points')
    ctx = Recorder()
    if p['side'] is None:
        f.render(ctx)
    elif p['side'] == 'top':
        f.render(ctx, 'top', 'out.png')
    else:
        f.render(ctx, layer=p['side'])
    sx.check(ctx.files == (['out.png'] if p['side'] == 'top' else []), 'written when a name is given')
    wanted = {None: (0, 1, 8), 'both': (0, 1, 8), 'top': (0, 1), 'bottom': (0, 8), 'inside': ()}[p['side']]
    k = 0
    for n in range(4):
        want = sx.Or(*[acc[n] == w for w in wanted]) if wanted else False
        got = k < len(ctx.seen) and ctx.seen[k].net_name == 'NET%d' % n
        if got:
            k += 1
            sx.check(want, 'drawn on this side')
        else:
            sx.check(sx.Not(want), 'not drawn on this side')
    sx.check(k == len(ctx.seen), 'nothing else is drawn')
