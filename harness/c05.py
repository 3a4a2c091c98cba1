"""C05: the drawn image follows the modal state of the command stream."""
from gerber import primitives as P
from gerber import rs274x
import itertools

BOUNDS = ('command streams of a fixed header followed by up to 3 (thorough: 4) commands out of 24, and contours of up to 4 (5) commands out of 9, '
          'with arbitrary coordinates of 6 digits and both signs, in 3 coordinate formats; arcs in multi-quadrant mode; '
          'inside contours every arc states its function code')

OUT = ['L', 'Lx', 'Ly', 'L0', 'M', 'Mx', 'F', 'F0', 'R', 'Ry', 'G1', 'G2', 'G3', 'G1L', 'G3A', 'C', 'D', 'S10', 'S11', 'S12', 'K', 'G1M', 'G1R', 'G2R']
REG = ['M', 'L', 'Lx', 'R', 'G2A', 'G3A', 'G1L', 'Mx', 'G1R']
ALONE = ['M', 'L', 'R', 'G1', 'G2', 'G3', 'G3A', 'S11']
FMT = ['LAX24Y24', 'TAX33Y33', 'DAX42Y42']


def jobs(tier):
    out = []
    k = 0
    n = 3 if tier == 'quick' else 4
    draws = set(['L', 'Lx', 'Ly', 'L0', 'F', 'F0', 'R', 'Ry', 'G1L', 'G3A', 'G1R', 'G2R'])
    for m in range(1, n + 1):
        for seq in itertools.product(OUT, repeat=m):
            if seq[-1] not in draws:
                continue
            # long streams: something must change the state for the last command
            if m >= 3 and seq[0] in draws and seq[0] not in ('G3A', 'L', 'F'):
                continue
            if m == 4 and len(set(seq)) < 4:
                continue
            if tier == 'quick' and m == 3 and ('K' in seq[:2] or seq[2] in ('Lx', 'Ry', 'G1L', 'F0')):
                continue
            out.append(('h_stream', dict(seq=list(seq), f=k % 3)))
            k += 1
    n = 4 if tier == 'quick' else 5
    for m in range(1, n + 1):
        for seq in itertools.product(REG, repeat=m):
            if m == 4 and tier == 'quick' and (seq[0] not in ('L', 'G2A') or seq[1] == seq[2] or len(set(seq)) < 3):
                continue
            if m == 5 and (seq[0] not in ('M', 'G2A') or len(set(seq)) < 4):
                continue
            out.append(('h_contour', dict(seq=list(seq), f=k % 3)))
            k += 1
    # the direction in a command of its own, within the contour and before it
    n = 3 if tier == 'quick' else 4
    for m in range(2, n + 1):
        for seq in itertools.product(ALONE, repeat=m):
            if len(set(seq) & set(('G1', 'G2', 'G3', 'S11'))) and seq[-1] in ('L', 'R', 'G3A') and len(set(seq)) == m:
                out.append(('h_contour', dict(seq=list(seq), f=k % 3, first=('M', 'G3', 'F', 'L')[k % 4])))
                k += 1
    # what came before the contour does not change it
    for a in ('L', 'F', 'F0', 'G3A', 'M', 'G2', 'C', 'S12'):
        for b in (['M', 'L', 'L'], ['L', 'Ly'], ['Mx', 'R', 'L'], ['G1M', 'L', 'R', 'R']):
            out.append(('h_contour', dict(seq=b, f=k % 3, first=a)))
            k += 1
    for a in ('L', 'F', 'C', 'D', 'S11', 'G2', 'M', 'R'):
        for b in ('L', 'F', 'C', 'R', 'M', 'S12'):
            out.append(('h_around', dict(before=a, after=b, f=k % 3)))
            k += 1
    return out


class Model(object):
    """what the drawing rules prescribe"""

    def __init__(self, sx, f):
        self.sx, self.n = sx, 0
        self.text = '%%FS%s*%%\n%%MOIN*%%\n%%ADD10C,0.1*%%\n%%ADD11R,0.2X0.3*%%\n%%ADD12O,0.4X0.5*%%\nG75*\nD10*\n' % FMT[f]
        self.dec = (4, 3, 2)[f]
        self.pos = (0, 0)
        self.ap, self.interp, self.dir, self.pol, self.op = 10, 'linear', None, 'dark', 'D02'
        self.region = None
        self.spent = False
        self.out = []

    def num(self, c):
        self.n += 1
        d = self.sx.digits('%s%d' % (c, self.n), 6)
        v = self.sx.pos_value(d, self.dec)
        s = ('', '-', '+')[(self.n * 7 + len(self.text)) % 3]
        self.text = self.text + c + s + d
        return -v if s == '-' else v

    def end(self, code=''):
        self.text = self.text + code + '*\n'

    def coord(self, axes, op, code):
        x, y = self.pos
        if 'x' in axes:
            x = self.num('X')
        if 'y' in axes:
            y = self.num('Y')
        ij = None
        op = op or self.op
        if op == 'D01' and self.interp == 'arc':
            ij = (self.num('I'), self.num('J'))
        self.end(code)
        self.op = op
        if op == 'D01':
            self.draw((x, y), ij)
        elif op == 'D02':
            self.close()
        else:
            self.out.append(('flash', (x, y), self.ap, self.pol))
        self.pos = (x, y)

    def draw(self, to, ij):
        if ij is None:
            o = ('line', self.pos, to, self.ap, self.pol)
        else:
            c = (self.pos[0] + ij[0], self.pos[1] + ij[1])
            o = ('arc', self.pos, to, c, self.dir, self.ap, self.pol)
        (self.out if self.region is None else self.region).append(o)
        self.spent = self.region is not None and ij is not None

    def close(self):
        if self.region:
            self.out.append(('region', self.region, self.pol))
        if self.region is not None:
            self.region = []

    def func(self, g):
        self.spent = False
        self.interp = 'linear' if g == 1 else 'arc'
        if g != 1:
            self.dir = 'clockwise' if g == 2 else 'counterclockwise'

    def cmd(self, c):
        if c[0] == 'G' and len(c) > 1:
            g = int(c[1])
            self.func(g)
            self.text = self.text + ('G0%d' if self.n % 2 else 'G%d') % g
            if len(c) == 2:
                self.end()
            else:
                op = {'L': 'D01', 'A': 'D01', 'M': 'D02', 'R': None}[c[2]]
                self.coord('xy', op, op or '')
        elif c[0] == 'L':
            # a zero-length arc would be a full circle: keep it simple
            if c == 'L0' and self.interp == 'arc':
                c = 'L'
            self.coord({'L': 'xy', 'Lx': 'x', 'Ly': 'y', 'L0': ''}[c], 'D01', 'D01' if self.n % 2 else 'D1')
        elif c[0] == 'M':
            self.coord('x' if c == 'Mx' else 'xy', 'D02', 'D02' if self.n % 4 < 2 else 'D2')
        elif c[0] == 'F':
            self.coord('' if c == 'F0' else 'xy', 'D03', 'D03' if self.n % 4 < 2 else 'D3')
        elif c[0] == 'R':
            self.coord('y' if c == 'Ry' else 'xy', None, '')
        elif c == 'C' or c == 'D':
            self.pol = 'clear' if c == 'C' else 'dark'
            self.text = self.text + '%LP' + c + '*%\n'
        elif c[0] == 'S':
            self.ap = int(c[1:])
            self.text = self.text + ('G54' if self.n % 2 else '') + 'D' + c[1:] + '*\n'
        elif c == 'K':
            self.text = self.text + 'G04 D01 X1Y1*\n'

    def on(self):
        self.region = []
        self.text = self.text + 'G36*\n'

    def off(self):
        self.close()
        self.region = None
        self.text = self.text + 'G37*\n'

    def verify(self):
        sx = self.sx
        f = rs274x.loads(self.text + 'M02*\n')
        sx.check(len(f.primitives) == len(self.out), 'number of objects')
        sx.check(f.units == 'inch', 'units')
        for got, want in zip(f.primitives, self.out):
            self.same(got, want)

    def same(self, g, w):
        sx = self.sx
        sx.check(g.level_polarity == w[-1], 'polarity')
        sx.check(g.units == 'inch', 'units')
        if w[0] == 'flash':
            sx.check(type(g) is {10: P.Circle, 11: P.Rectangle, 12: P.Obround}[w[2]], 'flash of the current aperture')
            sx.same(g.position, w[1], 'place of the flash')
            self.pen(g, w[2])
        elif w[0] == 'line':
            sx.check(type(g) is P.Line, 'a straight line')
            sx.same(g.start, w[1], 'start')
            sx.same(g.end, w[2], 'end')
            self.pen(g.aperture, w[3])
        elif w[0] == 'arc':
            sx.check(type(g) is P.Arc, 'an arc')
            sx.same(g.start, w[1], 'start')
            sx.same(g.end, w[2], 'end')
            sx.same(g.center, w[3], 'centre')
            sx.check(g.direction == w[4] and g.quadrant_mode == 'multi-quadrant', 'direction')
            self.pen(g.aperture, w[5])
        else:
            sx.check(type(g) is P.Region, 'a filled contour')
            sx.check(len(g.primitives) == len(w[1]), 'number of edges')
            for a, b in zip(g.primitives, w[1]):
                self.same(a, b)

    def pen(self, a, d):
        sx = self.sx
        if d == 10:
            sx.check(type(a) is P.Circle, 'round pen')
            sx.same(a.diameter, 0.1, 'pen size')
        else:
            sx.check(type(a) is (P.Rectangle if d == 11 else P.Obround), 'pen shape')
            sx.same((a.width, a.height), (0.2, 0.3) if d == 11 else (0.4, 0.5), 'pen size')


def h_stream(sx, p):
    m = Model(sx, p['f'])
    for c in p['seq']:
        m.cmd(c)
    m.verify()


def region(m, seq):
    m.on()
    for c in seq:
        if m.spent and c[0] in 'LR' and not (c == 'R' and m.op != 'D01'):
            # the interpolation mode after an arc in a contour is stated explicitly
            c = 'G2A'
        m.cmd(c)
    m.off()


def h_contour(sx, p):
    m = Model(sx, p['f'])
    first = p.get('first', 'M')
    m.cmd(first if first[0] != 'F' or [c for c in p['seq'] if c[0] in 'MLR' or len(c) > 2 and c[0] == 'G'][0][0] != 'R' else 'M')
    region(m, p['seq'])
    m.cmd('G1L')
    m.verify()


def h_around(sx, p):
    """two contours with other commands before, between and after"""
    m = Model(sx, p['f'])
    m.cmd(p['before'])
    m.cmd('G1M')
    region(m, ['L', 'L', 'M', 'L'])
    m.cmd(p['after'])
    m.cmd('M')
    region(m, ['G3A', 'G1L'])
    m.cmd(p['before'] if p['before'] not in ('R',) else 'L')
    m.cmd('G1L')
    m.verify()
