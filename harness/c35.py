"""C35: the command line draws the sides of a board, or the files named."""
import sys
import cairo
from gerber.__main__ import main
from gerber.render.render import RenderSettings
from gerber.render.theme import THEMES
from harness import picture as V

BOUNDS = ('6 boards of one to eight layers and 6 lists of files, with the place of one pad arbitrary, at every point of the picture; all themes; sizes of 64 to 3000 pixels')

EXT = dict(outline='gko', top='gtl', bottom='gbl', topmask='gts', bottommask='gbs', topsilk='gto', bottomsilk='gbo', drill='drl')
BOARDS = {
    'single': ['top'], 'lower': ['bottom', 'bottommask'], 'outlined': ['outline', 'top', 'topmask'], 'double': ['outline', 'top', 'bottom', 'drill', 'topmask', 'bottommask', 'topsilk', 'bottomsilk'],
    'multi': ['outline', 'top', 'in2', 'in1', 'bottom', 'drill'], 'bare': ['top', 'bottom', 'topsilk', 'bottomsilk'],
}
LISTS = [['top'], ['bottom', 'drill'], ['outline', 'top', 'drill', 'topmask', 'topsilk'], ['topsilk', 'top'], ['drill', 'bottom', 'bottommask'], ['in1', 'in2', 'top']]
SIZES = [None, (800, 600), (64, 3000), (1000, 100), (3, 2)]
THEME = ['default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer', None]
PLACES = dict((c, (0.5 + 0.375 * i, 0.5 + 0.25 * i)) for i, c in enumerate(['top', 'bottom', 'topmask', 'bottommask', 'topsilk', 'bottomsilk', 'drill', 'outline', 'in1', 'in2']))
HI = (6, 4)


def jobs(tier):
    out, n = [], 0
    for b in sorted(BOARDS):
        for which in range(len(BOARDS[b])):
            for s in 'xy':
                for t in range(len(THEME)):
                    n += 1
                    if tier == 'quick' and n % 5:
                        continue
                    out.append(('h_board', dict(board=b, which=which, sym=s, theme=THEME[t], size=SIZES[n % len(SIZES)], named=n % 2 == 0)))
    for l in range(len(LISTS)):
        for which in range(len(LISTS[l])):
            for s in 'xy':
                for t in range(len(THEME)):
                    n += 1
                    if tier == 'quick' and n % 5:
                        continue
                    out.append(('h_files', dict(list=l, which=which, sym=s, theme=THEME[t], size=SIZES[n % len(SIZES)], named=n % 2 == 0)))
    return out


def name_of(c):
    return 'board.' + (EXT[c] if c in EXT else 'g' + c[2:])


def text_of(sx, c, at):
    x, y = at
    if c == 'drill':
        return 'M48\nINCH,LZ,00.0000\nT02C0.5\n%\nT02\nX' + x + 'Y' + y + '\nM30\n'
    return '%FSLAX24Y24*%\n%MOIN*%\n%ADD11R,0.5X0.5*%\nX0Y0D02*\nX060000Y040000D02*\nD11*\nX' + x + 'Y' + y + 'D03*\nM02*\n'


def put(sx, classes, which, sym, where):
    """files of a board, the pad of one at an arbitrary place"""
    v = sx.digits('v', 6)
    value = sx.pos_value(v, 4)
    lim = 6 if sym == 'x' else 4
    sx.assume(value <= lim - 0.25)
    sx.assume(value >= 0.25)
    at = {}
    for n, c in enumerate(classes):
        x, y = PLACES[c]
        fixed = ['%06d' % round(x * 10000), '%06d' % round(y * 10000)]
        if n == which:
            x, y = (value, y) if sym == 'x' else (x, value)
            fixed['xy'.index(sym)] = v
        at[c] = (x, y)
        sx.put_file(where + name_of(c), text_of(sx, c, fixed))
    return at


def run(args):
    del cairo.written[:]
    old = sys.argv
    sys.argv = ['gerber-render'] + args
    try:
        main()
    finally:
        sys.argv = old
    return list(cairo.written)


def options(p, sx, size, theme):
    a = []
    if theme is not None:
        a += ['--theme', theme]
    if size is not None:
        a += ['--width', str(size[0]), '--height', str(size[1])]
    if p['named']:
        a += ['-o', sx.path('pic')]
    return a


def check(sx, p, surface, classes, at, theme, tag):
    size = p['size'] or (1920, 1080)
    hole = [c for c in classes if c != 'drill']
    ext = min(size[0] / 6.0, size[1] / 4.0)
    k = int(ext) if ext > 1 else ext
    sx.same([surface.args[1], surface.args[2]], [k * 6.0, k * 4.0], 'size of the picture')
    q = (sx.real('qx' + tag, 0, 6), sx.real('qy' + tag, 0, 4))
    seen = None
    inner = [tuple(t.color) + (t.alpha,) for t in [theme.internal for _ in range(12)]]
    for n, c in enumerate(classes):
        st = RenderSettings() if c == 'outline' else None if c[:2] == 'in' else theme[c]
        mirror = bool(st and st.mirror)
        if seen is None or mirror != was:
            x = 6 - q[0] if mirror else q[0]
            seen = V.painted(sx, surface, (x * k, (4 - q[1]) * k))
            was = mirror
        sx.check(len(seen) == len(classes) + 1, 'background and every layer once')
        back = theme['background']
        sx.check(seen[0][0] is True and seen[0][1] == tuple(back.color) + (back.alpha,), 'background')
        s = V.Shape(sx, q)
        want = s.disc(at[c], 0.5) if c == 'drill' else s.box(at[c], 0.5, 0.5)
        far = sx.And(*[sx.Or(e > 0.001, e < -0.001) for e in s.edges])
        got = seen[n + 1][0]
        if st is None:
            sx.check(seen[n + 1][1] in inner, 'colour of an inner layer')
        else:
            sx.check(seen[n + 1][1] == tuple(st.color) + (st.alpha,), 'colour of a layer')
            if st.invert:
                want = sx.Not(want)
        sx.check(sx.Implies(sx.And(far, want), got), 'a layer covers what its objects cover')
        sx.check(sx.Implies(sx.And(far, got), want), 'a layer covers nothing else')


def h_board(sx, p):
    sx.option(minmax='decide')
    classes = BOARDS[p['board']]
    at = put(sx, classes, p['which'], p['sym'], 'brd/')
    sx.put_file('brd/readme', 'nothing to see\n')
    pics = run([sx.path('brd')] + options(p, sx, p['size'], p['theme']))
    have = lambda *names: [c for c in names if c in classes]
    edge = have('outline')
    want = [('top', edge + have('top', 'drill', 'topmask', 'topsilk')), ('bottom', edge + have('bottom', 'drill', 'bottommask', 'bottomsilk')),
            ('copper', edge + have('bottom', 'in2', 'in1', 'top') + (have('drill') if edge else []))]
    want = [w for w in want if w[1]]
    base = sx.path('pic') if p['named'] else 'out'
    sx.check([f for f, _ in pics] == ['%s.%s.png' % (base, w[0]) for w in want], 'the pictures written')
    theme = THEMES[p['theme'] or 'default']
    for (f, s), (side, cs) in zip(pics, want):
        # (a side of holes alone is as large as the holes)
        check(sx, p, s, cs, at, theme if side != 'copper' else THEMES['Transparent Multilayer'], side[0])


def h_files(sx, p):
    sx.option(minmax='decide')
    classes = LISTS[p['list']]
    at = put(sx, classes, p['which'], p['sym'], 'f/')
    pics = run([sx.path('f/' + name_of(c)) for c in classes] + options(p, sx, p['size'], p['theme']))
    sx.check([f for f, _ in pics] == [(sx.path('pic') if p['named'] else 'out') + '.png'], 'one picture')
    check(sx, p, pics[0][1], classes, at, THEMES[p['theme'] or 'default'], 'f')
