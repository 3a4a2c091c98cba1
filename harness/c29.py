"""C29: a picture of several layers shows each over the ones before."""
import cairo
import gerber
from gerber import layers as L
from gerber.gerber_statements import CoordStmt
from gerber import primitives as P
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.render import RenderSettings
from gerber.render.theme import Theme, THEMES
from harness import picture as V

BOUNDS = ('pictures of 1 to 6 layers in any listed order, made of Gerber files with plates, pads and clear pads, drill files and netlists, with one coordinate '
          'or size arbitrary (4 digits), at every point of the picture farther than 0.001 from an outline; picture sizes up to 800 x 600 and any '
          'one extent of the board arbitrary for the scale; the themes that come with the package and a theme of arbitrary colours')

HEAD = '%FSLAX24Y24*%\n%MOIN*%\n%LPD*%\n'
EXT = dict(outline='gko', top='gtl', bottom='gbl', topmask='gts', bottommask='gbs', topsilk='gto', bottomsilk='gbo', toppaste='gtp', drill='drl', unknown='txt')


def num(v, signed=True):
    return ('-' if v < 0 else '') + '%06d' % abs(round(v * 10000))


class Board(object):
    """files of a board and what each covers"""
    def __init__(self, sx, sym, far=5):
        self.sx, self.sym = sx, sym
        self.value = sx.real('v', 0.01, 0.9) if sym == 'd' else sx.real('v', -1, far) if sym else None

    def layer(self, cls, at, span, sym=False, clear=False):
        """(layer, covered(shape), extents): a pad at a point and small marks at the corners"""
        lo, hi = span
        c, d = at, 0.5
        if sym:
            c = (self.value if self.sym == 'x' else at[0], self.value if self.sym == 'y' else at[1])
            d = self.value if self.sym == 'd' else 0.5
        if cls == 'drill':
            t = 'M48\nINCH,LZ\nT02C0.5\n%%\nT02\nX%sY%s\nM30\n' % (num(at[0]), num(at[1]))
        else:
            t = HEAD + '%ADD11R,0.5X0.5*%\n%ADD12R,1.0X1.0*%\n'
            for x, y in (lo, hi):
                t += 'X%sY%sD02*\n' % (num(x), num(y))
            if clear:
                t += 'D12*\nX%sY%sD03*\n%%LPC*%%\n' % (num(at[0]), num(at[1]))
            t += 'D11*\nX%sY%sD03*\nM02*\n' % (num(at[0]), num(at[1]))
        cam = gerber.loads(t, 'board.' + EXT[cls] if cls != 'internal' else 'board.g1')
        if sym:
            if cls == 'drill':
                cam.hits[-1].position = c
                cam.hits[-1].tool.diameter = d
            else:
                pad = cam.primitives[-1]
                cam.primitives[-1] = P.Rectangle(c, d, d, level_polarity=pad.level_polarity, units=pad.units)
                last = [st for st in cam.statements if isinstance(st, CoordStmt) and st.x is not None][-1]
                last.x, last.y = c
        layer = L.PCBLayer.from_cam(cam)

        def covered(s):
            sx = s.sx
            if cls == 'drill':
                return s.disc(c, d)
            if clear:
                return sx.And(s.box(at, 1.0, 1.0), sx.Not(s.box(c, d, d)))
            return s.box(c, d, d)
        ends = [lo, hi, c] if cls != 'drill' else [(c[0] - d / 2, c[1] - d / 2), (c[0] + d / 2, c[1] + d / 2)]
        return layer, covered, ends


STACKS = {
    'one': ['top'], 'two': ['top', 'topmask'], 'drilled': ['top', 'drill', 'topmask'], 'all': ['outline', 'top', 'drill', 'topmask', 'topsilk'],
    'below': ['bottom', 'drill', 'bottommask', 'bottomsilk'], 'paste': ['outline', 'top', 'unknown'], 'drill first': ['drill', 'top'],
    'only drill': ['drill'], 'six': ['outline', 'bottom', 'internal', 'internal', 'top', 'drill'],
}
OPTS = dict(query_ms=3000)
SPANS = [((0, 0), (3, 2)), ((0.5, 0.25), (2.5, 2.75)), ((-1, 0.5), (2, 1.5)), ((0, -0.5), (4, 1)), ((0.25, 0.25), (1, 1)), ((1, 1), (5, 3))]
ATS = [(1.5, 1), (2, 0.75), (1, 1.25), (0.5, 0.5), (2.25, 1.5), (1.75, 1.125)]


def jobs(tier):
    out = []
    n = 0
    for st in STACKS:
        k = len(STACKS[st])
        for which in range(k):
            for s in 'xyd' if st != 'only drill' else 'xy':
                n += 1
                if tier == 'quick' and k > 2 and (n + which) % 3:
                    continue
                for theme in ('default', 'own') if tier != 'quick' else (('default', 'own', 'Transparent Multilayer')[n % 3],):
                    out.append(('h_stack', dict(stack=st, which=which, sym=s, theme=theme, shift=n % 6, clear=n % 2 == 0, size=[(800, 600), (300, 900), (64, 64)][n % 3])))
    for st in ('two', 'drilled', 'all'):
        for s in ('x', 'y'):
            for again, far in ((False, 9), (True, 20), (True, 2000)):
                out.append(('h_scale', dict(stack=st, sym=s, again=again, far=far)))
    for s in 'xyd':
        for inv in (False, True):
            for kind in ('top', 'drill'):
                out.append(('h_file', dict(sym=s, invert=inv, kind=kind, clear=kind == 'top' and s == 'd')))
    for s in ('x', 'y'):
        for o in range(3):
            out.append(('h_net', dict(sym=s, origin=[[-1, -1], [0.25, 0.5], [0, 0]][o], invert=o == 1)))
    for n, theme in enumerate(('own', 'default', 'OSH Park', 'Transparent Multilayer')):
        for inner in ((3, 10) if tier == 'quick' else (1, 2, 3, 5, 7, 9, 12, 17)):
            out.append(('h_inner', dict(theme=theme, inner=inner, sym='xy'[n % 2])))
    return out


def own_theme(sx):
    cs = [(i / 16.0, 1 - i / 16.0, 0.5) for i in range(12)]
    names = ['background', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'top', 'bottom', 'drill', 'ipc_netlist']
    kw = dict((n, RenderSettings(cs[i], (i + 1) / 16.0, invert=i % 4 == 3, mirror=i % 3 == 2)) for i, n in enumerate(names))
    return Theme('own', internal=[RenderSettings(cs[9], 0.25), RenderSettings(cs[10], 0.75, mirror=True)], **kw)


def expected(theme, stack):
    """settings of each layer; the internal ones in their order"""
    t = dict(default=THEMES['default']).get(theme) or (theme if not isinstance(theme, str) else THEMES[theme])
    out, inner = [], 0
    for c in stack:
        if c == 'internal':
            out.append(t._internal[inner])
            inner += 1
        elif c in ('outline', 'unknown', 'toppaste'):
            out.append(RenderSettings())
        else:
            out.append(t[c])
    return out


def h_inner(sx, p):
    """inner layers take the colours of the theme in turn, also when there are more layers than colours"""
    b = Board(sx, p['sym'])
    n = p['inner']
    own = own_theme(sx) if p['theme'] == 'own' else THEMES[p['theme']]
    turn = [RenderSettings((i / 8.0, 0.5, 1 - i / 8.0), 0.5) for i in range(1 + n // 2)]
    theme = Theme('turn', internal=turn, background=own['background'], top=own['top'])
    built = [b.layer(c, ATS[i % 6], ((-1, -1), (6, 6)), i == n // 2) for i, c in enumerate(['top'] + n * ['internal'])]
    for which in (theme, own):
        for again in range(2):
            ctx = GerberCairoContext()
            ctx.render_layers([l for l, _, _ in built], sx.path('out.png'), theme=which)
            k = min(int(800 / 7.0), int(600 / 7.0))
            q = (sx.real('qx%d' % again, -1, 6), sx.real('qy%d' % again, -1, 6))
            seen = V.painted(sx, ctx.surface, ((q[0] + 1) * k, (6 - q[1]) * k))
            sx.check(len(seen) == n + 2, 'background and every layer once')
            got = [x[1] for x in seen[2:]]
            if which is theme:
                # starting anywhere, but then one after the other
                want = [tuple(t.color) + (t.alpha,) for t in turn]
                first = want.index(got[0])
                sx.check(got == [want[(first + i) % len(want)] for i in range(n)], 'inner layers take the colours in turn')
    s = V.Shape(sx, q)
    want = built[n // 2][1](s)
    if p['theme'] == 'default':
        sx.assume(sx.And(*[sx.Or(e > 0.001, e < -0.001) for e in s.edges]))
        sx.check(sx.Implies(want, seen[1 + n // 2][0]), 'a layer covers what its objects cover')


def pixels(sx, p, q, lo, hi, k, mirror=False):
    x = q[0] - lo[0]
    if mirror:
        x = hi[0] - lo[0] - x
    return (x * k, (hi[1] - q[1]) * k)


def compare(sx, seen, q, covered, settings, back, at):
    sx.check(len(seen) == len(covered) + 1, 'background and every layer once')
    sx.check(seen[0][0] is True and seen[0][1] == tuple(back.color) + (back.alpha,), 'background first and everywhere')
    for n, (cov, st) in enumerate(zip(covered, settings)):
        sx.check(seen[n + 1][1] == tuple(st.color) + (st.alpha,), 'colour and transparency of the layer')


def h_stack(sx, p):
    sx.option(minmax='decide')
    classes = STACKS[p['stack']]
    b = Board(sx, p['sym'])
    built = []
    for i, c in enumerate(classes):
        j = (i + p['shift']) % 6
        built.append(b.layer(c, ATS[j], SPANS[j], i == p['which'], p['clear'] and c != 'drill'))
    theme = own_theme(sx) if p['theme'] == 'own' else THEMES[p['theme']]
    if p['theme'] != 'own':
        theme = Theme(theme.name, **dict((k, theme[k]) for k in ('background', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'top', 'bottom', 'drill')),
                      internal=theme._internal)
    settings = expected(theme, classes)
    if classes != ['drill']:
        axes = []
        for k in (0, 1):
            axes.append([])
            for n, (_, _, e) in enumerate(built):
                loose = n == p['which'] and (p['sym'] == 'xy'[k] or (classes[n] == 'drill' and p['sym'] == 'd'))
                axes[k] += [q[k] for q in (e if not loose else [] if classes[n] == 'drill' else e[:2])]
        lo, hi = [min(c) for c in axes], [max(c) for c in axes]
    else:
        lo, hi = built[0][2]
    for x, y in [q for _, _, e in built for q in e]:
        sx.assume(sx.And(x >= lo[0], x <= hi[0], y >= lo[1], y <= hi[1]))
    ctx = GerberCairoContext()
    ctx.render_layers([l for l, _, _ in built], sx.path('out.png'), theme=theme, max_width=p['size'][0], max_height=p['size'][1])
    size = [0.5, 0.5] if classes == ['drill'] else [hi[0] - lo[0], hi[1] - lo[1]]
    k = int(min(p['size'][0] / size[0], p['size'][1] / size[1]))
    sx.same(list(ctx.size_in_pixels), [k * size[0], k * size[1]], 'the picture takes in all layers')
    q = (lo[0] + sx.real('qx', 0, size[0]), lo[1] + sx.real('qy', 0, size[1]))
    for n, ((_, cov, _), st) in enumerate(zip(built, settings)):
        s = V.Shape(sx, q)
        want = cov(s)
        far = sx.And(*[sx.Or(e > 0.001, e < -0.001) for e in s.edges])
        seen = V.painted(sx, ctx.surface, pixels(sx, p, q, lo, hi, k, st.mirror))
        if n == 0:
            compare(sx, seen, q, built, settings, theme['background'], None)
        got = seen[n + 1][0]
        if st.invert:
            want = sx.Not(want)
        sx.check(sx.Implies(sx.And(far, want), got), 'a layer covers what its objects cover')
        sx.check(sx.Implies(sx.And(far, got), want), 'a layer covers nothing else')


def h_scale(sx, p):
    """the scale is the largest whole number of pixels per unit that fits"""
    sx.option(minmax='decide')
    classes = STACKS[p['stack']]
    b = Board(sx, p['sym'], p['far'])
    sx.assume(b.value > 0.25)
    built = [b.layer(c, (0.5, 0.5), ((0, 0), (2, 1)), i == len(classes) - 1) for i, c in enumerate(classes)]
    k = 0 if p['sym'] == 'x' else 1
    size = [2.0, 1.0]
    size[k] = sx.ite(b.value > size[k], b.value, size[k])
    ctx = GerberCairoContext()
    theme = own_theme(sx)
    if p['again']:
        other = Board(sx, None).layer('top', (3, 3), ((-2, -2), (8, 8)))
        ctx.render_layers([other[0]], sx.path('first.png'), theme=theme)
    ctx.render_layers([l for l, _, _ in built], sx.path('out.png'), theme=theme, max_width=800, max_height=600)
    w, h = ctx.size_in_pixels
    scale = ctx.scale[0]
    sx.same(w, size[0] * scale, 'width of the picture')
    sx.same(h, size[1] * scale, 'height of the picture')
    sx.check(scale > 0, 'the picture is not empty')
    sx.check(sx.And(w <= 800 + 1e-6, h <= 600 + 1e-6), 'the picture fits')
    sx.check(sx.Or((scale + 1) * size[0] > 800 - 1e-6, (scale + 1) * size[1] > 600 - 1e-6), 'the picture is as large as fits')
    names = [c[0] for c in ctx.surface.calls]
    sx.check(names.count('paint') == 1 and names.count('mask_surface') == len(classes), 'a new picture starts anew')


def h_file(sx, p):
    b = Board(sx, p['sym'])
    layer, cov, ends = b.layer(p['kind'], (1.5, 1), ((0, 0.5), (3, 2)), True, p['clear'])
    if p['sym'] != 'd':
        sx.assume(sx.And(b.value >= 0.5, b.value <= 1.5))
    else:
        sx.assume(b.value <= 0.9)
    if p['kind'] != 'drill':
        for at in ((0, 0.5), (3, 2)):
            layer.cam_source.primitives.append(P.Rectangle(at, 0.0625, 0.0625, units='inch'))
    ctx = GerberCairoContext(scale=20)
    ctx.background_color = (0.25, 0.5, 0.75)
    ctx.color = (0.5, 0.75, 1.0)
    ctx.alpha = 0.5
    del cairo.written[:]
    name = None if p['invert'] else 'picture.png'
    layer.cam_source.render(ctx, invert=p['invert'], filename=name)
    sx.check([f for f, _ in cairo.written] == ([name] if name else []), 'written when a name is given')
    lo, hi = ((-0.03125, 0.46875), (3.03125, 2.03125)) if p['kind'] != 'drill' else ends
    q = (lo[0] + sx.real('qx', 0, 4), lo[1] + sx.real('qy', 0, 4))
    sx.assume(sx.And(q[0] <= hi[0], q[1] <= hi[1]))
    s = V.Shape(sx, q)
    want = cov(s)
    if p['kind'] != 'drill':
        want = sx.Or(want, s.box((0, 0.5), 0.0625, 0.0625), s.box((3, 2), 0.0625, 0.0625))
    sx.assume(sx.And(*[sx.Or(e > 0.001, e < -0.001) for e in s.edges]))
    seen = V.painted(sx, ctx.surface, pixels(sx, p, q, lo, hi, 20))
    back = RenderSettings((0.25, 0.5, 0.75))
    compare(sx, seen, q, [cov], [RenderSettings((0.5, 0.75, 1.0), 0.5)], back, None)
    if p['invert']:
        want = sx.Not(want)
    sx.check(sx.Implies(want, seen[1][0]), 'the picture covers what the objects cover')
    sx.check(sx.Implies(seen[1][0], want), 'the picture covers nothing else')


def h_net(sx, p):
    """test points of a netlist are marked at their places"""
    v = sx.real('v', -0.5, 4)
    at = (v if p['sym'] == 'x' else 1.5, v if p['sym'] == 'y' else 1.25)
    rec = P.TestRecord(at, 'NET1', 'top', units='inch')
    cam = gerber.rs274x.GerberFile([], gerber.cam.FileSettings(units='inch'), [rec], {})
    (ox, oy), size, k = p['origin'], (5, 4), 50
    ctx = GerberCairoContext(scale=k)
    ctx.render_layer(L.PCBLayer('x.ipc', 'ipc_netlist', cam), settings=RenderSettings((1.0, 0.0, 0.0), 1.0, p['invert']), bgsettings=RenderSettings(),
                     bounds=((ox, ox + size[0]), (oy, oy + size[1])))
    q = (sx.real('qx', ox, ox + size[0]), sx.real('qy', oy, oy + size[1]))
    s = V.Shape(sx, q)
    want = s.disc(at, 0.015)
    sx.assume(sx.And(*[sx.Or(e > 0.00001, e < -0.00001) for e in s.edges]))
    seen = V.painted(sx, ctx.surface, ((q[0] - ox) * k, (size[1] - (q[1] - oy)) * k))
    got = seen[1][0]
    if p['invert']:
        want = sx.Not(want)
    sx.check(sx.Implies(want, got), 'the mark covers its place')
    sx.check(sx.Implies(got, want), 'the mark covers nothing else')
