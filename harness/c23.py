"""C23: layers are classified by name and stacked from the top of the board to its bottom."""
from gerber import layers, pcb
from gerber.layers import PCBLayer, DrillLayer, InternalLayer
from gerber.pcb import PCB

ORDER = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk', 'bottompaste', 'drill', 'drawing']
BOUNDS = ('boards of up to 3 layers of any of the 12 classes and of up to 6 layers of a few classes in any order; up to 4 inner layers '
          'with arbitrary numbers; file names with an arbitrary prefix of 2 letters, digits or underscores, every listed extension and '
          'name, upper and lower case')

MIXES = [('top', 'topmask', 'topsilk', 'drill'), ('bottom', 'bottommask', 'bottomsilk', 'drill'), ('top', 'internal', 'bottom'),
         ('drill', 'drawing', 'outline', 'top'), ('topmask', 'drill', 'bottommask'), ('internal', 'drill')]
EXT = {'top': ['gtl', 'cmp', 'top'], 'bottom': ['gbl', 'sld', 'bot', 'sol', 'bottom'], 'internal': ['in', 'gt1', 'gt6', 'g1', 'g6'],
       'topsilk': ['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk'], 'bottomsilk': ['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk'],
       'topmask': ['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask'], 'bottommask': ['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask'],
       'toppaste': ['gtp', 'tm', 'toppaste'], 'bottompaste': ['gbp', 'bm', 'bottompaste'], 'outline': ['gko', 'outline'],
       'ipc_netlist': ['ipc'], 'drawing': ['fab']}
NAMES = {'top': ['top', 'F.Cu', 'soldcom'], 'bottom': ['bottom', 'B.Cu', 'bot'], 'internal': ['In1.Cu', 'In4.Cu', 'gnd', 'pwr', 'ground'],
         'topsilk': ['F.SilkS', 'topsilk'], 'bottomsilk': ['B.SilkS', 'bottomsilk'], 'topmask': ['F.Mask', 'topmask'],
         'bottommask': ['B.Mask', 'bottommask'], 'toppaste': ['F.Paste', 'toppaste'], 'bottompaste': ['B.Paste', 'bottompaste'],
         'outline': ['Edge.Cuts', 'outline', 'border'], 'drawing': ['assembly', 'fab']}


def jobs(tier):
    out = [('h_order', dict(n=n, mix=None)) for n in (0, 1, 2)]
    out += [('h_order', dict(n=3, mix=None, first=c)) for c in ORDER]
    for m in range(len(MIXES)):
        for n in (4,) if tier == 'quick' else (4, 5, 6):
            out.append(('h_order', dict(n=n, mix=m)))
    for n in (2, 3, 4):
        out.append(('h_inner', dict(n=n)))
    for n in (1, 2):
        for tail in ('.g1', '-x.in', '_gnd.GND.gbr'):
            out.append(('h_number', dict(n=n, tail=tail)))
    for m in range(len(MIXES)):
        for n in (1, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
            out.append(('h_views', dict(n=n, mix=m)))
    for n in (1, 2, 3):
        out.append(('h_bounds', dict(n=n)))
    for cls in sorted(EXT):
        out.append(('h_ext', dict(cls=cls)))
    for cls in sorted(NAMES):
        out.append(('h_name', dict(cls=cls)))
    out.append(('h_other', {}))
    for n in range(len(DIRS)):
        out.append(('h_directory', dict(dir=n)))
    return out


class Source(object):
    def __init__(self, bounds=None, filename='x'):
        self.bounds = bounds
        self.primitives = []
        self.filename = filename


def make(sx, n, options, first=None):
    out = []
    for k in range(n):
        c = first if first and not k else sx.choice('class%d' % k, options)
        if c == 'drill':
            side = sx.choice('span%d' % k, [None, ['top'], ['bottom'], ['internal']]) if len(options) < 6 else None
            l = DrillLayer('f%d' % k, Source(), side)
        elif c == 'internal':
            l = InternalLayer('f%d' % k, Source(), sx.int('order%d' % k, 0, 99))
        else:
            l = PCBLayer('f%d' % k, c, Source())
        out.append(l)
    return out


def rank(l):
    return ORDER.index(l.layer_class)


def once(sx, got, want, label):
    sx.check(len(got) == len(want) and all(any(g is w for g in got) for w in want), label)


def where(l, ls):
    return [k for k in range(len(ls)) if ls[k] is l][0]


def h_order(sx, p):
    given = make(sx, p['n'], ORDER if p['mix'] is None else MIXES[p['mix']], p.get('first'))
    for up in (True, False):
        out = layers.sort_layers(list(given), from_top=up)
        once(sx, out, given, 'every layer occurs exactly once')
        for a, b in zip(out, out[1:]):
            ra, rb = rank(a), rank(b)
            if ra >= 10 or rb >= 10:
                sx.check(ra <= rb, 'drill and drawing layers come last')
            else:
                sx.check(ra <= rb if up else ra >= rb, 'layers follow the stack')
            if ra == rb == 5:
                sx.check(a.order <= b.order if up else a.order >= b.order, 'inner layers follow their numbers')
            elif ra == rb:
                sx.check((where(a, given) < where(b, given)) == (up or ra >= 10), 'layers of one kind keep their order')
    board = PCB(list(given), 'name')
    once(sx, board.layers, given, 'every layer is on the board')
    sx.check(len(board) == len(given), 'number of layers')
    sx.check(all(x is y for x, y in zip(board.layers, layers.sort_layers(list(given)))), 'order on the board')


def h_inner(sx, p):
    orders = [sx.int('order%d' % k, 0, 99) for k in range(p['n'])]
    given = [InternalLayer('f%d' % k, Source(), o) for k, o in enumerate(orders)]
    board = PCB([PCBLayer('b', 'bottom', Source())] + given + [PCBLayer('t', 'top', Source())])
    ls = board.layers
    sx.check(ls[0].layer_class == 'top' and ls[-1].layer_class == 'bottom', 'inner layers lie between top and bottom')
    for a, b in zip(ls[1:-1], ls[2:-1]):
        sx.check(sx.Or(a.order < b.order, sx.And(a.order == b.order, where(a, given) < where(b, given))), 'inner layers follow their numbers')
    sx.check(board.layer_count == p['n'] + 2, 'number of copper layers')
    once(sx, board.copper_layers, ls, 'copper layers')
    for x, y in zip(board.copper_layers, reversed(ls)):
        sx.check(x is y, 'copper layers from the bottom up')


def h_number(sx, p):
    """the number in the file name, not one in the directory"""
    d = sx.digits('d', p['n'])
    name = '/tmp9/brd2/zz' + d + p['tail']
    l = PCBLayer.from_cam(Source(None, name))
    sx.check(l.layer_class == 'internal', 'an inner layer')
    sx.same(l.order, sx.pos_value(d), 'number of the inner layer')


def h_views(sx, p):
    given = make(sx, p['n'], MIXES[p['mix']])
    board = PCB(given)
    drills = [l for l in given if l.layer_class == 'drill']
    copper = [l for l in given if l.layer_class in ('top', 'bottom', 'internal')]
    sx.check(board.layer_count == len(copper), 'number of copper layers')
    once(sx, board.copper_layers, copper, 'copper layers')
    for a, b in zip(board.copper_layers, board.copper_layers[1:]):
        sx.check(rank(a) >= rank(b), 'copper layers from the bottom up')
    once(sx, board.drill_layers, drills, 'drill layers')
    for side, seq in (('top', ['top', 'drill', 'topmask', 'topsilk']), ('bottom', ['bottom', 'drill', 'bottommask', 'bottomsilk'])):
        view = getattr(board, side + '_layers')
        want = [l for l in given if l.layer_class in seq and (l.layer_class != 'drill' or side in l.layers)]
        once(sx, view, want, 'layers seen from the ' + side)
        for a, b in zip(view, view[1:]):
            sx.check(seq.index(a.layer_class) <= seq.index(b.layer_class), 'layers from the copper outwards')
    outs = [l for l in given if l.layer_class == 'outline']
    sx.check(board.outline_layer is (outs[0] if outs else None), 'outline layer')


def h_bounds(sx, p):
    ls = []
    for k in range(p['n']):
        c = sx.choice('class%d' % k, ('outline', 'top', 'bottom', 'topmask'))
        ls.append(PCBLayer('f', c, Source(((sx.real('a%d' % k), sx.real('b%d' % k)), (sx.real('c%d' % k), sx.real('d%d' % k))))))
    got = PCB(list(ls)).board_bounds
    pick = [l for l in ls if l.layer_class == 'outline'] or [l for l in ls if l.layer_class == 'top']
    if pick:
        sx.same(got, pick[0].cam_source.bounds, 'bounds of the board')
    else:
        sx.check(got is None, 'bounds of the board')


WORD = 'abcxyzABCXYZ019_'


def case(sx, text):
    """any mix of upper and lower case"""
    out = ''
    for n, c in enumerate(text):
        out = out + (sx.text('c%d' % n, 1, c.lower() + c.upper()) if c.isalpha() else c)
    return out


def h_ext(sx, p):
    e = sx.choice('ext', EXT[p['cls']])
    name = '/dir.gtl/z' + sx.text('name', 2, WORD) + '.' + case(sx, e)
    sx.check(layers.guess_layer_class(name) == p['cls'], 'class by extension')
    l = PCBLayer.from_cam(Source(None, name))
    sx.check(l.layer_class == p['cls'] and isinstance(l, InternalLayer) == (p['cls'] == 'internal'), 'layer of the file')
    sx.same(l.filename, name, 'name of the file')


def h_name(sx, p):
    e = sx.choice('layer', NAMES[p['cls']])
    sep = sx.choice('sep', ('-', '.'))
    name = '/dir/' + sx.text('pre', 2, WORD) + sep + case(sx, e) + '.gbr'
    sx.check(layers.guess_layer_class(name) == p['cls'], 'class by name')


def h_other(sx, p):
    name = '/dir/z' + sx.text('name', 2, WORD) + sx.choice('ext', ('.gbr', '.txt', '', '.ger', '.gtlx'))
    sx.check(layers.guess_layer_class(name) == 'unknown', 'class of an unlisted name')
    sx.check(layers.guess_layer_class(None) == 'unknown', 'no name')


# files of a directory: name, class
DIRS = [['brd.gtl top', 'brd.gbl bottom', 'brd.drl drill', 'brd.gko outline'],
        ['b.bottommask.gbr bottommask', 'b.top.gbr top', 'b.outline.gbr outline', 'b.topsilk.gbr topsilk'],
        ['one.gtl top', 'two.gtl top', 'x.g2 internal', 'y5.g1 internal', 'z.fab drawing'],
        ['p-F.Cu.gbr top', 'p-B.Cu.gbr bottom', 'p-In2.Cu.gbr internal', 'p-In1.Cu.gbr internal', 'p-F.Mask.gbr topmask', 'p.txt drill']]
BOARD = ['brd', 'b', 'dir9', 'dir9']


def h_directory(sx, p):
    """every layer file of a directory, and nothing else, is on the board"""
    x, y = sx.digits('x', 6), sx.digits('y', 6)
    for e in DIRS[p['dir']]:
        name, c = e.split()
        if c == 'drill':
            text = 'M48\nINCH,LZ,00.0000\nT1C0.05\n%\nT1\nX001Y002\nM30\n'
        else:
            text = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.05*%\nD10*\nX0Y0D02*\nX' + x + 'Y' + y + 'D01*\nM02*\n'
        sx.put_file('dir9/' + name, text)
    sx.put_file('dir9/readme', 'nothing\n')
    sx.put_file('dir9/.hidden.gtl', '%FSLAX24Y24*%\n%MOIN*%\nM02*\n')
    sx.put_file('dir9/Thumbs.db', '%FSLAX24Y24*%\n%MOIN*%\nM02*\n')
    board = PCB.from_directory(sx.path('dir9'))
    want = sorted([e.split() for e in DIRS[p['dir']]], key=lambda e: ORDER.index(e[1]))
    sx.check([l.layer_class for l in board.layers] == [e[1] for e in want], 'layers of the directory')
    sx.check(sorted(l.filename for l in board.layers) == sorted(sx.path('dir9') + '/' + e[0] for e in want), 'files of the directory')
    for l in board.layers:
        if l.layer_class == 'drill':
            sx.check(len(l.primitives) == 1 and isinstance(l, DrillLayer), 'drill layer')
        else:
            sx.check(len(l.primitives) == 1 and l.primitives[0] is l.cam_source.primitives[0], 'objects of the layer')
            sx.same(l.primitives[0].end, (sx.pos_value(x, 4), sx.pos_value(y, 4)), 'objects of the layer')
    nums = [l.order for l in board.layers if l.layer_class == 'internal']
    sx.check(nums == sorted(nums), 'inner layers follow their numbers')
    sx.check(board.name == BOARD[p['dir']], 'name of the board')
    sx.check(PCB.from_directory(sx.path('dir9'), 'given').name == 'given', 'name of the board')
    sx.same(board.board_bounds, ((0, sx.pos_value(x, 4)), (0, sx.pos_value(y, 4))), 'bounds of the board')
