"""C30: tools listed in comments, tool tables and reports are the tools holes are drilled with."""
from gerber import excellon, excellon_tool
from gerber.cam import FileSettings
from gerber.excellon_statements import ExcellonTool

BOUNDS = ('tool tables of 1 to 3 rows of each of the five Allegro layouts and of PADS reports, with arbitrary sizes (up to 3 integer and 3 '
          'decimal digits), tolerances, tool numbers 0..99 and plating; drill files of up to 3 holes with tools from the header, from '
          'comments, from an external table and undefined ones')

PLATED = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional', 'P': 'plated', 'N': 'nonplated'}
LAYOUTS = ['tool', 'hole mils', 'T hole mils', 'hole mm', 'T hole mm']


def jobs(tier):
    out = []
    for l in range(5):
        for n in (1, 2, 3) if tier != 'quick' or l < 2 else (1, 2):
            for u in ('inch', 'metric', None):
                if u is None and n > 1:
                    continue
                for d in (1, 2) if l else (2,):
                    out.append(('h_table', dict(layout=l, rows=n, u=u, idd=d)))
    for n in (1, 2, 3):
        for d in (1, 2):
            out.append(('h_rep', dict(rows=n, idd=d)))
    for l in range(1, 5):
        for u in ('inch', 'metric'):
            for late in (None, 'unit', 'mode', 'below'):
                out.append(('h_comment', dict(layout=l, u=u, late=late)))
    for u in ('inch', 'metric'):
        for src in ('header', 'external', 'none'):
            for d in (1, 2):
                out.append(('h_file', dict(u=u, src=src, idd=d)))
        out.append(('h_precedence', dict(u=u)))
        out.append(('h_plating', dict(u=u)))
        out.append(('h_agree', dict(u=u)))
    return out


def number(sx, name, i, d):
    """a number with a decimal point: (text, value)"""
    s = sx.digits(name, i + d)
    return s[:i] + ('.' + s[i:] if d else ''), sx.pos_value(s, d)


def row(sx, k, layout, idd=2, i=2):
    """text of a row of a tool table: (text, number, size in mm, plating)"""
    size, v = number(sx, 'size%d' % k, i, 1 + k % 3)
    tol = number(sx, 'tol%d' % k, 1, 1)[0] if k == 0 else '3.0'
    num = sx.digits('id%d' % k, idd)
    name = LAYOUTS[layout]
    if name == 'tool':
        pl = sx.choice('plated%d' % k, ('P', 'N'))
        t = size + '   ' + pl + '  T' + num + '  ' + tol + ' 0.5'
    else:
        pl = sx.choice('plated%d' % k, ('PLATED', 'NON_PLATED', 'OPTIONAL'))
        t = ('T' + num + ' ' if name[0] == 'T' else '') + 'Holesize ' + num + '. = ' + size + ' Tolerance = +' + tol + '/-0.0 ' + pl + \
            (' MM' if name.endswith('mm') else ' MILS') + ' Quantity = 17'
    return t, sx.pos_value(num), (v if name.endswith('mm') else v * 0.0254), PLATED[pl]


def in_units(v, u):
    return v / 25.4 if u != 'metric' else v


def h_table(sx, p):
    rows = [row(sx, k, p['layout'], p['idd']) for k in range(p['rows'])]
    text = 'TOOL TABLE\n' + ''.join(r[0] + '\n' for r in rows) + '\nnothing else\n'
    if p['u'] is None:
        tools = excellon_tool.loads(text)
    else:
        tools = excellon_tool.loads(text, FileSettings(units=p['u']))
    for k, (_, num, size, plated) in enumerate(rows):
        # a later row replaces an earlier one with the same number
        if any(bool(sx.is_same(num, r[1])) for r in rows[k + 1:]):
            continue
        ts = [t for t in tools.values() if bool(sx.is_same(t.number, num))]
        sx.check(len(ts) == 1, 'the tool is listed')
        sx.same(ts[0].diameter, in_units(size, p['u']), 'size of the tool', tol=1e-9)
        sx.check(ts[0].plated == plated, 'plating of the tool')
    for t in tools.values():
        sx.check(sx.Or(*[sx.is_same(t.number, r[1]) for r in rows]), 'only listed tools')


def h_rep(sx, p):
    t = 'Some text in another language  1 2 3 4 5\n ==== ==== ==== ==== ===== ===\n'
    want = []
    for k in range(p['rows']):
        num = sx.digits('id%d' % k, p['idd'])
        size, v = number(sx, 'size%d' % k, 1, 3)
        pl = sx.choice('plated%d' % k, ('x', '-', '?'))
        feed, speed = sx.digits('feed%d' % k, 2), sx.digits('speed%d' % k, 3)
        t += ' ' + num + '  ' + size + ' ' + pl + ' ' + feed + ' ' + speed + ' 12\n'
        want.append((sx.pos_value(num), v, {'x': 'plated', '-': 'nonplated', '?': None}[pl], sx.pos_value(feed), sx.pos_value(speed)))
    t += ' ==== ==== ==== ==== ===== ===\n'
    tools = excellon_tool.loads_rep(t)
    for k, (num, v, pl, feed, speed) in enumerate(want):
        if any(bool(sx.is_same(num, w[0])) for w in want[k + 1:]):
            continue
        ts = [x for x in tools.values() if bool(sx.is_same(x.number, num))]
        sx.check(len(ts) == 1, 'the tool is listed')
        sx.same(ts[0].diameter, v, 'size of the tool')
        sx.same(ts[0].feed_rate, feed, 'feed rate of the tool')
        sx.same(ts[0].rpm, speed, 'speed of the tool')
        sx.check(ts[0].plated == pl, 'plating of the tool')
    for x in tools.values():
        sx.check(sx.Or(*[sx.is_same(x.number, w[0]) for w in want]), 'only listed tools')


def head(u):
    return 'FMAT,2\nICI,OFF\n' + ('METRIC,TZ,000.000' if u == 'metric' else 'INCH,TZ,00.0000') + '\n'


def h_comment(sx, p):
    """tools that are described in comments of the drill file"""
    a, b = row(sx, 0, p['layout'], 1), row(sx, 1, p['layout'], 1)
    sx.assume(a[1] == 3)
    sx.assume(b[1] == 7)
    tools, units = '; ' + a[0] + '\n; ' + b[0] + '\n', head(p['u'])
    m = {'inch': 'M72\n', 'metric': 'M71\n'}[p['u']]
    # the units may be declared above or below
    lines = {None: units + tools + '%\n', 'unit': tools + units + '%\n', 'mode': 'INCH,LZ\n' + tools + m + '%\n', 'below': tools + '%\n' + m}[p['late']]
    text = 'M48\n;HEADER:\n' + lines + 'T07\nX1000Y1000\nT03\nX2000Y1000\nX2000Y2000\nM30\n'
    # without the format declared it is given
    st = None if p['late'] in (None, 'unit') else FileSettings('absolute', 'inch', zeros='trailing', format=(2, 4))
    f = excellon.loads(text, settings=st)
    sx.check(len(f.hits) == 3, 'number of holes')
    for h, (_, num, size, plated) in zip(f.hits, (b, a, a)):
        sx.same(h.tool.number, num, 'number of the tool')
        sx.same(h.tool.diameter, in_units(size, p['u']), 'size of the hole', tol=1e-9)
        sx.check(h.tool.plated == plated, 'plating of the hole')
    for o, w in zip(f.primitives, (b, a, a)):
        sx.same(o.diameter, in_units(w[2], p['u']), 'size of the hole', tol=1e-9)
    sx.check(sorted(f.tools) == [3, 7] and f.hit_count() == {3: 2, 7: 1}, 'tools of the file')


def h_file(sx, p):
    u = p['u']
    num = sx.digits('id', p['idd'])
    n = sx.pos_value(num)
    sx.assume(n >= 1)
    dia = sx.real('d', 0.01, 10)
    text = 'M48\n' + head(u)
    if p['src'] == 'header':
        size, dia = number(sx, 'size', 1, 3)
        text += 'T' + num + 'C' + size + '\n'
    text += 'T0C9.875\n%\nT' + num + '\nX1000Y1000\nT0\nM30\n'
    ext = {}
    if p['src'] == 'external':
        k = sx.pin(n)
        ext = {int(k): ExcellonTool(None, number=int(k), diameter=dia, plated='plated')}
    if p['src'] == 'none':
        # an undefined tool has the size its number stands for
        dia = (16 + 8 * n) / 1000.0
        if u == 'metric':
            dia = dia * 25.4
    f = excellon.loads(text, tools=ext)
    sx.check(len(f.hits) == 1, 'number of holes')
    sx.same(f.hits[0].tool.number, n, 'number of the tool')
    sx.same(f.hits[0].tool.diameter, dia, 'size of the hole')
    sx.check(f.hits[0].tool.plated == ('plated' if p['src'] == 'external' else None), 'plating of the hole')
    sx.same(f.primitives[0].diameter, dia, 'size of the hole')


def h_precedence(sx, p):
    """the header wins over comments, comments over the external table"""
    u = p['u']
    size, v = number(sx, 'size', 1, 3)
    cm, cv = number(sx, 'comment', 2, 1)
    ext = {n: ExcellonTool(None, number=n, diameter=sx.real('e%d' % n, 0.01, 10), plated=pl) for n, pl in ((1, 'nonplated'), (2, 'plated'), (3, 'optional'))}
    want = {n: t.diameter for n, t in ext.items()}
    tool = 'T1C' + size + '\n'
    text = 'M48\n' + head(u) + tool + '; Holesize 2. = ' + cm + ' Tolerance = +0.0/-0.0 OPTIONAL MM Quantity = 1\n%\n'
    text += 'T1\nX1000Y1000\nT2\nX2000Y1000\nT3\nX3000Y1000\nM30\n'
    f = excellon.loads(text, tools=ext)
    want[1], want[2] = v, in_units(cv, u)
    sx.check(len(f.hits) == 3, 'number of holes')
    for h, n in zip(f.hits, (1, 2, 3)):
        sx.same(h.tool.diameter, want[n], 'size of the hole', tol=1e-9)
        # the header says nothing about plating, so the table does
        sx.check(h.tool.plated == ('nonplated', 'optional', 'optional')[n - 1], 'plating of the hole')


def h_plating(sx, p):
    """TYPE comments hold for the tools below them"""
    text, want = 'M48\n' + head(p['u']), []
    state = None
    for n in (1, 2, 3):
        c = sx.choice('type%d' % n, (None, 'PLATED', 'NON_PLATED'))
        if c:
            text += ';TYPE=' + c + '\n'
            state = PLATED[c]
        text += 'T%dC0.5\n' % n
        want.append(state)
    f = excellon.loads(text + '%\nT1\nX1000Y1000\nT2\nX2000Y1000\nT3\nX3000Y1000\nM30\n')
    sx.check([h.tool.plated for h in f.hits] == want, 'plating of the holes')


def h_agree(sx, p):
    """a tool of the header keeps its size and plating; a comment only says what the header leaves open"""
    size, v = number(sx, 'size', 1, 3)
    cm = number(sx, 'comment', 2, 1)[0]
    a, b = sx.choice('type', (None, 'PLATED', 'NON_PLATED')), sx.choice('comment type', ('PLATED', 'NON_PLATED', 'OPTIONAL'))
    text = 'M48\n' + head(p['u']) + (';TYPE=' + a + '\n' if a else '') + 'T1C' + size + '\n'
    text += '; Holesize 1. = ' + cm + ' Tolerance = +0.0/-0.0 ' + b + ' MM Quantity = 1\n%\nT1\nX1000Y1000\nM30\n'
    f = excellon.loads(text)
    sx.check(len(f.hits) == 1, 'number of holes')
    sx.same(f.hits[0].tool.diameter, v, 'size of the hole')
    sx.check(f.hits[0].tool.plated == PLATED[a or b], 'plating of the hole')
