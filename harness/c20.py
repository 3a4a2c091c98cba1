"""C20: Excellon statements survive being written and read back, converted and moved."""
from gerber import excellon_statements as E
from gerber.cam import FileSettings

BOUNDS = ('every statement kind; coordinates and tool parameters of up to 6 digits in 6 formats and both zero modes, either sign, one of them arbitrary at a time; '
          'tool numbers 0-99, counts 0-999; conversion sequences of length 3; arbitrary offsets')

FORMATS = [(2, 4), (3, 3), (2, 5), (1, 5), (4, 2), (3, 4)]
COORD = [(k, a) for k, axes in (('C', ('x', 'y', 'xy')), ('R', ('x', 'y', 'xy', '')), ('M', ('x', 'y', 'xy', '')),
                                ('S', ('xyxy', 'xyx', 'xyy', 'xxy'))) for a in axes]
TOOLS = ['', 'F', 'B', 'FB', 'H', 'S', 'Z', 'FS', 'FSBHZ', 'FH']
SIMPLE = [('UnitStmt', 'INCH,LZ'), ('UnitStmt', 'INCH,TZ'), ('UnitStmt', 'METRIC,LZ'), ('UnitStmt', 'METRIC,TZ'), ('UnitStmt', 'METRIC,TZ,000.000'), ('UnitStmt', 'METRIC,LZ,0000.00'),
          ('UnitStmt', 'INCH,LZ,00.0000'), ('IncrementalModeStmt', 'ICI,ON'), ('IncrementalModeStmt', 'ICI,OFF'), ('VersionStmt', 'VER,1'), ('VersionStmt', 'VER,2'),
          ('FormatStmt', 'FMAT,1'), ('FormatStmt', 'FMAT,2'), ('MeasuringModeStmt', 'M71'), ('MeasuringModeStmt', 'M72')]


def jobs(tier):
    out = []
    for f in FORMATS if tier == 'quick' else [(i, d) for i in range(1, 6) for d in range(1, 7)]:
        for z in ('leading', 'trailing'):
            for k, axes in COORD:
                for s in range(max(1, len(axes))):
                    for neg in ((False, True) if k != 'M' else (False,)):
                        for u in ('inch', 'metric'):
                            if tier != 'quick' or (len(out) + f[1]) % 2 == (u == 'inch') or (f == (2, 4) and not neg):
                                out.append(('h_coord', dict(f=f, z=z, kind=k, axes=axes, sym=s, neg=neg, u=u)))
            for t in TOOLS:
                for s in range(-1, len(t)):
                    out.append(('h_tool', dict(f=f, z=z, keys=t, sym=s)))
    for u in ('inch', 'metric'):
        for k, axes in COORD:
            for s in ('imi', 'mim', 'iim', 'mmi'):
                out.append(('h_convert', dict(kind=k, axes=axes, u=u, seq=s)))
            out.append(('h_offset', dict(kind=k, axes=axes, u=u)))
        out.append(('h_tool_convert', dict(u=u)))
    for n in range(len(SIMPLE)):
        out.append(('h_simple', dict(n=n)))
    for w in (1, 2, 3):
        out.append(('h_select', dict(w=w, comp=False)))
        out.append(('h_rate', dict(w=w)))
    out.append(('h_select', dict(w=2, comp=True)))
    for n in range(5):
        out.append(('h_comment', dict(n=n)))
    for n in (1, 2, 3):
        out.append(('h_link', dict(n=n)))
    return out


CLS = {'C': E.CoordinateStmt, 'R': E.RepeatHoleStmt, 'M': E.EndOfProgramStmt, 'S': E.SlotStmt}
ATTR = {'C': ('x', 'y'), 'R': ('xdelta', 'ydelta'), 'M': ('x', 'y'), 'S': ('x_start', 'y_start', 'x_end', 'y_end')}


def names(kind, axes):
    """attributes that are present"""
    if kind == 'S':
        return [a for a, p in zip(ATTR['S'], {'xyxy': '1111', 'xyx': '1110', 'xyy': '1101', 'xxy': '1011'}[axes]) if p == '1']
    return [a for a in ATTR[kind] if a[0] in axes]


def make(kind, axes, vals):
    v = dict(zip(names(kind, axes), vals))
    full = [v.get(a) for a in ATTR[kind]]
    return E.RepeatHoleStmt(7, *full) if kind == 'R' else CLS[kind](*full)


def values(sx, s, kind):
    return [getattr(s, a) for a in ATTR[kind]]


def h_coord(sx, p):
    i, d = p['f']
    st = FileSettings('absolute', p['u'], format=(i, d), zeros=p['z'])
    vals = []
    for k in range(len(names(p['kind'], p['axes']))):
        v = sx.decimal('v', i, d) if k == p['sym'] else 1.5 + k
        vals.append(-v if p['neg'] and k == p['sym'] else v)
    s = make(p['kind'], p['axes'], vals)
    t = s.to_excellon(st)
    r = CLS[p['kind']].from_excellon(t, st)
    want = values(sx, s, p['kind'])
    if p['kind'] == 'S':
        # a slot whose end lacks a coordinate keeps that of the start
        want = want[:2] + [want[k] if want[k] is not None else want[k - 2] for k in (2, 3)]
    if p['kind'] == 'R':
        sx.check(r.count == 7, 'count')
        want = [w if w is not None else 0 for w in want]
    got = values(sx, r, p['kind'])
    for a, b in zip(want, got):
        if p['kind'] == 'R':
            b = 0 if b is None else b
        sx.check((a is None) == (b is None), 'same coordinates present')
        if a is not None:
            sx.same(b, a, 'coordinate')
    sx.check(r.units == p['u'], 'units')


def h_tool(sx, p):
    i, d = p['f']
    st = FileSettings('absolute', 'inch', format=(i, d), zeros=p['z'])
    key = {'F': 'feed_rate', 'B': 'retract_rate', 'H': 'max_hit_count', 'S': 'rpm', 'Z': 'depth_offset'}
    kw = {}
    for k, c in enumerate(p['keys']):
        v = sx.decimal('v', i, d) if k == p['sym'] else 1 + k
        kw[key[c]] = 1000 * v if c == 'S' else v
        if c == 'S':
            sx.assume(kw['rpm'] < 100000)
    dia = sx.decimal('d', i, d) if p['sym'] < 0 else 0.5
    t = E.ExcellonTool(st, number=sx.int('n', 0, 99) if p['sym'] < 0 and (i, d) == (2, 4) else 12, diameter=dia, **kw)
    sx.option(general='exact')
    r = E.ExcellonTool.from_excellon(t.to_excellon(), st)
    sx.same(r.number, t.number, 'number')
    sx.same(r.diameter, t.diameter, 'diameter')
    for a in key.values():
        x, y = getattr(t, a), getattr(r, a)
        sx.check((x is None) == (y is None), 'same parameters present')
        if x is not None:
            sx.same(y, x, a)
    if p['sym'] >= 0:
        sx.check(t.equivalent(t), 'a tool is equivalent to itself')
        sx.same(t.equivalent(r), True, 'equivalent tools')
        u = E.ExcellonTool.from_tool(t)
        for a in list(key.values()) + ['diameter', 'number', 'plated']:
            sx.same(getattr(u, a), getattr(t, a), 'copy of a tool')


def h_convert(sx, p):
    n = names(p['kind'], p['axes'])
    s = make(p['kind'], p['axes'], [sx.real('v%d' % k, -100, 100) for k in range(len(n))])
    s.units = p['u']
    v0 = values(sx, s, p['kind'])
    for c in p['seq']:
        s.to_inch() if c == 'i' else s.to_metric()
    new = 'inch' if p['seq'][-1] == 'i' else 'metric'
    k = 1 if new == p['u'] else 25.4 if new == 'metric' else 1 / 25.4
    for a, b in zip(v0, values(sx, s, p['kind'])):
        sx.check((a is None) == (b is None), 'same coordinates present')
        if a is not None:
            sx.same(b, a * k, 'converted value')
    sx.check(s.units == new, 'units')


def h_offset(sx, p):
    n = names(p['kind'], p['axes'])
    s = make(p['kind'], p['axes'], [sx.real('v%d' % k, -100, 100) for k in range(len(n))])
    v0 = values(sx, s, p['kind'])
    o = (sx.real('dx', -100, 100), sx.real('dy', -100, 100))
    s.offset(o[0], o[1])
    for k, (a, b) in enumerate(zip(v0, values(sx, s, p['kind']))):
        sx.check((a is None) == (b is None), 'same coordinates present')
        if a is not None:
            # the step of a repeated hole is relative
            sx.same(b, a + (o[k % 2] if p['kind'] != 'R' else 0), 'moved value')


def h_tool_convert(sx, p):
    t = E.ExcellonTool(FileSettings('absolute', p['u'], format=(2, 4), zeros='leading'), number=3, diameter=sx.real('d', 0, 10), feed_rate=5.0)
    d = t.diameter
    for new in ('metric', 'inch', 'inch', 'metric', 'metric'):
        t.to_metric() if new == 'metric' else t.to_inch()
        k = 1 if new == p['u'] else 25.4 if new == 'metric' else 1 / 25.4
        sx.same(t.diameter, d * k, 'diameter')
        sx.check(t.settings.units == new, 'units')


def h_simple(sx, p):
    n, line = SIMPLE[p['n']]
    s = getattr(E, n).from_excellon(line)
    sx.check(s.to_excellon() == line, 'the same text')
    r = getattr(E, n).from_excellon(s.to_excellon())
    for a in ('units', 'zeros', 'format', 'mode', 'version'):
        sx.check(getattr(r, a, None) == getattr(s, a, None), a)


def h_select(sx, p):
    ds = sx.digits('n', p['w'])
    c = sx.digits('c', 2) if p['comp'] else ''
    s = E.ToolSelectionStmt.from_excellon('T' + ds + c)
    sx.same(s.tool, sx.pos_value(ds), 'tool number')
    if p['comp']:
        sx.same(s.compensation_index, sx.pos_value(c), 'compensation index')
    else:
        sx.check(s.compensation_index is None, 'no compensation index')
    r = E.ToolSelectionStmt.from_excellon(s.to_excellon())
    sx.same(r.tool, s.tool, 'tool number read back')
    sx.same(r.compensation_index, s.compensation_index, 'compensation index read back')


def h_rate(sx, p):
    ds = sx.digits('n', p['w'])
    s = E.ZAxisInfeedRateStmt.from_excellon('F' + ds)
    sx.same(s.rate, sx.pos_value(ds), 'rate')
    sx.same(E.ZAxisInfeedRateStmt.from_excellon(s.to_excellon()).rate, s.rate, 'rate read back')


def h_comment(sx, p):
    t = sx.text('t', p['n'], 'aZ0 =:,.-_"%*')
    s = E.CommentStmt.from_excellon(';' + t)
    sx.same(s.comment, t, 'comment')
    sx.same(s.to_excellon(), ';' + t, 'comment written')


def h_link(sx, p):
    ns = [sx.int('n%d' % k, 1, 99) for k in range(p['n'])]
    s = E.LinkToolStmt(ns)
    r = E.LinkToolStmt.from_excellon(s.to_excellon())
    for a, b in zip(ns, r.linked_tools):
        sx.same(b, a, 'linked tool')
    sx.check(len(r.linked_tools) == p['n'], 'number of linked tools')
