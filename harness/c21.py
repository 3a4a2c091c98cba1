"""C21: what an Excellon file reports about itself agrees with its holes."""
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon import DrillHit, DrillSlot, ExcellonFile
from gerber.excellon_statements import ExcellonTool

BOUNDS = ('files of up to 4 holes and slots and 1 to 3 tools (some unused), all positions and diameters arbitrary; bounding box, path length, hit counts, drill report, move, change of a tool')

#  h hole, s slot; digits: tool
FILES = ['h1', 'h1h1', 'h1h1h1', 'h1h2', 'h1h2h1', 'h2h1h2h1', 's1', 's1h1', 'h1s1', 's1s1', 'h1s2h1', 's1h2s2', 'h1s1s2h2', 's3h1']


def jobs(tier):
    out = []
    for n, f in enumerate(FILES):
        for fn in ('h_box', 'h_path', 'h_report', 'h_text', 'h_move', 'h_update', 'h_objects'):
            for u in ('inch', 'metric') if tier != 'quick' else (('inch', 'metric')[n % 2],):
                if fn == 'h_path' and len(f) > (4 if tier == 'quick' else 6):
                    continue
                out.append((fn, dict(f=f, u=u)))
    return out


def build(sx, p):
    st = FileSettings('absolute', p['u'], format=(3, 3), zeros='leading')
    tools = {}
    for n in (1, 2, 3):
        tools[n] = ExcellonTool(FileSettings('absolute', p['u'], format=(3, 3), zeros='leading'), number=n, diameter=sx.real('d%d' % n, 0.01, 10))
    hits = []
    for k in range(0, len(p['f']), 2):
        t = tools[int(p['f'][k + 1])]
        t._hit()
        pt = lambda s: (sx.real('%sx%d' % (s, k), -100, 100), sx.real('%sy%d' % (s, k), -100, 100))
        if p['f'][k] == 'h':
            hits.append(DrillHit(t, pt('p')))
        else:
            hits.append(DrillSlot(t, pt('a'), pt('b'), DrillSlot.TYPE_G85))
    return ExcellonFile([], tools, hits, st, 'x.drl'), tools


def points(h):
    return [h.position] if isinstance(h, DrillHit) else [h.start, h.end]


def inside(sx, box, f, tools, dia=None):
    """box is the smallest box around all holes"""
    for k in (0, 1):
        lo = [q[k] - h.tool.diameter / 2. for h in f.hits for q in points(h)]
        hi = [q[k] + h.tool.diameter / 2. for h in f.hits for q in points(h)]
        for v in lo:
            sx.check(box[k][0] <= v, 'box contains every hole')
        for v in hi:
            sx.check(box[k][1] >= v, 'box contains every hole')
        sx.check(sx.Or(*[sx.is_same(box[k][0], v) for v in lo]), 'box touches a hole')
        sx.check(sx.Or(*[sx.is_same(box[k][1], v) for v in hi]), 'box touches a hole')


def h_box(sx, p):
    f, tools = build(sx, p)
    inside(sx, f.bounding_box, f, tools)


def want_path(sx, f, n):
    pos, total = (0, 0), 0
    for h in f.hits:
        if h.tool.number == n:
            for q in points(h):
                total = total + sx.sqrt((q[0] - pos[0]) ** 2 + (q[1] - pos[1]) ** 2)
                pos = q
    return total


def h_path(sx, p):
    f, tools = build(sx, p)
    all = f.path_length()
    for n in tools:
        if any(h.tool.number == n for h in f.hits):
            sx.same(f.path_length(n), want_path(sx, f, n), 'path length of a tool')
            sx.same(all[n], f.path_length(n), 'path lengths')


def h_report(sx, p):
    f, tools = build(sx, p)
    for n in tools:
        c = p['f'].count(str(n))
        sx.check(f.hit_count(n) == c and f.hit_count()[n] == c, 'hit count')


def h_text(sx, p):
    """the drill report"""
    st = FileSettings(('absolute', 'incremental')[len(p['f']) // 2 % 2], p['u'], format=(3, 3), zeros='leading')
    dia = sx.decimal('d', 1, 3)
    x = sx.decimal('x', 2, 3)
    tools = {n: ExcellonTool(st, number=n, diameter=dia if n == 1 else 0.25 * n) for n in (1, 2, 3)}
    hits, path, pos = [], {}, {}
    for k in range(0, len(p['f']), 2):
        n = int(p['f'][k + 1])
        tools[n]._hit()
        # holes along the x axis
        a = x if k == 0 else 2.5 * k
        if p['f'][k] == 'h':
            hits.append(DrillHit(tools[n], (a, 0)))
            q = [a]
        else:
            hits.append(DrillSlot(tools[n], (a, 0), (a + 3, 0), DrillSlot.TYPE_G85))
            q = [a, a + 3]
        for b in q:
            d = b - pos.get(n, 0)
            path[n] = path.get(n, 0) + sx.ite(d < 0, -d, d)
            pos[n] = b
    f = ExcellonFile([], tools, hits, st, None)
    sx.option(general='exact')
    out = sx.path('report.txt')
    t = f.report(out)
    sx.same(sx.get_file('report.txt'), t, 'report in a file')
    lines = t.split('\n')
    sx.check(lines[5] == '  Data Mode         ' + ('Absolute', 'Incremental')[len(p['f']) // 2 % 2], 'mode of the report')
    sx.check(lines[6] == '  Units             ' + ('Inches' if p['u'] == 'inch' else 'Millimeters'), 'units of the report')
    rows = lines[13:-1]
    sx.check(len(rows) == 3, 'one row for every tool')
    for n, r in zip((1, 2, 3), rows):
        c = r.split()
        sx.check(len(c) == 4 and c[0] == 'T%02d' % n, 'tool of the row')
        sx.same(float(c[1]), tools[n].diameter, 'size', tol=0.0005001)
        sx.same(int(c[2]), p['f'].count(str(n)), 'hits')
        sx.check(c[3][-2:] == ('mm' if p['u'] == 'metric' else 'n.') or c[3][-3:] == 'in.', 'units of the path')
        sx.same(float(c[3][:-2] if p['u'] == 'metric' else c[3][:-3]), path.get(n, 0), 'path length', tol=0.0000011)


def h_move(sx, p):
    f, tools = build(sx, p)
    before = [[tuple(q) for q in points(h)] for h in f.hits]
    dx, dy = sx.real('dx', -50, 50), sx.real('dy', -50, 50)
    f.offset(dx, dy)
    f.offset(1, -2)
    for a, h, o in zip(before, f.hits, f.primitives):
        b = points(h)
        c = [o.position] if isinstance(h, DrillHit) else [o.start, o.end]
        for q, r, s in zip(a, b, c):
            for k, v in enumerate((q[0] + dx + 1, q[1] + dy - 2)):
                sx.same(r[k], v, 'moved hole')
                sx.same(s[k], v, 'moved object')
    inside(sx, f.bounding_box, f, tools)


def h_update(sx, p):
    f, tools = build(sx, p)
    d = {n: tools[n].diameter for n in tools}
    n = int(p['f'][1])
    new = sx.real('new', 0.01, 10)
    f.update_tool(n, diameter=new, feed_rate=7, rpm=3, retract_rate=4, max_hit_count=5, depth_offset=6)
    t = f.tools[n]
    sx.check([t.feed_rate, t.rpm, t.retract_rate, t.max_hit_count, t.depth_offset] == [7, 3, 4, 5, 6], 'changed parameters')
    for h, o in zip(f.hits, f.primitives):
        w = new if h.tool.number == n else d[h.tool.number]
        sx.same(h.tool.diameter, w, 'diameter of the hole')
        sx.same(o.diameter, w, 'diameter of the object')
    f.update_tool(n, feed_rate=8)
    sx.same(f.tools[n].diameter, new, 'diameter stays')
    sx.check([h.tool.number for h in f.hits] == [int(c) for c in p['f'][1::2]], 'every hole keeps its tool')
    # the other tools stay as they are, also when they now have the same size
    again = sx.real('again', 0.01, 10)
    f.update_tool(n, diameter=again, feed_rate=9)
    for k in tools:
        sx.same(f.tools[k].diameter, again if k == n else d[k], 'diameter of the tool')
    for h in f.hits:
        sx.same(h.tool.diameter, again if h.tool.number == n else d[h.tool.number], 'diameter of the hole')
        sx.check(h.tool.feed_rate == (9 if h.tool.number == n else None), 'feed rate of the tool')
    inside(sx, f.bounding_box, f, tools)


def h_objects(sx, p):
    f, tools = build(sx, p)
    sx.check(len(f.primitives) == len(f.hits), 'number of objects')
    for h, o in zip(f.hits, f.primitives):
        sx.same(o.diameter, h.tool.diameter, 'diameter of the object')
        sx.check(o.units == p['u'], 'units of the object')
        c = [o.position] if isinstance(h, DrillHit) else [o.start, o.end]
        for q, r in zip(points(h), c):
            sx.same(r, q, 'place of the object')
        if isinstance(h, DrillHit):
            sx.same(o.bounding_box, h.bounding_box, 'box of the object')
