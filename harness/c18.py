"""C18: an Excellon program drills the holes and slots its commands denote."""
from gerber import excellon
from gerber.cam import FileSettings
from gerber.primitives import Drill, Slot

BOUNDS = ('10 headers (unit, zero and format declarations, tool tables, no tool table) followed by every sequence of 2 (quick) or 3 (thorough) of 35 commands in drill, rout and incremental '
          'contexts, closed by drilled or routed coordinates; all coordinates symbolic: 1 to 6 digits, either sign; incremental G85 slots, and repeats and G85 slots in rout mode excluded')

#         text, settings (units, format, zeros), units, format, zeros, tools
HEADS = [('M48\nINCH,TZ\nT1C0.02\nT2C.035F100S5\nT3C0.1\n%\n', ('inch', (2, 4), 'trailing'), 'inch', (2, 4), 'trailing', {1: .02, 2: .035, 3: .1}),
         ('M48\n;FILE_FORMAT=3:3\nMETRIC,LZ\nT01C0.5\nT02C0.75\nT03C2\nM95\n', ('inch', (2, 4), 'leading'), 'metric', (3, 3), 'leading', {1: .5, 2: .75, 3: 200.}),
         ('M48\nVER,1\nFMAT,2\nMETRIC,TZ,000.000\nT01C0.5\nT02C0.75\nT03C2.5\n%\n', ('metric', (4, 2), 'leading'), 'metric', (3, 3), 'trailing', {1: .5, 2: .75, 3: 2.5}),
         ('%\nM72\nFMAT,2\nT1C0.5\nT2C0.75\nT3C2.5\n%\n', ('metric', (3, 3), 'leading'), 'inch', (2, 4), 'leading', {1: .5, 2: .75, 3: 2.5}),
         (';made by\nM48\nM71\n;TYPE=PLATED\nT1F00S00C0.5\n;TYPE=NON_PLATED\nT2C0.75\n\nT3C2.5\nT3C3.5\n%\n', ('inch', (3, 3), 'trailing'), 'metric', (3, 3), 'trailing', {1: .5, 2: .75, 3: 3.5}),
         ('M48\nINCH\n%\n', ('inch', (2, 4), 'trailing'), 'inch', (2, 4), 'trailing', {}),
         ('M48\nMETRIC,TZ\n%\n', ('metric', (3, 3), 'trailing'), 'metric', (3, 3), 'trailing', {})]

# declarations at unusual places
MORE = [('M48\nT1C0.5\nT2C0.75\nT3C2.5\n%\nM71\n', ('inch', (3, 3), 'trailing'), 'metric', (3, 3), 'trailing', {1: .5, 2: .75, 3: 2.5}),
        ('METRIC,TZ,0000.00\n%\nT1C0.5\nT2C0.75\nT3C2.5\n%\n', ('inch', (2, 4), 'leading'), 'metric', (4, 2), 'trailing', {1: .5, 2: .75, 3: 2.5}),
        ('%\nM48\nINCH,LZ\n%\n', ('inch', (2, 4), 'trailing'), 'inch', (2, 4), 'leading', {})]
ALL_HEADS = HEADS + MORE

OPS = ['T1', 'T02', 'T0301', 'T0', 'X#Y#', 'X#', 'Y#', 'X-#Y-#', 'Y-#', 'R3X#Y#', 'R2X#', 'R2Y-#', 'R11X-#Y#', 'X#Y#G85X#Y#', 'X#Y-#G85X#', 'X#Y#G85Y-#', 'X#G85Y#', 'Y#G85Y#',
       'Y#G85X#Y#', 'G00X#Y#', 'G00\nX#', 'G01X#Y#', 'G01Y#', 'G01\nX#Y-#', 'M15', 'M16', 'M17', 'G05', 'G90', 'ICI,ON', 'ICI,OFF', 'G40', ';any text', '', 'X1.5Y-2.25']


def jobs(tier):
    out = []
    ops = range(len(OPS))
    n = 0
    for ctx in range(len(AROUND)):
        for a in ops:
            for b in ops:
                if ctx > 1 and tier == 'quick' and (a + b) % 3:
                    continue
                for c in ([None] if tier == 'quick' or ctx > 1 else ops):
                    n += 1
                    k = [x for x in (a, b, c) if x is not None]
                    if interpret(program(ctx, k), None, None) is not None:
                        out.append(('h_program', dict(ctx=ctx, ops=k, head=n % len(ALL_HEADS), len=n % 3)))
    return out


# what comes before and after the commands
AROUND = [(['T1', 'X#Y#'], ['X#Y#']), (['T1', 'G00X#Y#', 'M15', 'G01X#'], ['X#Y#']), (['ICI,ON', 'T1', 'X#Y#', 'G00X#Y#', 'M15', 'G01X#'], ['X#Y#', 'M16', 'G00X#', 'M15', 'G01X#Y#']),
          (['ICI,ON', 'T1', 'X#Y#'], ['X#Y#', 'G00Y#', 'M15', 'G01X#', 'Y#', 'M17', 'G05', 'Y#']), (['T1', 'X#Y#'], ['G00Y#', 'M15', 'G01X#', 'Y#', 'M17', 'G05', 'Y#'])]


def program(ctx, ops):
    return AROUND[ctx][0] + [OPS[k] for k in ops] + AROUND[ctx][1]


def parts(t):
    """'X#Y-#' -> {'X': number, ...}"""
    out = {}
    for ax in 'XY':
        if ax in t:
            out[ax] = t[t.index(ax) + 1:]
    if 'X' in out and 'Y' in out:
        out['X'] = out['X'][:out['X'].index('Y')]
    return out


def interpret(lines, val, tools):
    """the hits the program denotes; None for programs that are not admissible.
    val(text) gives the value of the next number"""
    val = val or (lambda t: 0)
    pos = [0, 0]
    tool, mode, down, inc = None, 'drill', False, False
    hits = []

    def move(p):
        for k, ax in enumerate('XY'):
            if ax in p:
                v = val(p[ax])
                pos[k] = pos[k] + v if inc else v

    for t in lines:
        t = t.replace('\n', '')
        if not t or t[0] == ';' or t == 'G40':
            continue
        if t[0] == 'T':
            n = int(t[1:3])
            if n:
                tool = n
        elif t[0] == 'R':
            if mode != 'drill':
                return None
            c, p = t[1:].split('X' if 'X' in t else 'Y')[0], parts(t)
            d = [val(p[ax]) if ax in p else 0 for ax in 'XY']
            for _ in range(int(c)):
                pos = [pos[0] + d[0], pos[1] + d[1]]
                hits.append((tool, tuple(pos)))
        elif 'G85' in t:
            if mode != 'drill' or inc:
                return None
            a, b = t.split('G85')
            move(parts(a))
            start = tuple(pos)
            move(parts(b))
            hits.append((tool, start, tuple(pos)))
        elif t[:3] in ('G00', 'G01'):
            mode = 'rout' if t[:3] == 'G00' else 'linear'
            start = tuple(pos)
            move(parts(t[3:]))
            if mode == 'linear' and down:
                hits.append((tool, start, tuple(pos)))
        elif t[0] in 'XY':
            start = tuple(pos)
            move(parts(t))
            if mode == 'drill':
                hits.append((tool, tuple(pos)))
            elif mode == 'linear' and down:
                hits.append((tool, start, tuple(pos)))
        elif t == 'M15':
            down = True
        elif t in ('M16', 'M17'):
            down = False
        elif t == 'G05':
            mode, down = 'drill', False
        elif t in ('G90', 'ICI,OFF'):
            inc = False
        elif t == 'ICI,ON':
            inc = True
    return hits


def h_program(sx, p):
    head, st, units, fmt, zeros, table = ALL_HEADS[p['head']]
    i, d = fmt
    lines = program(p['ctx'], p['ops'])
    text = head
    vals = []
    for n, t in enumerate(lines):
        for ch in t:
            if ch == '#':
                k = [i + d, i, i + 1][(p['len'] + len(vals)) % 3]
                ds = sx.digits('v%d' % len(vals), k)
                # zeros: the ones that are kept
                vals.append(sx.pos_value(ds, d if zeros == 'trailing' else k - i))
                text = text + ds
            else:
                text = text + ch
        text = text + '\n'
    text = text + 'M30\n'
    seq = iter(vals)

    def val(t):
        if '#' in t:
            v = next(seq)
            return -v if t[0] == '-' else v
        return float(t)
    hits = interpret(lines, val, table)
    f = excellon.loads(text, settings=FileSettings('absolute', st[0], zeros=st[2], format=st[1]))
    sx.check(f.units == units and f.settings.units == units, 'units')
    sx.check(tuple(f.settings.format) == tuple(fmt), 'format')
    sx.check(f.settings.zeros == zeros, 'zeros')
    tools = dict(table)
    for h in hits:
        if h[0] not in tools:
            tools[h[0]] = (16 + 8 * h[0]) / 1000. * (1 if units == 'inch' else 25.4)
    for n in tools:
        sx.check(n in f.tools and f.tools[n].number == n, 'tool defined')
        sx.same(f.tools[n].diameter, tools[n], 'tool diameter', tol=1e-9)
        sx.check(f.tools[n].hit_count == len([h for h in hits if h[0] == n]), 'hit count of the tool')
        sx.check(f.hit_count(n) == len([h for h in hits if h[0] == n]), 'hit count of the file')
    sx.check(len(f.hits) == len(hits), 'number of hits')
    prims = f.primitives
    sx.check(len(prims) == len(hits), 'number of graphic objects')
    for g, o, h in zip(f.hits, prims, hits):
        sx.check(g.tool.number == h[0], 'tool of the hit')
        sx.check(o.units == units, 'units of the object')
        sx.same(o.diameter, tools[h[0]], 'diameter', tol=1e-9)
        if len(h) == 2:
            sx.check(isinstance(g, excellon.DrillHit) and isinstance(o, Drill), 'a drilled hole')
            for q in (g, o):
                for k in (0, 1):
                    sx.same(q.position[k], h[1][k], 'position')
        else:
            sx.check(isinstance(g, excellon.DrillSlot) and isinstance(o, Slot), 'a slot')
            for q in (g, o):
                for k in (0, 1):
                    sx.same(q.start[k], h[1][k], 'start of the slot')
                    sx.same(q.end[k], h[2][k], 'end of the slot')
