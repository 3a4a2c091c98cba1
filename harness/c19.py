"""C19: an Excellon file that is written and read again has the same holes."""
from gerber import excellon
from gerber.cam import FileSettings
from harness.c18 import HEADS, MORE

HEADS = HEADS[:6] + MORE

BOUNDS = ('24 programs of up to 12 commands under 9 headers with any one coordinate arbitrary (either sign, such that no hole exceeds the format), others fixed; read again with the same settings, and written again')

BODY = ['T1\nX#Y#\nX#\nY#\n', 'T1\nX#Y#\nT2\nX#Y#\nT1\nX#Y#\n', 'T2\nX#Y#\nR3X#\nT1\nY#\n', 'T1\nX#Y#\nICI,ON\nX#Y#\nX#\nT2\nX#Y#\n', 'T1\nX#Y#\nICI,ON\nR2X#Y#\nICI,OFF\nX#Y#\n',
        'T1\nX#Y#G85X#Y#\nT3\nX#Y#\n', 'T3\nX#Y#G85X#\nX#Y#G85Y#\nT1\nX#Y#\n', 'T1\nG00X#Y#\nM15\nG01X#\nY#\nM16\nG05\nX#Y#\n', 'T2\nG00X#Y#\nM15\nG01X#Y#\nG01X#\nM17\nG05\nT1\nX#Y#G85X#Y#\n',
        'X#Y#\nX#\nT2\nY#\n', 'X#Y#\nR2X#Y#\nX#\n', 'X#Y#G85X#Y#\nT1\nX#Y#\n', 'G00X#Y#\nM15\nG01X#Y#\nM16\nG05\nX#Y#\n', 'T1\nX#Y#\nT0\n', 'G90\nT1\nX#Y#\nF100\nT2\nX#Y#\nX1.5Y-2.25\n',
        ';any comment\nT1\nX#Y#\n;another one\nX#Y#\nG40\nT2\nX#Y#\n', 'ICI,ON\nT1\nX#Y#\nX#Y#\nT2\nX#\n', 'ICI,ON\nX#Y#\nX#Y#\n', 'T0102\nX#Y#\n', 'T3\nT2\nT1\nX#Y#\n', 'T1\n',
        'T1\nX#Y#\nM00\nX#Y#\n', 'T5\nX#Y#\nT6\nX#Y#\n', 'M16\nT1\nX#Y#\nG05\nY#\n']


def jobs(tier):
    out = []
    for n, b in enumerate(BODY):
        c = b.count('#')
        for h in range(len(HEADS)):
            if (b.startswith('T') and b[1] in '56') != (h in (5, 8)):
                continue
            for k in range(max(c, 1)):
                for neg in (False, True):
                    if tier == 'quick' and (n + h + k) % 3 and not (h == n % 5):
                        continue
                    out.append(('h_written', dict(body=n, head=h, sym=k, neg=neg)))
    return out


def h_written(sx, p):
    head, st, units, fmt, zeros, table = HEADS[p['head']]
    i, d = fmt
    text, k = head, 0
    for c in BODY[p['body']]:
        if c == '#':
            if k == p['sym']:
                ds = sx.digits('v', i + d)
            else:
                ds = str(7 * (k + 3) % 9 + 1).zfill(i) + '1' + '0' * (d - 1)
                ds = ds[-(i + d):]
            text = text + ('-' if p['neg'] and k == p['sym'] else '') + ds
            k += 1
        else:
            text = text + c
    f = excellon.loads(text + 'M30\n', settings=FileSettings('absolute', st[0], zeros=st[2], format=st[1]))
    for h in f.hits:
        for q in ('position', 'start', 'end'):
            if hasattr(h, q):
                sx.assume(sx.And(*[sx.And(c < 10 ** i - 0.5, c > -10 ** i + 0.5) for c in getattr(h, q)]))
    sx.option(general='exact')
    out = sx.path('out.drl')
    f.write(out)
    first = sx.get_file('out.drl')
    g = excellon.loads(first, settings=FileSettings('absolute', st[0], zeros=st[2], format=st[1]))
    sx.check(g.units == f.units, 'units')
    sx.check(tuple(g.settings.format) == tuple(f.settings.format), 'format')
    sx.check(g.settings.zeros == f.settings.zeros, 'zeros')
    sx.check(sorted(f.tools) == sorted(g.tools), 'tools')
    for n in f.tools:
        t, u = f.tools[n], g.tools[n]
        for a in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            x, y = getattr(t, a), getattr(u, a)
            sx.check((x is None) == (y is None), 'tool parameters present')
            if x is not None:
                sx.same(y, x, 'tool ' + a)
        sx.check(t.hit_count == u.hit_count, 'hit count')
        a = [h for h in f.hits if h.tool.number == n]
        b = [h for h in g.hits if h.tool.number == n]
        sx.check(len(a) == len(b), 'number of hits of a tool')
        for x, y in zip(a, b):
            sx.check(type(x) == type(y), 'kind of hit')
            for q in ('position', 'start', 'end'):
                if hasattr(x, q):
                    for m in (0, 1):
                        sx.same(getattr(y, q)[m], getattr(x, q)[m], q)
    sx.check(len(f.hits) == len(g.hits), 'number of hits')
    g.write(out)
    sx.same(sx.get_file('out.drl'), first, 'written again')
