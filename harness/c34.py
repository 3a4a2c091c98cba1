"""C34: the layout of a drill program has no influence on what it says."""
import re
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon_statements import CommentStmt, RewindStopStmt, HeaderEndStmt
from harness.c18 import HEADS
from harness.c33 import ALL

BOUNDS = ('31 programs of up to 20 commands under 6 headers with any one coordinate arbitrary, in 12 layouts: line ends LF and CRLF, empty lines, blanks around lines, comments between the commands, '
          'tool numbers of one to three digits, routing codes on a line of their own, either end of the header, plus signs, coordinates with points')

SHAPES = ['crlf', 'empty', 'blanks', 'indent', 'comments', 'short tools', 'long tools', 'own line', 'own line empty', 'end', 'points', 'last', 'all']


def jobs(tier):
    out = []
    for n, b in enumerate(ALL):
        c = b.count('#')
        for h in range(len(HEADS) - 1):
            if (b.startswith('T') and b[1] in '56') != (h == 5):
                continue
            for k, s in enumerate(SHAPES):
                if tier == 'quick' and (n + h + k) % 2:
                    continue
                for m in ([(n + k + h) % max(c, 1)] if tier == 'quick' else range(max(c, 1))):
                    out.append(('h_layout', dict(body=n, head=h, sym=m, neg=(n + k) % 2 == 0, shape=s)))
    return out


def coordinate(p, k, i, d):
    ds = str(7 * (k + 3) % 9 + 1).zfill(i) + '1' + '0' * (d - 1)
    return ds[-(i + d):]


def lines(sx, p):
    """the program as lines of pieces: texts and (sign, digits) for coordinates"""
    head, st, units, (i, d), zeros, table = HEADS[p['head']]
    out = [[l] for l in head.split('\n')[:-1]]
    body = ALL[p['body']] + 'M30\n'
    k, line = 0, ['']
    for c in body:
        if c == '\n':
            out.append(line)
            line = ['']
        elif c == '#':
            sym = k == p['sym']
            line += [('-' if sym and p['neg'] else '', sx.digits('v', i + d) if sym else coordinate(p, k, i, d)), '']
            k += 1
        else:
            line[-1] += c
    return out, i, d


def put(ls, end='\n', before='', after=''):
    t = ''
    for l in ls:
        t = t + before
        for x in l:
            t = t + (x if isinstance(x, str) else x[0] + x[1])
        t = t + after + end
    return t


def laid_out(ls, shape, i, d, head):
    end, before, after = '\n', '', ''
    all_ = shape == 'all'
    if shape == 'crlf' or all_:
        end = '\r\n'
    if shape == 'empty':
        end = '\n\n  \n'
    if shape == 'indent':
        before = '  \t'
    if shape == 'blanks' or all_:
        after = '  '
    if shape == 'comments' or all_:
        out, n = [], 0
        for l in ls:
            if n:
                out.append([';note %d: X1 T2 G05 M30 R2X1' % n])
            out.append(l)
            n += 1
        ls = out
    if shape in ('short tools', 'long tools') or all_:
        def number(m):
            return 'T' + ('%d' if shape == 'short tools' else '%02d' if shape == 'long tools' else '%03d') % int(m.group(1))
        ls = [[re.sub(r'^T([0-9]{1,2})(?![0-9])', number, x) if isinstance(x, str) else x for x in l] if not (isinstance(l[0], str) and l[0][:1] == ';') else l for l in ls]
    if shape in ('own line', 'own line empty') or all_:
        out = []
        for l in ls:
            m = isinstance(l[0], str) and re.match('(G0[01])(.+)', l[0])
            if m and len(l) > 1:
                out.append([m.group(1)])
                if shape == 'own line empty':
                    out += [[''], [' ']]
                l = [m.group(2)] + l[1:]
            out.append(l)
        ls = out
    if shape == 'end' and head[0].startswith('M48'):
        # the header that starts with M48 may end in either way
        ls = [[{'%': 'M95', 'M95': '%'}.get(x, x) if isinstance(x, str) else x for x in l] for l in ls]
    if shape == 'points':
        ls = [[x if isinstance(x, str) else (x[0], x[1][:i] + '.' + x[1][i:]) for x in l] for l in ls]
    t = put(ls, end, before, after)
    if shape == 'last':
        # no line end after the last command, or empty lines
        t = t[:-1] if head[0] == 'M48' else t + '\n\n'
    return t


def h_layout(sx, p):
    head, st, units, fmt, zeros, table = HEADS[p['head']]
    ls, i, d = lines(sx, p)
    f = excellon.loads(put(ls), settings=FileSettings('absolute', st[0], zeros=st[2], format=st[1]))
    g = excellon.loads(laid_out(ls, p['shape'], i, d, head.split('\n')), settings=FileSettings('absolute', st[0], zeros=st[2], format=st[1]))
    sx.check((f.units, tuple(f.format), f.zeros, f.notation) == (g.units, tuple(g.format), g.zeros, g.notation), 'settings')
    skip = (CommentStmt,) if p['shape'] in ('comments', 'all') else (HeaderEndStmt, RewindStopStmt) if p['shape'] == 'end' else ()
    a, b = ([x for x in e.statements if not isinstance(x, skip)] for e in (f, g))
    sx.check([type(x) for x in a] == [type(x) for x in b], 'commands')
    sx.check(sorted(f.tools) == sorted(g.tools), 'tools')
    for n in f.tools:
        t, u = f.tools[n], g.tools[n]
        for w in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            x, y = getattr(t, w), getattr(u, w)
            sx.check((x is None) == (y is None), 'tool parameters present')
            if x is not None:
                sx.same(y, x, 'tool ' + w)
        sx.check(t.plated == u.plated and t.hit_count == u.hit_count, 'plating and hits of a tool')
    sx.check(len(f.hits) == len(g.hits), 'number of hits')
    for x, y in zip(f.hits, g.hits):
        sx.check(type(x) == type(y) and getattr(x, 'slot_type', None) == getattr(y, 'slot_type', None), 'kind of hit')
        sx.check(x.tool.number == y.tool.number, 'tool of a hit')
        for q in ('position', 'start', 'end'):
            if hasattr(x, q):
                for m in (0, 1):
                    sx.same(getattr(y, q)[m], getattr(x, q)[m], q)
