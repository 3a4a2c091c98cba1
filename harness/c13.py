"""C13: moving a whole Gerber file translates its image."""
from gerber import gerber_statements as G
from gerber import rs274x
from gerber.cam import FileSettings
from harness import shapes as S
from harness.c04 import FILES, HEADS, APS, DIG, build

BOUNDS = ('the files of C04 with any one number arbitrary; one or two moves by any amount; written in a format with 6 decimal places and read again')


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = sum(t.count(x) for x in '#~@')
        for k in range(max(c, 1)):
            for h in ([(n + k) % 7] if tier == 'quick' else range(7)):
                out.append(('h_move', dict(file=n, sym=k, head=h, neg=(n + k) % 2 == 0, twice=k % 2 == 1)))
        for h in ([n % 7] if tier == 'quick' else range(7)):
            for ax in 'xy':
                out.append(('h_written', dict(file=n, sym=-1, head=h, neg=(n + h) % 2 == 1, ax=ax)))
    return out


def moved(sx, a, b, d, tol=None):
    sx.check(len(a) == len(b), 'number of objects')
    for fx, y in zip(a, b):
        fy = S.flat(S.snap(y))
        sx.check([e[:2] for e in fx] == [e[:2] for e in fy], 'kind of object')
        for (n, kind, u), (_, _, v) in zip(fx, fy):
            if kind == 'pt':
                # pens have no place of their own
                pen = isinstance(v[0], (int, float)) and tuple(v) == (0, 0) and tuple(u) == (0, 0)
                sx.same(v, u if pen else (u[0] + d[0], u[1] + d[1]), n, tol=tol)
            elif kind == 'size':
                sx.same(v, u, n, tol=tol)
            else:
                sx.same(v, u, n)


def h_move(sx, p):
    f = rs274x.loads(build(sx, p))
    before = [S.flat(S.snap(o)) for o in f.primitives]
    st = [[getattr(s, a) for a in 'xyij'] for s in f.statements if isinstance(s, G.CoordStmt)]
    d = (sx.real('dx', -50, 50), sx.real('dy', -50, 50))
    f.offset(d[0], d[1])
    if p['twice']:
        e = (sx.real('ex', -50, 50), 2)
        f.offset(*e)
        d = (d[0] + e[0], d[1] + e[1])
    moved(sx, before, f.primitives, d)
    now = [[getattr(s, a) for a in 'xyij'] for s in f.statements if isinstance(s, G.CoordStmt)]
    sx.check(len(st) == len(now), 'number of coordinate statements')
    for a, b in zip(st, now):
        for k in range(4):
            sx.check((a[k] is None) == (b[k] is None), 'same coordinates present')
            if a[k] is not None:
                # offsets of arc centres are relative
                sx.same(b[k], a[k] + (d[k] if k < 2 else 0), 'coordinate')


def h_written(sx, p):
    sx.option(general='exact', sig=10)
    f = rs274x.loads(build(sx, p))
    before = [S.flat(S.snap(o)) for o in f.primitives]
    m = sx.decimal('d', 3, 4)
    d = (m, 1.5) if p['ax'] == 'x' else (-0.25, -m)
    f.offset(d[0], d[1])
    out = sx.path('out.gbr')
    f.write(out, FileSettings('absolute', f.units, 'leading', (6, 6)))
    g = rs274x.read(out)
    moved(sx, before, g.primitives, d, tol=2e-6)
