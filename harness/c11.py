"""C11: converting a whole Gerber file scales image and written file alike."""
from gerber import gerber_statements as G
from gerber import rs274x
from gerber.cam import FileSettings
from harness import shapes as S
from harness.c04 import FILES, HEADS, APS, DIG, build

BOUNDS = ('the 38 files of C04 with any one number arbitrary; sequences of up to 4 conversions; written in a format with 6 decimal places and read again')
K = 25.4


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = sum(t.count(x) for x in '#~@')
        for k in range(max(c, 1)):
            for h in ([(n + k) % 7] if tier == 'quick' else range(7)):
                out.append(('h_convert', dict(file=n, sym=k, head=h, neg=(n + k) % 2 == 0, seq=SEQS[(n + k) % len(SEQS)])))
                marks = [x for x in t if x in '#~@']
                # sizes and radii in mm have endless digits in inch: their text is left to the thorough tier
                if tier != 'quick' or (c < 3 or (n + k) % 2) and not (marks and marks[k] in '@~' and 'MM' in HEADS[h]):
                    out.append(('h_written', dict(file=n, sym=k, head=h, neg=(n + k) % 2 == 1)))
    return out


SEQS = ['m', 'i', 'mi', 'im', 'mm', 'ii', 'mim', 'imi', 'miim']


def convert(f, c):
    f.to_metric() if c == 'm' else f.to_inch()


def factor(units, new):
    return 1 if units == new else K if new == 'metric' else 1 / K


def scaled(sx, a, b, k, units, tol=None):
    """object b is object a scaled by k"""
    sx.check(len(a) == len(b), 'number of objects')
    for fx, y in zip(a, b):
        fy = S.flat(S.snap(y))
        sx.check([e[:2] for e in fx] == [e[:2] for e in fy], 'kind of object')
        for (n, kind, u), (_, _, v) in zip(fx, fy):
            if kind == 'pt':
                sx.same(v, (u[0] * k, u[1] * k), n, tol=tol)
            elif kind == 'size':
                sx.same(v, u * k, n, tol=tol)
            elif kind == 'units':
                sx.check(v == units, 'units of the object')
            else:
                sx.same(v, u, n)


def numbers(s):
    """lengths a statement states"""
    if isinstance(s, G.CoordStmt):
        return [getattr(s, a) for a in 'xyij']
    if isinstance(s, G.OFParamStmt):
        return [s.a, s.b]
    if isinstance(s, G.ADParamStmt) and s.shape in 'CRO':
        return list(s.modifiers[0])
    if isinstance(s, G.ADParamStmt) and s.shape == 'P':
        return [m for i, m in enumerate(s.modifiers[0]) if i not in (1, 2)]
    return []


def others(s):
    if isinstance(s, G.CoordStmt):
        return [s.function, s.op]
    if isinstance(s, G.ADParamStmt) and s.shape == 'P':
        return [s.d, s.shape] + [m for i, m in enumerate(s.modifiers[0]) if i in (1, 2)]
    return [getattr(s, n, None) for n in ('d', 'shape', 'lp', 'ip', 'angle', 'name', 'comment', 'line', 'format')]


def h_convert(sx, p):
    f = rs274x.loads(build(sx, p))
    u0 = f.units
    before = [S.flat(S.snap(o)) for o in f.primitives]
    nums = [numbers(s) for s in f.statements]
    rest = [others(s) for s in f.statements]
    for c in p['seq']:
        convert(f, c)
    new = 'metric' if p['seq'][-1] == 'm' else 'inch'
    k = factor(u0, new)
    sx.check(f.units == new, 'units of the file')
    sx.check(f.settings.units == new, 'units of the settings')
    scaled(sx, before, f.primitives, k, new)
    for s, ns, r in zip(f.statements, nums, rest):
        for a, b in zip(ns, numbers(s)):
            sx.check((a is None) == (b is None), 'same values present')
            if a is not None:
                sx.same(b, a * k, 'value of a statement')
        sx.same(others(s), r, 'statement')
        if isinstance(s, G.MOParamStmt):
            sx.check(s.mode == new, 'units statement')


def h_written(sx, p):
    f = rs274x.loads(build(sx, p))
    sx.option(general='exact', sig=10)
    before = [S.flat(S.snap(o)) for o in f.primitives]
    new = 'inch' if f.units == 'metric' else 'metric'
    k = factor(f.units, new)
    convert(f, new[0])
    out = sx.path('out.gbr')
    f.write(out, FileSettings('absolute', new, 'leading', (6, 6)))
    g = rs274x.read(out)
    sx.check(g.units == new, 'units of the file')
    scaled(sx, before, g.primitives, k, new, tol=2e-6)
