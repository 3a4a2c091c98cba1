"""C26: file operations return a changed copy and leave the given file alone."""
from gerber import excellon, operations, rs274x
from gerber import gerber_statements as G
from gerber.cam import FileSettings
from harness import shapes as S
from harness.c04 import FILES, build
from harness.c21 import build as drill_file, FILES as DRILLS

BOUNDS = ('the Gerber files of C04 with any one number arbitrary, drill files of up to 4 holes and slots with arbitrary positions and sizes '
          '(moves only); conversion to inch and millimetres and moves by any amount, one or two operations')

OPS = ['to_inch', 'to_metric', 'offset']


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = sum(t.count(x) for x in '#~@')
        for k in range(max(c, 1)):
            for m, op in enumerate(OPS):
                for h in ([(n + k + m) % 7] if tier == 'quick' else range(7)):
                    out.append(('h_gerber', dict(file=n, sym=k, head=h, neg=(n + k) % 2 == 0, op=op, then=OPS[(n + m + 1) % 3])))
    for f in DRILLS:
        for u in ('inch', 'metric'):
            out.append(('h_drill', dict(f=f, u=u)))
    return out


def statements(f):
    out = []
    for s in f.statements:
        out.append([type(s).__name__] + [(k, v) for k, v in sorted(s.__dict__.items()) if v is None or isinstance(v, (int, float, str, bool, tuple))])
    return out


def state(f):
    return ([S.snap(o) for o in f.primitives], statements(f), [f.units, f.notation, f.zero_suppression, f.format, f.filename])


def same_state(sx, a, b, label):
    sx.check(len(a[0]) == len(b[0]), label + ': number of objects')
    for x, y in zip(a[0], b[0]):
        fx, fy = S.flat(x), S.flat(y)
        sx.check([e[:2] for e in fx] == [e[:2] for e in fy], label + ': kind of object')
        for (n, _, u), (_, _, v) in zip(fx, fy):
            sx.same(u, v, label + ': ' + n)
    sx.check(len(a[1]) == len(b[1]), label + ': number of statements')
    for x, y in zip(a[1], b[1]):
        sx.check(x[0] == y[0] and [e[0] for e in x[1:]] == [e[0] for e in y[1:]], label + ': kind of statement')
        for (n, u), (_, v) in zip(x[1:], y[1:]):
            sx.same(u, v, label + ': ' + n)
    sx.same(a[2], b[2], label + ': settings')


def apply(sx, f, op, d):
    if op == 'offset':
        f.offset(*d)
    else:
        getattr(f, op)()


def operate(f, op, d):
    return operations.offset(f, *d) if op == 'offset' else getattr(operations, op)(f)


def check(sx, f, p, ops):
    """f is not touched; every result is what the method would make of it"""
    d = (sx.real('dx', -50, 50), sx.real('dy', -50, 50))
    before = state(f)
    g = operate(f, ops[0], d)
    sx.check(g is not f and type(g) is type(f), 'a file of the same kind')
    same_state(sx, state(f), before, 'given file')
    mid = state(g)
    if len(ops) > 1:
        h = operate(g, ops[1], d)
        same_state(sx, state(g), mid, 'intermediate file')
        last = state(h)
        same_state(sx, state(f), before, 'given file')
    apply(sx, f, ops[0], d)
    same_state(sx, mid, state(f), 'result')
    if len(ops) > 1:
        apply(sx, f, ops[1], d)
        same_state(sx, last, state(f), 'second result')
    same_state(sx, state(g), mid, 'copy')


def h_gerber(sx, p):
    check(sx, rs274x.loads(build(sx, p), 'a.gbr'), p, [p['op'], p['then']])


def h_drill(sx, p):
    f, tools = drill_file(sx, p)
    check(sx, f, p, ['offset', 'offset'])
