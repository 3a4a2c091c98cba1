"""C07: aperture macro expressions evaluate by the rules of arithmetic."""
from gerber.gerber_statements import AMParamStmt

BOUNDS = ('expressions of up to 3 operators (every tree shape and every operator combination of + - x X / and unary minus), '
          'rendered with minimal and with full parentheses; literals of up to 2+2 arbitrary digits in 7 spellings; '
          'arbitrary real parameter values; up to 3 assignments')

LITS = ('d', 'dd', 'd.d', '.dd', 'd.', '0.d', '0d')


# expressions are tuples: ('lit', form) ('var', n) ('neg', e) (op, a, b)
def shapes(n):
    if n == 0:
        yield None
    for k in range(n):
        for a in shapes(k):
            for b in shapes(n - 1 - k):
                yield (a, b)


def fill(shape, ops, leaves):
    if shape is None:
        return leaves.pop(0)
    op = ops.pop(0)
    a = fill(shape[0], ops, leaves)
    return [op, a, fill(shape[1], ops, leaves)]


def combos(n, items):
    if n == 0:
        return [[]]
    return [[i] + r for i in items for r in combos(n - 1, items)]


def expressions(tier):
    out = []
    leaf_cycle = [['var', 1], ['lit', 'd.d'], ['var', 2], ['lit', 'd'], ['lit', '.dd'], ['var', 3]]
    k = 0
    for n in (1, 2, 3):
        for sh in shapes(n):
            for ops in combos(n, ['+', '-', 'x', '/']):
                leaves = [leaf_cycle[(k + i) % 6] for i in range(n + 1)]
                k += 1
                out.append(fill(sh, list(ops), leaves))
    for f in LITS:
        out.append(['lit', f])
        out.append(['neg', ['lit', f]])
        out.append(['-', ['lit', f], ['var', 1]])
        out.append(['X', ['var', 2], ['lit', f]])
    for n in (1, 2, 3, 9):
        out.append(['var', n])
        out.append(['neg', ['var', n]])
    for op in '+-x/':
        out.append(['neg', [op, ['var', 1], ['lit', 'd']]])
        out.append([op, ['neg', ['var', 1]], ['lit', 'd']])
        out.append([op, ['neg', [op, ['var', 1], ['lit', 'd']]], ['var', 2]])
        out.append([op, ['lit', 'dd'], ['par', ['neg', ['var', 1]]]])
    return out


PREC = {'+': 1, '-': 1, 'x': 2, 'X': 2, '/': 2}


def jobs(tier):
    out = []
    for e in expressions(tier):
        for style in ('min', 'full'):
            for place in ('modifier', 'equation'):
                if tier == 'quick' and size(e) >= 3 and (style == 'full') != (place == 'equation'):
                    continue
                out.append(('h_expr', dict(e=e, style=style, place=place)))
    out += [('h_sequence', dict(k=k)) for k in range(7)]
    return out


def size(e):
    if e[0] in ('lit', 'var'):
        return 0
    return (0 if e[0] in ('neg', 'par') else 1) + sum(size(a) for a in e[1:])


class Gen(object):
    def __init__(self, sx, env):
        self.sx, self.env, self.n = sx, env, 0

    def literal(self, form):
        sx = self.sx
        txt, digs, point, seen = '', '', None, 0
        for c in form:
            if c == 'd':
                self.n += 1
                d = sx.digits('lit%d' % self.n, 1)
                txt = txt + d
                digs = digs + d
                seen += 1
            elif c == '0':
                txt = txt + '0'
                digs = digs + '0'
                seen += 1
            else:
                txt = txt + '.'
                point = seen
        return txt, sx.pos_value(digs, seen - point if point is not None else 0)

    def build(self, e, style, ctx=0, right=False, first=True):
        """-> (text, value); operands are generated once, in text order"""
        sx = self.sx
        k = e[0]
        if k == 'lit':
            return self.literal(e[1])
        if k == 'var':
            return '$%d' % e[1], self.env.get(e[1], 0)
        if k == 'par':
            t, v = self.build(e[1], style)
            return '(' + t + ')', v
        if k == 'neg':
            inner_bin = e[1][0] not in ('lit', 'var', 'par')
            t, v = self.build(e[1], style, 3, False, False)
            if inner_bin and not t.startswith('('):
                t = '(' + t + ')'
            t = '-' + t
            if not first:
                t = '(' + t + ')'
            return t, -v
        p = PREC[k]
        lt, lv = self.build(e[1], style, p, False, first)
        rt, rv = self.build(e[2], style, p, True, False)
        t = lt + k + rt
        if k == '+':
            v = lv + rv
        elif k == '-':
            v = lv - rv
        elif k in 'xX':
            v = lv * rv
        else:
            sx.assume(sx.Not(sx.is_same(rv, 0)))
            v = lv / rv
        if style == 'full' and ctx or p < ctx or (right and p == ctx):
            t = '(' + t + ')'
        return t, v


def h_expr(sx, p):
    sx.option(general='exact')
    m1 = sx.real('p1', -50, 50)
    m2 = sx.real('p2', -50, 50)
    m3 = sx.real('p3', -50, 50)
    env = {1: m1, 2: m2, 3: m3}
    g = Gen(sx, env)
    tail = sx.decimal('tail', 1, 1)
    tailtxt = '%.1f' % tail
    if p['place'] == 'modifier':
        t, v = g.build(p['e'], p['style'])
        macro = '1,1,' + t + ',' + tailtxt + ',' + t + '*'
    else:
        t, v = g.build(p['e'], p['style'])
        macro = '$5=5*$5=' + t + '*$6=$5*1,1,$5,' + tailtxt + ',$6*'
    stmt = AMParamStmt('AM', 'TEST', macro)
    stmt.build([[m1, m2, m3]])
    sx.check(len(stmt.primitives) == 1, 'one primitive per primitive block')
    c = stmt.primitives[0]
    sx.check(type(c).__name__ == 'AMCirclePrimitive', 'primitive code selects the shape')
    sx.check(c.exposure == 'on', 'exposure flag')
    sx.same(c.diameter, v, 'expression value')
    sx.same(c.position[0], tail, 'following modifier is unaffected')
    sx.same(c.position[1], v, 'expression value after another modifier')


def h_sequence(sx, p):
    """variables: assignment order, re-assignment, parameters, undefined = 0,
    and evaluation does not leak between instances of one macro"""
    sx.option(general='exact')
    a = sx.real('a', -50, 50)
    b = sx.real('b', -50, 50)
    c = sx.real('c', -50, 50)
    d = sx.real('d', -50, 50)
    k = p['k']
    if k == 0:
        macro, want = '$3=$1+$2*1,1,$3,0,0*$3=$3x2*1,1,$3,$1,$2*', [(a + b, 0, 0), ((a + b) * 2, a, b)]
    elif k == 1:
        macro, want = '1,1,$3,$4,$1*$4=$1*1,1,$3,$4,$2*', [(0, 0, a), (0, a, b)]
    elif k == 2:
        macro, want = '$1=$2*$2=7*1,1,$1,$2,$3*', [(b, 7, 0)]
    elif k == 3:
        macro, want = '0 a comment $1+2*1,1,$1,$2,$3*', [None, (a, b, 0)]
    elif k == 4:
        macro, want = '1,0,$1,$2,$1-$2*', [(a, b, a - b)]
    elif k == 5:
        macro, want = '\n1,1, $1, $2 ,1*\n1,1,2,$1 - $2,3*\n', [(a, b, 1), (2, a - b, 3)]
    else:
        macro, want = '$3=$3+$1*1,1,$3,$4,$2*$4=$3*', [(a, 0, b)]
    stmt = AMParamStmt('AM', 'TEST', macro)
    stmt.build([[a, b]])
    got = stmt.primitives
    sx.check(len(got) == len(want), 'primitives in block order')
    for g, w in zip(got, want):
        if w is None:
            sx.check(g.code == 0, 'comment keeps its place')
            continue
        sx.same((g.diameter, g.position[0], g.position[1]), w, 'variable values')
        sx.check(g.exposure == ('off' if k == 4 else 'on'), 'exposure flag')
    # a second aperture made from the same macro sees only its own parameters
    stmt.build([[c, d]])
    again = [(g.diameter, g.position[0], g.position[1]) for g in stmt.primitives if g.code]
    stmt2 = AMParamStmt('AM', 'TEST2', macro)
    stmt2.build([[c, d]])
    fresh = [(g.diameter, g.position[0], g.position[1]) for g in stmt2.primitives if g.code]
    sx.same(again, fresh, 'instances do not influence each other')
    stmt2.build()
    base = [(g.diameter, g.position[0], g.position[1]) for g in stmt2.primitives if g.code]
    stmt3 = AMParamStmt('AM', 'TEST3', macro)
    stmt3.build()
    base2 = [(g.diameter, g.position[0], g.position[1]) for g in stmt3.primitives if g.code]
    sx.same(base, base2, 'instances without parameters do not influence each other')
