"""C03: Gerber statements survive being written and read back."""
from gerber import gerber_statements as G
from gerber import rs274x
from gerber.cam import FileSettings

BOUNDS = ('coordinates: 4 arguments (any real value that fits the format), 12 formats x 3 zero modes x 2 notations; apertures: up to 5 modifiers of 3+4 digits; '
          'offsets and scale factors: 3+5 digits and any value below 1e-4; names and comments of up to 6 characters; macros with up to 3 shapes and parameters of 2+2 digits')

FORMATS = [(2, 4), (2, 5), (3, 3), (2, 3), (4, 6), (6, 6), (1, 3), (3, 4), (0, 4), (4, 0), (2, 6), (5, 5)]
ZS = ('leading', 'trailing', 'none')
CODE = {'leading': 'L', 'trailing': 'T', 'none': 'D'}
SHAPES = [('circle', 1), ('rect', 2), ('obround', 2), ('polygon', 1)]
NAME_CHARS = 'aZ09_+-/!?<>(){}.|&@# :'


def jobs(tier):
    out = []
    for f in FORMATS if tier == 'quick' else [(i, d) for i in range(7) for d in range(7) if i + d > 1]:
        for zs in ZS:
            for n in ('absolute', 'incremental'):
                out.append(('h_format', dict(f=f, zs=zs, n=n)))
            for k, (fn, axes, op) in enumerate(COORDS):
                for a in axes or '-':
                    if tier == 'quick' and (FORMATS.index(f) + k) % 3 and f not in ((2, 4), (3, 3)):
                        continue
                    for neg in (False, True):
                        out.append(('h_coord', dict(f=f, zs=zs, fn=fn, axes=axes, op=op, sym=a, neg=neg)))
    for u in ('inch', 'metric', 'G70', 'G71'):
        out.append(('h_units', dict(u=u)))
    for s, n in SHAPES:
        for hole in (0, 1, 2):
            for k in range(4):
                if k < 2 or k < 2 + hole:
                    out.append(('h_aperture', dict(shape=s, n=n, hole=hole, d=(10, 12, 104, 999)[k], sym=k)))
    for n in range(1, 4):
        for k in range(n):
            out.append(('h_params', dict(n=n, sym=k)))
    for m in range(len(MACROS)):
        out.append(('h_macro', dict(m=m, uses=1)))
        out.append(('h_macro', dict(m=m, uses=2)))
        out.append(('h_macro', dict(m=m, uses=0)))
    for m, t in enumerate(SMALL):
        for k in range(t.count('#') // 2):
            for form in ('0.0000dd', '-0.000000d', '0.000d5', 'd000000.0') if tier == 'quick' else ('0.0000ddd', '-0.000000dd', '-0.00000d', '0.000dd', 'd0000000000.0', '-d000000000000.5'):
                if t[0] == '7' and (k in (2, 3) or k == 4 and form[:2] != '0.'):
                    # the gap of a thermal is smaller than its diameters
                    continue
                out.append(('h_small', dict(m=m, k=k, form=form)))
    for k in 'OS':
        for ax in ('a', 'b', 'ab'):
            for form in ('ddd.ddddd', 'd.dd', '-d.ddddd', '.', '0.0000d', '-0.00000dd', 'dd'):
                if form == '.':
                    continue
                out.append(('h_offset', dict(kind=k, ax=ax, form=form, text=False)))
                if 'e' not in form:
                    out.append(('h_offset', dict(kind=k, ax=ax, form=form, text=True)))
    for w in SIMPLE:
        out.append(('h_simple', dict(w=w)))
    for kind in ('comment', 'IN', 'LN'):
        for n in range(0, 7):
            out.append(('h_name', dict(kind=kind, n=n)))
    out += [('h_image', dict(what=w)) for w in ('IR', 'MI')]
    for d in (1, 2, 3):
        for g54 in (False, True):
            out.append(('h_select', dict(d=d, g54=g54)))
    return out


COORDS = [('G01', 'xy', 'D01'), (None, 'x', 'D02'), (None, 'y', 'D03'), ('G02', 'xyij', 'D01'), ('G03', 'ij', 'D01'),
          ('G03', 'xj', 'D01'), (None, '', 'D03'), ('G01', '', None), (None, 'xy', None), ('G02', 'yi', None)]


def header(f=(2, 5), zs='leading', n='absolute', u='IN'):
    return '%%FS%s%sX%d%dY%d%d*%%\n%%MO%s*%%\n' % ((CODE[zs], 'A' if n == 'absolute' else 'I') + tuple(f) * 2 + (u,))


def read(text, i=-1):
    return rs274x.loads(text).statements[i]


def settings(f=(2, 5), zs='leading', n='absolute', u='inch'):
    s = FileSettings(n, u, 'leading', f)
    s.zero_suppression = zs
    return s


def h_format(sx, p):
    for s in (G.FSParamStmt('FS', p['zs'], p['n'], tuple(p['f'])), G.FSParamStmt.from_settings(settings(p['f'], p['zs'], p['n']))):
        for st in (None, settings(p['f'], p['zs'], p['n'])):
            t = s.to_gerber(st) if st else s.to_gerber()
            b = read(t + '\n')
            sx.check(type(b) is G.FSParamStmt, 'a format statement')
            sx.check(b.zero_suppression == p['zs'], 'zero suppression')
            sx.check(b.notation == p['n'], 'notation')
            sx.check(tuple(b.format) == tuple(p['f']), 'format')
    # written for other settings
    o = settings((3, 6), 'trailing', 'absolute')
    b = read(s.to_gerber(o) + '\n')
    sx.check((b.zero_suppression, b.notation, tuple(b.format)) == ('trailing', 'absolute', (3, 6)), 'settings override the format')


def h_coord(sx, p):
    i, d = f = tuple(p['f'])
    half = 0.5 / 10 ** d
    v = {}
    for n, a in enumerate('xyij'):
        if a in p['axes']:
            v[a] = round((-1) ** n * (10.0 ** i * 0.3 + n) % 10 ** i, d)
    if p['sym'] != '-':
        a = sx.decimal('v', i, d) + sx.real('eps', -half, half, strict=True)
        sx.assume(a >= 0)
        v[p['sym']] = -a if p['neg'] else a
    s = G.CoordStmt(p['fn'], v.get('x'), v.get('y'), v.get('i'), v.get('j'), p['op'], None)
    t = s.to_gerber(settings(f, p['zs']))
    h = header(f, p['zs']) + 'G75*\n%ADD10C,0.1*%\nD10*\n'
    b = read(h + t + '\n')
    sx.check(type(b) is G.CoordStmt, 'a coordinate statement')
    sx.check(b.function == p['fn'], 'function')
    # a block with coordinates and no operation code repeats the latest one
    sx.check(b.op == (p['op'] or ('D02' if p['axes'] else None)), 'operation')
    for a in 'xyij':
        w = getattr(b, a)
        sx.check((w is None) == (a not in v), 'same coordinates present')
        if w is not None:
            e = w - v[a]
            sx.check(sx.And(e <= half * (1 + 1e-7), e >= -half * (1 + 1e-7)), 'value')


def h_units(sx, p):
    if p['u'][0] == 'G':
        s = read(p['u'] + '*\n')
        want = {'G70': 'inch', 'G71': 'metric'}[p['u']]
    else:
        s = G.MOParamStmt('MO', p['u'])
        want = p['u']
    b = read(s.to_gerber() + '\n')
    sx.check(type(b) is G.MOParamStmt and b.mode == want, 'units')
    sx.check(rs274x.loads(s.to_gerber() + '\n').units == want, 'units of the file')


def amount(sx, p, name, n, i=2, d=4):
    """one of the numbers of a statement is arbitrary, the others are fixed"""
    if p['sym'] != n:
        return (0.015, 0.45, 1.5, 12.3456, 0.0123456, 20.0)[n]
    x = sx.decimal(name, i, d)
    sx.assume(x >= 0.0001)
    return x


def h_aperture(sx, p):
    sx.option(general='exact')
    args = [amount(sx, p, 's%d' % k, k) for k in range(p['n'])]
    if p['shape'] == 'polygon':
        args += [6, amount(sx, p, 'rot', 1, 3, 2)]
    hole = {}
    want = list(args)
    if p['hole'] == 1:
        h = amount(sx, p, 'h', 2)
        hole = dict(hole_diameter=h)
        want.append(h)
    elif p['hole'] == 2:
        a, b = amount(sx, p, 'hw', 2, 1, 4), amount(sx, p, 'hh', 3, 2, 3)
        hole = dict(hole_width=a, hole_height=b)
        want += [a, b]
    s = getattr(G.ADParamStmt, p['shape'])(p['d'], *args, **hole)
    b = read(header() + s.to_gerber() + '\n')
    sx.check(type(b) is G.ADParamStmt, 'an aperture definition')
    sx.check(b.d == p['d'], 'D-code')
    sx.check(b.shape == {'circle': 'C', 'rect': 'R', 'obround': 'O', 'polygon': 'P'}[p['shape']], 'shape')
    sx.check(len(b.modifiers) == 1, 'one list of modifiers')
    sx.same(list(b.modifiers[0]), want, 'modifiers')


def h_params(sx, p):
    """parameters of an aperture taken from a macro"""
    sx.option(general='exact')
    v = []
    for k in range(p['n']):
        x = amount(sx, p, 'p%d' % k, k)
        v.append(-x if k == 1 else x)
    s = G.ADParamStmt('AD', 15, 'MAC', (v,))
    h = header() + '%AMMAC*1,1,$1,0,0*%\n'
    b = read(h + s.to_gerber() + '\n')
    sx.check(type(b) is G.ADParamStmt and b.d == 15 and b.shape == 'MAC', 'aperture definition')
    sx.same(list(b.modifiers[0]), v, 'parameters')
    e = G.ADParamStmt.macro(16, 'MAC')
    b = read(h + e.to_gerber() + '\n')
    sx.check(b.d == 16 and b.shape == 'MAC' and not any(b.modifiers), 'no parameters')


MACROS = ['1,1,$1,$2,0', '21,1,$1,$2,0,0,45', '20,1,$1,0,0,$2,1,0*1,0,$2,1,1', '5,1,6,$1,$2,2,30', '4,1,3,0,0,$1,0,0,$2,0,0,0',
          '0 note*1,1,$1x2,0,0', '$3=$1+$2*1,1,$3,$1,0', '7,0,0,$1,$2,0.1,0', '22,1,$1,$2,0,0,0', '1,1,2,0.5,0', '4,1,3,0.123456789,0,1.5,0,0,2.25,0.123456789,0,0',
          '5,1,8,0.12345,-12.3456,1.23456,22.5', '21,1,6.8,1.25,3.43215,-0.65432,30', '6,0.12345,1,5,0.5,0.5,2,0.1,6,0']


def fields(prim):
    return sorted((k, v) for k, v in prim.__dict__.items())


def h_macro(sx, p):
    """a macro, and the shapes every use of it stands for"""
    m = MACROS[p['m']]
    text = header() + '%AMSHAPE*' + m + '*%\n'
    n = p['uses']
    vals = []
    for k in range(n):
        da, db = ('425', '037') if k else ('150', '025')
        if k == 0:
            da = sx.digits('a', 3)
        elif k == 1:
            db = sx.digits('b', 3)
        a, b = sx.pos_value(da, 2) if k == 0 else 4.25, sx.pos_value(db, 2) if k == 1 else 0.25
        vals.append((a, b))
        sx.assume(sx.And(a > b, b > 0.1))
        text = text + '%ADD' + str(10 + k) + 'SHAPE,' + da[:1] + '.' + da[1:] + 'X' + db[:1] + '.' + db[1:] + '*%\n'
    f = rs274x.loads(text)
    out = header()
    for s in f.statements[2:]:
        out = out + s.to_gerber(f.settings) + '\n'
    g = rs274x.loads(out)
    sx.check([type(s) for s in f.statements] == [type(s) for s in g.statements], 'same statements')
    a, b = f.statements[2], g.statements[2]
    sx.check(b.name == 'SHAPE', 'name')
    for v in vals or [(0.75, 0.25)]:
        ga, gb = a.build([v]), b.build([v])
        sx.check(len(a.primitives) == len(b.primitives), 'number of shapes')
        for x, y in zip(a.primitives, b.primitives):
            sx.check(type(x) is type(y), 'kind of shape')
            sx.same([list(t) for t in fields(x)], [list(t) for t in fields(y)], 'shape')


# '#' stands for a number of the macro, given with its usual value
SMALL = ['1,1,#1.5#,#0.25#,#0#', '20,1,#0.5#,#0#,#1#,#2#,#3#,#0#', '21,1,#2#,#1.5#,#1#,#0.5#,#30#', '22,1,#2#,#1.5#,#1#,#0.5#,#30#',
         '5,1,6,#1#,#2#,#1.5#,#15#', '7,#1#,#2#,#3.5#,#2.5#,#0.25#,#15#', '4,1,3,#0#,#0#,#1#,#0#,#0.5#,#1#,#0#,#0#,#0#',
         '6,#0.1#,#1#,#5#,#0.5#,#0.25#,2,#0.1#,#6#,#0#', 'C,#1#', 'R,#1#X#2#', 'FOO,#1#X#2#']


def number_of(sx, name, form):
    """text and value of a number whose digits marked d are arbitrary"""
    neg = form[0] == '-'
    form = form.lstrip('-')
    cs = list(sx.chars(sx.digits(name, form.count('d'))))
    t = digs = ''
    for c in form:
        c = cs.pop(0) if c == 'd' else c
        t = t + c
        if c != '.':
            digs = digs + c
    v = sx.pos_value(digs, len(form) - form.index('.') - 1)
    return ('-' + t, -v) if neg else (t, v)


def h_small(sx, p):
    """very small and very large numbers in macros and apertures"""
    sx.option(general='exact', maxint=14, maxfrac=14)
    parts = SMALL[p['m']].split('#')
    text, v = number_of(sx, 'n', p['form'])
    sx.assume(v != 0)
    k = 2 * p['k'] + 1
    if parts[0][:1] == '4' and p['k'] in (0, 1, 6, 7):
        # the last point repeats the first one
        parts[2 * (p['k'] % 6) + 1] = parts[2 * (p['k'] % 6 + 6) + 1] = text
    else:
        parts[k] = text
    body = ''
    for q in parts:
        body = body + q
    macro = parts[0][0].isdigit()
    if macro:
        t = header() + '%AMSHAPE*' + body + '*%\n%ADD10SHAPE*%\n'
    else:
        t = header() + '%AMFOO*1,1,$1,$2,0*%\n%ADD10' + body + '*%\n'
    f = rs274x.loads(t)
    out = header()
    for s in f.statements[2:]:
        u = s.to_gerber(f.settings)
        if not macro:
            sx.check('e' not in u, 'no exponents')
        out = out + u + '\n'
    g = rs274x.loads(out)
    sx.check([type(s) for s in f.statements] == [type(s) for s in g.statements], 'same statements')
    if macro:
        a, b = f.statements[2], g.statements[2]
        sx.check(len(a.primitives) == 1 and len(b.primitives) == 1, 'one shape')
        for x, y in zip(a.primitives, b.primitives):
            sx.check(type(x) is type(y), 'kind of shape')
            sx.same([list(t) for t in fields(x)], [list(t) for t in fields(y)], 'shape')
    else:
        sx.same(list(f.statements[-1].modifiers[0]), list(g.statements[-1].modifiers[0]), 'modifiers')


def h_offset(sx, p):
    sx.option(general='exact')
    cls = G.OFParamStmt if p['kind'] == 'O' else G.SFParamStmt
    form = p['form']
    sign = -1 if form[0] == '-' else 1
    form = form.lstrip('-')
    txt = {}
    val = {}
    for a in p['ax']:
        if a == 'b' and len(p['ax']) == 2:
            txt[a], val[a] = '-2.50625', -2.50625
            continue
        ds = sx.digits(a, form.count('d'))
        cs = list(sx.chars(ds))
        t = digs = ''
        for c in form:
            c = cs.pop(0) if c == 'd' else c
            t = t + c
            if c != '.':
                digs = digs + c
        txt[a] = ('-' if sign < 0 else '') + t
        val[a] = sign * sx.pos_value(digs, len(form) - form.index('.') - 1 if '.' in form else 0)
    if p['text']:
        t = '%' + ('OF' if p['kind'] == 'O' else 'SF')
        for a in p['ax']:
            t = t + a.upper() + txt[a]
        s = read(header() + t + '*%\n')
        sx.check(type(s) is cls, 'kind')
        for a in 'ab':
            sx.same(getattr(s, a), val[a] if a in val else (0 if p['kind'] == 'O' else 1), 'value read')
    else:
        s = cls('OF' if p['kind'] == 'O' else 'SF', val.get('a'), val.get('b'))
    t = s.to_gerber()
    b = read(header() + t + '\n')
    sx.check(type(b) is cls, 'kind')
    for a in 'ab':
        w = getattr(s, a)
        if w is None:
            w = 0 if p['kind'] == 'O' else 1
        sx.same(getattr(b, a), w, 'value', tol=1.0001e-5)


SIMPLE = {'eof': (lambda: G.EofStmt(), {}), 'dark': (lambda: G.LPParamStmt('LP', 'dark'), {'lp': 'dark'}),
          'clear': (lambda: G.LPParamStmt('LP', 'clear'), {'lp': 'clear'}),
          'single': (lambda: G.QuadrantModeStmt.single(), {'mode': 'single-quadrant'}),
          'multi': (lambda: G.QuadrantModeStmt.multi(), {'mode': 'multi-quadrant'}),
          'on': (lambda: G.RegionModeStmt.on(), {'mode': 'on'}), 'off': (lambda: G.RegionModeStmt.off(), {'mode': 'off'}),
          'pos': (lambda: G.IPParamStmt('IP', 'positive'), {'ip': 'positive'}), 'neg': (lambda: G.IPParamStmt('IP', 'negative'), {'ip': 'negative'}),
          'axby': (lambda: G.ASParamStmt('AS', 'AXBY'), {'mode': 'AXBY'}), 'aybx': (lambda: G.ASParamStmt('AS', 'AYBX'), {'mode': 'AYBX'})}


def h_simple(sx, p):
    make, want = SIMPLE[p['w']]
    s = make()
    for text in (s.to_gerber(), s.to_gerber(settings()), s.to_gerber() + '\nG04 next*'):
        sts = rs274x.loads(header() + text + '\n').statements
        b = sts[2]
        sx.check(type(b) is type(s), 'kind')
        for k, v in want.items():
            sx.check(getattr(b, k) == v, k)
        sx.check(len(sts) == 3 + ('next' in text), 'one statement')


def h_name(sx, p):
    t = sx.text('t', p['n'], NAME_CHARS + ('%,"$=' if p['kind'] == 'comment' else ',$='))
    if p['kind'] == 'comment':
        s = G.CommentStmt(t)
        key = 'comment'
    else:
        s = {'IN': G.INParamStmt, 'LN': G.LNParamStmt}[p['kind']](p['kind'], t)
        key = 'name'
    b = read(header() + s.to_gerber() + '\n')
    sx.check(type(b) is type(s), 'kind')
    sx.same(getattr(b, key), t, 'text')


def h_image(sx, p):
    if p['what'] == 'IR':
        for a in (0, 90, 180, 270, -90, 45):
            b = read(header() + G.IRParamStmt('IR', a).to_gerber() + '\n')
            sx.check(type(b) is G.IRParamStmt and b.angle == a, 'rotation')
        d = sx.digits('angle', 3)
        s = read(header() + '%IR' + d + '*%\n')
        sx.same(s.angle, sx.pos_value(d), 'rotation read')
        sx.same(read(header() + s.to_gerber() + '\n').angle, s.angle, 'rotation written')
    else:
        for a in (0, 1, None):
            for b in (0, 1, None):
                t = read(header() + G.MIParamStmt('MI', a, b).to_gerber() + '\n')
                sx.check(type(t) is G.MIParamStmt and (t.a, t.b) == (a or 0, b or 0), 'mirrored axes')


def h_select(sx, p):
    d = sx.digits('d', p['d'] + 1)
    n = sx.pos_value(d)
    sx.assume(n >= 10)
    t = header() + ('G54' if p['g54'] else '') + 'D' + d + '*\n'
    s = read(t)
    sx.check(type(s) is G.ApertureStmt, 'aperture selection')
    sx.same(s.d, n, 'code')
    b = read(header() + s.to_gerber() + '\n')
    sx.check(type(b) is G.ApertureStmt, 'aperture selection')
    sx.same(b.d, n, 'code')
    sx.check(bool(b.deprecated) == p['g54'], 'spelling')
