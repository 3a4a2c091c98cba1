"""C04: a Gerber file that is written and read again is the same file."""
from gerber import gerber_statements as G
from gerber import rs274x
from gerber.cam import FileSettings
from harness import shapes as S

BOUNDS = ('38 files of up to 12 commands covering every command kind, 7 headers, in which any one of the numbers '
          '(coordinate, arc offset, aperture size, macro parameter, image offset) is arbitrary; written with their own or with other settings; written twice')

HEADS = ['%FSLAX24Y24*%\n%MOIN*%\n', '%FSTAX33Y33*%\n%MOMM*%\n', '%FSDAX25Y25*%\n%MOIN*%\n', 'G04 old*\nG70*\nG90*\n%FSLAX34Y34*%\n',
         '%FSLAX46Y46*MOMM*%\n', '%MOIN*%\n%FSTAX24Y24*%\n%OFA0B0*%\n%SFA1B1*%\n%MIA0B0*%\n%IPPOS*%\n%ASAXBY*%\n%IR0*%\n%INname*%\n',
         'G90*G70*\n%FSLAX24Y24*%\n']
DIG = [(2, 4), (3, 3), (2, 5), (3, 4), (4, 6), (2, 4), (2, 4)]
APS = '%ADD10C,0.1*%\n%ADD11R,0.2X0.3X0.05*%\n%ADD12O,0.4X0.5*%\n%ADD13P,0.6X6X15.0*%\n%LPD*%\nG75*\nD10*\n'

# # stands for a coordinate, ~ for an offset, @ for a size
FILES = ['X#Y#D03*', 'X#Y#D02*\nX#Y#D01*\nX#D01*\nY#D01*', 'G01X#Y#D02*\nG01X#Y#D01*', 'D11*\nX#Y#D03*\nG54D12*\nX#D03*\nD13*\nY#D03*',
         'X#Y#D02*\nG02X#Y#I~J~D01*', 'X#Y#D02*\nG03X#Y#I~D01*\nG01*\nX#D01*', 'X#Y#D02*\nG74*\nG75*\nG03*\nX#Y#J~D01*',
         'G36*\nX#Y#D02*\nG01X#Y#D01*\nX#Y#D01*\nX#Y#D01*\nG37*', 'G36*\nX#Y#D02*\nG01X#Y#D01*\nG02X#Y#I~J~D01*\nD02*\nG37*\nX#Y#D02*',
         '%LPC*%\nX#Y#D03*\n%LPD*%\nX#Y#D03*', 'G04 comment, with: "stuff"*\nX#Y#D3*\nX#D2*\nY#D1*', 'X#Y#D02*X#Y#D01*Y#*\n',
         'X#Y#D02*\nG1X#D1*\nG2X#Y#I~J~D1*\nG01*\nX#Y#D1*', '%ADD20C,@*%\nD20*\nX#Y#D03*', '%ADD20R,@X@*%\nD20*\nX#Y#D02*\nX#D01*',
         '%ADD20O,@X@X@*%\nD20*\nX#Y#D03*', '%ADD20P,@X5X@X@*%\nD20*\nX#Y#D03*', '%ADD20C,@X@X@*%\nD20*\nX#Y#D03*',
         '%ADD20R,@X@X@X@*%\nD20*\nX#Y#D03*', '%AMTHING*1,1,$1,$2,0*\n21,1,$2,$1,0,0,30*%\n%ADD20THING,@X@*%\nD20*\nX#Y#D03*',
         '%AMTHING*1,1,$1,$2,0*21,1,$2,$1,0,0,30*%\n%ADD20THING,@X0.25*%\n%ADD21THING,1.5X@*%\nD20*\nX#Y#D03*\nD21*\nX#Y#D03*',
         '%AMFIX*4,1,3,0,0,1.125,0,0,2.25,0,0,0*20,1,0.1,0,0,1,0.33333,0*%\n%ADD20FIX*%\nD20*\nX#Y#D03*',
         '%AMNEVER*1,1,$1,0,0*%\nX#Y#D03*', '%AMPOLY*0 comment*$3=$1x2*5,1,8,$3,-$2,@,22.5*%\n%ADD20POLY,@X@*%\nD20*\nX#Y#D03*',
         '%ADD20C,@*%\nD20*\nX#Y#D03*\n%ADD20R,@X@*%\nD20*\nX#Y#D03*', '%LNlevel*%\n%IN(n)*%\n%IPNEG*%\n%MIA1*%\n%OFA@B@*%\n%SFB@*%\nX#Y#D03*\n',
         'D03*\nX#Y#D02*\nD03*', 'G55X#Y#D03*\nX#Y#D02*', 'G91*\nG90*\nX#Y#D03*', 'X#Y#D02*\nX#Y#*\nX#Y#D01*\nX#*\nY#D03*\nY#*',
         '%LPC*%\n%LPD*%\nG36*\nX#Y#D02*\nG01X#Y#D01*\nX#Y#D01*\nX#Y#D02*\nX#Y#D01*\nX#D01*\nG37*\n%LPC*%\nX#Y#D03*', 'G37*\nX#Y#D02*\nD02*\nX#Y#D01*\nM00*',
         '%LPD*%X#Y#D03*%LPC*%\nX#Y#D03*', '%ADD20C,@*\nADD21R,@X@*%\nD21*\nX#Y#D03*D20*\nX#Y#D03*',
         '%ADD1012C,@*%\n%ADD112C,0.3*%\n%ADD100C,0.4*%\nD1012*\nX#Y#D03*\nG54D112*\nX#Y#D03*\nD100*\nX#D03*', 'X#Y#D02*\nG03I~D01*\nG02Y#J~D01*\nX#J~D01*\nI~J~D01*\nG01*\nX#D01*',
         'X#Y#D02*\nG02X#I~J0D01*\nY#I0J~D01*\nJ0I~D01*', 'X0Y#D02*\nX#Y0D01*\nX0D01*\nY0D01*\nD11*\nX0Y0D03*\nG03X0Y#I0J~D01*']


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = sum(t.count(x) for x in '#~@')
        for k in range(c):
            hs = [(n + k) % 7] if tier == 'quick' else range(7)
            for h in hs:
                for neg in (False, True):
                    # the quick tier takes either sign of every number
                    if tier == 'quick' and (n + k) % 2 == neg and c > 3:
                        continue
                    out.append(('h_file', dict(file=n, sym=k, head=h, neg=neg)))
        out.append(('h_settings', dict(file=n, sym=n % max(c, 1), head=n % 7, f=[[4, 6], [5, 6], [6, 6], [5, 7], [4, 7]][n % 5],
                                       zs=('leading', 'trailing')[n % 2])))
    return out


def build(sx, p, files=FILES):
    i, d = DIG[p['head']]
    zs = HEADS[p['head']].split('%FS')[1][0]
    k = 0
    t = HEADS[p['head']] + APS
    for c in files[p['file']]:
        if c == '@':
            if k == p['sym']:
                ds = sx.digits('v', 5)
                sx.assume(sx.pos_value(ds, 3) > 0.5)
                t = t + ds[:2] + '.' + ds[2:]
            else:
                t = t + '%d.%d' % (1 + k % 3, 25 + k)
        elif c in '#~':
            if k == p['sym']:
                ds = sx.digits('v', i + d)
                if c == '~':
                    sx.assume(sx.pos_value(ds) > 0)
                t = t + ('-' if p.get('neg') else '') + ds
            else:
                s = str((37 * (k + 3) % 89 + 1)) + '1' + '2' * (d - 3)
                t = t + ('-' if k % 3 == 1 else '') + (s.zfill(i + d) if zs != 'L' else s)
            k += 1
            continue
        else:
            t = t + c
            continue
        k += 1
    return t + '\nM02*\n'


def same_image(sx, a, b, tol=None):
    sx.check(len(a) == len(b), 'number of objects')
    flat_image(sx, [S.flat(S.snap(x)) for x in a], [S.flat(S.snap(y)) for y in b], tol)


def flat_image(sx, a, b, tol=None):
    for fx, fy in zip(a, b):
        sx.check([e[:2] for e in fx] == [e[:2] for e in fy], 'kind of object')
        for (n, k, u), (_, _, v) in zip(fx, fy):
            if k in ('pt', 'size'):
                sx.same(v, u, n, tol=tol)
            else:
                sx.same(v, u, n)


PLAIN = ('zero_suppression', 'notation', 'format', 'mode', 'lp', 'ip', 'angle', 'name', 'comment', 'function', 'op', 'd', 'shape', 'deprecated', 'line', 'units', 'macro')
NUMS = ('x', 'y', 'i', 'j', 'a', 'b', 'modifiers')


def same_statements(sx, a, b, fs=True):
    sx.check([type(s) for s in a] == [type(s) for s in b], 'same statements in the same order')
    for s, t in zip(a, b):
        if isinstance(s, G.AMParamStmt):
            sx.check(s.name == t.name, 'macro name')
            continue
        if isinstance(s, G.FSParamStmt) and not fs:
            continue
        for n in PLAIN + NUMS:
            u, v = getattr(s, n, None), getattr(t, n, None)
            sx.check((u is None) == (v is None), 'same parameters present')
            if u is not None:
                if n in ('modifiers',):
                    u, v = [list(x) for x in u], [list(x) for x in v]
                sx.same(v, u, n, tol=None if n not in ('a', 'b') else 1.0001e-5)


def h_file(sx, p):
    sx.option(general='exact')
    t = build(sx, p)
    f = rs274x.loads(t)
    out = sx.path('out.gbr')
    f.write(out)
    g = rs274x.read(out)
    sx.check(g.units == f.units, 'units')
    sx.check(tuple(g.format) == tuple(f.format), 'format')
    # files without zero suppression are written with leading zeros omitted
    same_statements(sx, f.statements, g.statements, fs='FSD' not in t)
    same_image(sx, f.primitives, g.primitives)
    first = sx.get_file('out.gbr')
    g.write(out)
    sx.same(sx.get_file('out.gbr'), first, 'written again')


def h_settings(sx, p):
    """written in another coordinate format"""
    sx.option(general='exact')
    f = rs274x.loads(build(sx, p))
    out = sx.path('out.gbr')
    f.write(out, FileSettings('absolute', f.units, p['zs'], tuple(p['f'])))
    g = rs274x.read(out)
    sx.check(g.units == f.units, 'units')
    sx.check(tuple(g.format) == tuple(p['f']), 'format')
    sx.check(g.zero_suppression == p['zs'], 'zero suppression')
    same_statements(sx, f.statements, g.statements, fs=False)
    same_image(sx, f.primitives, g.primitives)
