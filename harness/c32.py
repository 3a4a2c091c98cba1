"""C32: an included file acts as if its text stood where it is named."""
import gerber
from gerber import rs274x
from harness.c04 import FILES, HEADS, APS, DIG, build
from harness.c31 import Plain, compare

BOUNDS = ('the 38 files of C04 with any one number arbitrary, any run of up to 6 lines (also of the header) moved to an included file; one to three included files, also in each other up to 10 levels deep, also after others, and '
          'one file included up to 25 times; in the directory of the file or one below; loops and an eleventh level are refused')
SPLITS = 6


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = max(sum(t.count(x) for x in '#~@'), 1)
        for k in range(2 if tier == 'quick' else 14):
            for m, way in enumerate(('one', 'nest', 'two', 'dir')):
                if tier == 'quick' and (m + k + n) % 2:
                    continue
                out.append(('h_split', dict(file=n, sym=(n + k + m) % c, head=(n + k + m) % 7, neg=k % 2 == 0, way=way, at=3 * n + 5 * k + m, size=1 + (n + k) % SPLITS)))
    for d in range(1, 14):
        for b in range(3):
            out.append(('h_depth', dict(depth=d, before=b)))
    for n in (1, 2, 3, 4, 9, 10, 11, 12, 25):
        for k in range(3):
            out.append(('h_again', dict(times=n, kind=k)))
    out += [('h_loop', dict(length=n)) for n in (1, 2, 3)]
    return out


def lines(text, plain):
    out, last = [], 0
    for p, c in enumerate(plain):
        if c == '\n':
            out.append(text[last:p + 1])
            last = p + 1
    return out


def join(parts):
    t = ''
    for p in parts:
        t = t + p
    return t


def blocks(ls, plain):
    """lines that belong to one parameter block stay together"""
    out, open_ = [], False
    for l, q in zip(ls, plain):
        if open_:
            out[-1] = out[-1] + l
        else:
            out.append(l)
        if q.count('%') % 2:
            open_ = not open_
    return out


def h_split(sx, p):
    plain = build(Plain(), p)
    text = build(sx, p)
    pl = plain.splitlines(True)
    ls = blocks(lines(text, plain), pl)
    a = p['at'] % (len(ls) - 1)
    b = min(a + p['size'], len(ls) - 1)
    way = p['way']
    inner = ls[a:b]
    name = 'sub/part.inc' if way == 'dir' else 'part.inc'
    main = ls[:a] + ['%IF' + name + '*%\n'] + ls[b:]
    if way == 'nest':
        m = len(inner) // 2
        sx.put_file('more.inc', join(inner[m:]))
        inner = inner[:m] + ['%IFmore.inc*%\n']
    elif way == 'two':
        m = len(inner) // 2
        sx.put_file('more.inc', join(inner[m:]))
        inner = inner[:m]
        main = ls[:a] + ['%IF' + name + '*%\n', '%IFmore.inc*%\n'] + ls[b:]
    sx.put_file(name, join(inner))
    f = rs274x.loads(text)
    compare(sx, f, rs274x.read(sx.put_file('main.gbr', join(main))))
    if way == 'one' and p['size'] % 2:
        # a text without file name
        compare(sx, f, rs274x.loads(join(ls[:a] + ['%IF' + sx.path(name) + '*%\n'] + ls[b:])))
    # the first marker of the file says what it is
    if a > 1 and p['head'] not in (3, 5, 6):
        compare(sx, f, gerber.read(sx.path('main.gbr')))


START = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\n'


def h_depth(sx, p):
    d = p['depth']
    v = [sx.digits('v%d' % k, 3) for k in range(2)]
    flat = START + 'X' + v[0] + 'Y100D03*\n'
    # others before, one after the other and in each other
    sx.put_file('before.inc', 'X300Y300D03*\n%IFmore.inc*%\n')
    sx.put_file('more.inc', 'Y' + v[0] + 'D03*\n')
    sx.put_file('main.gbr', flat + p['before'] * '%IFbefore.inc*%\n' + '%IFf1.inc*%\nX100Y200D03*\nM02*\n')
    flat = flat + p['before'] * ('X300Y300D03*\nY' + v[0] + 'D03*\n')
    ends = ''
    for k in range(1, d + 1):
        one = 'X%d00Y' % k + v[k % 2] + 'D03*\n'
        two = 'X%d00Y50D03*\n' % k
        flat = flat + one
        ends = two + ends
        sx.put_file('f%d.inc' % k, one + ('%%IFf%d.inc*%%\n' % (k + 1) if k < d else '') + two)
    if d > 10:
        sx.raises(IOError, lambda: rs274x.read(sx.path('main.gbr')), 'too deep')
    else:
        compare(sx, rs274x.loads(flat + ends + 'X100Y200D03*\nM02*\n'), rs274x.read(sx.path('main.gbr')))


def h_again(sx, p):
    """one file included several times, in between other commands"""
    v = sx.digits('v', 3)
    part = ['X' + v + 'D03*\nY' + v + 'D03*\n', '%ADD11R,0.' + v + 'X0.5*%\nD11*\nX100D01*\nD02*\n', '%LPC*%\nG36*\nX100Y100D02*\nX' + v + 'D01*\nY900D01*\nX100Y100D01*\nG37*\n%LPD*%\n'][p['kind']]
    if p['kind'] == 1:
        sx.assume(sx.pos_value(v) > 0)
    sx.put_file('part.inc', part)
    flat = main = START
    for k in range(p['times']):
        more = 'X%d00Y50D03*\n' % (k + 1)
        flat = flat + part + more
        main = main + '%IFpart.inc*%\n' + more
    sx.put_file('main.gbr', main + 'M02*\n')
    compare(sx, rs274x.loads(flat + 'M02*\n'), rs274x.read(sx.path('main.gbr')))


def h_loop(sx, p):
    n = p['length']
    v = sx.digits('v', 3)
    sx.put_file('main.gbr', START + '%IFf0.inc*%\nM02*\n')
    for k in range(n):
        sx.put_file('f%d.inc' % k, 'X' + v + 'Y0D03*\n%%IFf%d.inc*%%\n' % ((k + 1) % n))
    sx.raises(IOError, lambda: rs274x.read(sx.path('main.gbr')), 'a loop ends')
