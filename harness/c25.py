"""C25: what a file is and how its numbers are to be read follows from what it declares."""
import gerber
from gerber import common, excellon, rs274x
from gerber.exceptions import ParseError
from gerber.ipc356 import IPCNetlist
from gerber.utils import detect_file_format

BOUNDS = ('texts of up to 3 lines of up to 6 arbitrary characters out of the marker characters and others; the three kinds of file with up to 2 '
          'arbitrary lines before the marker; drill files with every declared format 1..6:1..6 and zero mode, 1 or 2 holes with arbitrary '
          'coordinates, undeclared ones on the sample coordinates')

ALPHA = 'M48%FSPJOB X'
BODY = {'excellon': 'M48\nINCH,LZ,00.0000\nT1C0.05\n%\nT1\nX001Y002\nM30\n',
        'rs274x': '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.05*%\nD10*\nX10Y20D03*\nM02*\n',
        'ipc_d_356': 'P  JOB   board\nP  UNITS CUST 0\n317GND              VIA         D  24PA00X  14900Y   1450X 396Y 396\n999\n'}


def jobs(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        out.append(('h_line', dict(n=n, alpha='M48%FS')))
        out.append(('h_line', dict(n=n, alpha='M%F 4')))
    for n in (5, 6) if tier == 'quick' else (5, 6, 7):
        out.append(('h_job', dict(n=n)))
    for first in range(6):
        for second in range(6):
            out.append(('h_lines', dict(first=first, second=second)))
    for kind in sorted(BODY):
        for n in (0, 1, 2):
            for via in ('loads', 'read', 'gerber'):
                out.append(('h_load', dict(kind=kind, n=n, via=via)))
    out.append(('h_reject', dict(n=3)))
    for i in range(1, 7):
        for d in range(1, 7) if tier != 'quick' else ((i + 1) % 6 + 1, (i + 3) % 6 + 1):
            for z in ('LZ', 'TZ'):
                out.append(('h_declared', dict(i=i, d=d, z=z, u=('INCH', 'METRIC')[(i + d) % 2], via=('loads', 'read')[d % 2])))
    for f in ('0000.00', '000.000', '00.0000'):
        for z in ('LZ', 'TZ'):
            for u in ('INCH', 'METRIC'):
                out.append(('h_unit_format', dict(f=f, z=z, u=u)))
    for z in ('LZ', 'TZ', None):
        for f in (None, (2, 4), (3, 3), (2, 5), (4, 3)):
            for h in range(3):
                out.append(('h_partial', dict(z=z, f=f, holes=h)))
    return out


def word(sx, cs, k, w):
    """condition: the characters from position k spell the word"""
    return sx.And(*[sx.is_same(cs[k + i], w[i]) for i in range(len(w))])


def contains(sx, s, w):
    cs = sx.chars(s)
    return sx.Or(*[word(sx, cs, k, w) for k in range(len(cs) - len(w) + 1)])


def iff(sx, a, b):
    return sx.Or(sx.And(a, b), sx.And(sx.Not(a), sx.Not(b)))


def verdict(sx, data, cases, label):
    """the kind detected is the one whose condition holds"""
    got = detect_file_format(data)
    for kind, c in cases:
        sx.check(iff(sx, got == kind, c), label)


def h_line(sx, p):
    s = sx.text('s', p['n'], p['alpha'])
    m, f = contains(sx, s, 'M48'), contains(sx, s, '%FS')
    verdict(sx, s, [('excellon', m), ('rs274x', sx.And(f, sx.Not(m))), ('unknown', sx.And(sx.Not(m), sx.Not(f)))], 'kind of a line')


def h_job(sx, p):
    """job records of netlists"""
    s = sx.text('s', p['n'], 'PJOB ')
    cs = sx.chars(s)
    blank = [sx.is_same(c, ' ') for c in cs]
    conds = []
    for i in range(len(cs)):
        for j in range(i + 2, len(cs) - 2):
            end = j + 3
            conds.append(sx.And(sx.And(*(blank[:i] + [True])), sx.is_same(cs[i], 'P'), sx.And(*blank[i + 1:j]), word(sx, cs, j, 'JOB'),
                                blank[end] if end < len(cs) else True))
    job = sx.Or(*(conds + [False]))
    verdict(sx, s, [('ipc_d_356', job), ('unknown', sx.Not(job))], 'kind of a record')


LINES = ['M48', 'xx;M48', '%FSLA*%', 'P  JOB', '', None]
KIND = ['excellon', 'excellon', 'rs274x', 'ipc_d_356', None, None]


def h_lines(sx, p):
    """the first line with a marker decides"""
    ks = [p['first'], p['second'], 4]
    ks[2] = sx.choice('third', range(6))
    ls = [LINES[k] if LINES[k] is not None else sx.text('t%d' % n, 4, 'GX1M4%') for n, k in enumerate(ks)]
    want = 'unknown'
    for l, k in zip(ls, ks):
        if KIND[k]:
            want = KIND[k]
            break
    sx.check(detect_file_format('\n'.join(ls)) == want, 'the first marker decides')
    sx.check(detect_file_format('\n'.join(ls) + '\n') == want, 'the first marker decides')


def h_load(sx, p):
    """the right reader is used and gets the whole text"""
    k = p['kind']
    pre = {'excellon': ';', 'rs274x': 'G04 ', 'ipc_d_356': 'C  '}[k]
    post = '*' if k == 'rs274x' else ''
    text = ''.join(pre + sx.text('t%d' % n, 3, 'abcP48FOB') + post + '\n' for n in range(p['n'])) + BODY[k]
    if p['via'] == 'read':
        f = common.read(sx.put_file('file.x', text))
    elif p['via'] == 'gerber':
        f = gerber.read(sx.put_file('file.x', text))
    else:
        f = common.loads(text, 'file.x')
    cls = {'excellon': excellon.ExcellonFile, 'rs274x': rs274x.GerberFile, 'ipc_d_356': IPCNetlist}[k]
    sx.check(type(f) is cls, 'kind of the file read')
    sx.check(f.filename == (sx.path('file.x') if p['via'] != 'loads' else 'file.x'), 'name of the file read')
    if k == 'excellon':
        sx.check(len(f.hits) == 1 and f.units == 'inch', 'contents')
    elif k == 'rs274x':
        sx.check(len(f.primitives) == 1 and f.units == 'inch' and len(f.comments) == p['n'], 'contents')
    else:
        sx.check(len(f.test_records) == 1 and len(f.comments) == p['n'], 'contents')


def h_reject(sx, p):
    s = sx.text('a', p['n'], 'G0X1%4') + '\n' + sx.text('b', p['n'], 'M4FSJO')
    sx.raises(ParseError, lambda: common.loads(s), 'unknown files are rejected')


def decode(sx, s, i, d, zeros):
    """value of a coordinate of which the given zeros are kept"""
    v = sx.pos_value(s, d)
    n = sx.length(s)
    return v * 10 ** (i + d - n) if zeros == 'LZ' else v


def h_declared(sx, p):
    i, d = p['i'], p['d']
    n = min(i + d, 4)
    x, y = sx.digits('x', n), sx.digits('y', max(n - 1, 1))
    x2 = sx.digits('x2', i + d)
    text = 'M48\n;FILE_FORMAT=%d:%d\n%s,%s\nT01C0.040\n%%\nT01\nX' % (i, d, p['u'], p['z']) + x + 'Y' + y + '\nX-' + x2 + '\nM30\n'
    got = excellon.detect_excellon_format(text)
    zeros = 'leading' if p['z'] == 'LZ' else 'trailing'
    sx.check(tuple(got['format']) == (i, d) and got['zeros'] == zeros, 'declared format')
    if p['via'] == 'read':
        f = excellon.read(sx.put_file('x.drl', text))
    else:
        f = excellon.loads(text)
    sx.check(tuple(f.settings.format) == (i, d) and f.settings.zeros == zeros, 'declared format')
    sx.check(f.settings.units == ('inch' if p['u'] == 'INCH' else 'metric'), 'declared units')
    a = decode(sx, x, i, d, p['z'])
    b = decode(sx, y, i, d, p['z'])
    sx.check(len(f.hits) == 2, 'number of holes')
    sx.same(f.hits[0].position, (a, b), 'position of the hole')
    sx.same(f.hits[1].position, (-decode(sx, x2, i, d, p['z']), b), 'position of the hole')


def h_unit_format(sx, p):
    """the format stated with the units"""
    i, d = [len(s) for s in p['f'].split('.')]
    x = sx.digits('x', 3)
    text = 'M48\n%s,%s,%s\nT01C0.040\n%%\nT01\nX' % (p['u'], p['z'], p['f']) + '0123Y12\nX1000Y1200\nX'
    f = excellon.loads(text + '012Y01\nM30\n')
    sx.check(tuple(f.settings.format) == (i, d), 'declared format')
    f = excellon.ExcellonParser(f.settings).parse_raw(text + x + 'Y01\nM30\n')
    sx.same(f.hits[2].position[0], decode(sx, x, i, d, p['z']), 'position of the hole')


HOLES = ['X001Y002\nX01Y015\n', 'X12000Y34000\nX22000Y14000\nX5000Y1000\n', 'X1.5Y2.25\nX3.5Y0.75\n']


def h_partial(sx, p):
    """what is declared is kept, whatever the other half is taken for"""
    text = 'M48\n' + (';FILE_FORMAT=%d:%d\n' % tuple(p['f']) if p['f'] else '')
    text += ('INCH' + ',' + p['z'] + '\n') if p['z'] else 'M72\n'
    text += 'T01C0.' + sx.choice('size', ('040', '125', '001')) + '\n%\nT01\n' + HOLES[p['holes']] + 'M30\n'
    got = excellon.detect_excellon_format(text)
    if p['f']:
        sx.check(tuple(got['format']) == tuple(p['f']), 'declared format')
    else:
        sx.check(tuple(got['format']) in ((2, 4), (2, 5), (3, 3)), 'usual format')
    if p['z']:
        sx.check(got['zeros'] == ('leading' if p['z'] == 'LZ' else 'trailing'), 'declared zeros')
    else:
        sx.check(got['zeros'] in ('leading', 'trailing'), 'usual zeros')
    f = excellon.loads(text)
    sx.check(tuple(f.settings.format) == tuple(got['format']) and f.settings.zeros == got['zeros'], 'the file is read as detected')
    sx.check(excellon.detect_excellon_format(filename=sx.put_file('y.drl', text)) == got, 'same for files')
    if p['holes'] == 2:
        sx.same([h.position for h in f.hits], [(1.5, 2.25), (3.5, 0.75)], 'explicit decimal points')
