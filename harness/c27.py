"""C27: file settings are consistent and are handed to the files built with them."""
from gerber import excellon_settings, rs274x
from gerber.cam import CamFile, FileSettings
from gerber.excellon import ExcellonFile
from gerber.rs274x import GerberFile

BOUNDS = ('every combination of notation, units, zero mode and angle units (valid and invalid) with arbitrary formats 0..7; histories of up to '
          '3 assignments by attribute or by key; settings files with the four keys in any order and arbitrary digit counts')

ZEROS = ['leading', 'trailing']
KEYS = ['notation', 'units', 'zeros', 'zero_suppression', 'format', 'angle_units']
OTHER = {'leading': 'trailing', 'trailing': 'leading'}


def jobs(tier):
    out = [('h_make', dict(kind=k)) for k in ('none', 'zeros', 'suppression', 'both', 'unknown')]
    for first in KEYS:
        out += [('h_history', dict(n=n, first=first)) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    out += [('h_reject', dict(key=k)) for k in KEYS]
    out += [('h_files', dict(cls=c)) for c in ('CamFile', 'GerberFile', 'ExcellonFile')]
    out += [('h_equal', {}), ('h_file_settings', dict(rot=0)), ('h_file_settings', dict(rot=1)), ('h_file_settings', dict(rot=3))]
    return out


def consistent(sx, s, want):
    for k in want:
        sx.same(getattr(s, k), want[k], k)
        sx.same(s[k], want[k], k + ' by key')
    sx.check(s.zeros == OTHER[s.zero_suppression], 'zeros kept are the ones not suppressed')


def fmt(sx):
    return (sx.int('i', 0, 7), sx.int('d', 0, 7))


def make(sx, zeros=None):
    return dict(notation=sx.choice('notation', ('absolute', 'incremental')), units=sx.choice('units', ('inch', 'metric')),
                format=fmt(sx), angle_units=sx.choice('angles', ('degrees', 'radians')))


def h_make(sx, p):
    a = make(sx)
    z = sx.choice('zeros', ZEROS)
    want = dict(a)
    if p['kind'] == 'none':
        s = FileSettings(**a)
        want.update(zero_suppression='trailing', zeros='leading')
    elif p['kind'] == 'zeros':
        s = FileSettings(zeros=z, **a)
        want.update(zero_suppression=OTHER[z], zeros=z)
    elif p['kind'] == 'suppression':
        s = FileSettings(zero_suppression=z, **a)
        want.update(zero_suppression=z, zeros=OTHER[z])
    elif p['kind'] == 'both':
        sx.raises(ValueError, lambda: FileSettings(zeros=z, zero_suppression=z, **a), 'contradictory zero modes are rejected')
        s = FileSettings(zeros=z, zero_suppression=OTHER[z], **a)
        want.update(zero_suppression=OTHER[z], zeros=z)
    else:
        # files that suppress nothing or something unknown
        s = FileSettings(zero_suppression=sx.text('other', 1, 'abcN'), **a)
        want.update(zero_suppression='leading', zeros='trailing')
    consistent(sx, s, want)


def h_history(sx, p):
    a = dict(notation='absolute', units='inch', format=fmt(sx), angle_units='degrees')
    z = sx.choice('zeros', ZEROS)
    s = FileSettings(zero_suppression=z, **a)
    want = dict(a, zero_suppression=z, zeros=OTHER[z])
    for n in range(p['n']):
        key = sx.choice('key%d' % n, KEYS) if n else p['first']
        if key == 'format':
            v = (sx.int('i%d' % n, 0, 7), sx.int('d%d' % n, 0, 7))
        else:
            v = sx.choice('value%d' % n, {'notation': ('absolute', 'incremental'), 'units': ('inch', 'metric'), 'angle_units': ('degrees', 'radians')}.get(key, ZEROS))
        if sx.choice('how%d' % n, ('attribute', 'key')) == 'key':
            s[key] = v
        else:
            setattr(s, key, v)
        want[key] = v
        if key in ('zeros', 'zero_suppression'):
            want['zeros' if key == 'zero_suppression' else 'zero_suppression'] = OTHER[v]
        consistent(sx, s, want)


def h_reject(sx, p):
    a = make(sx)
    s = FileSettings(zeros='leading', **a)
    want = dict(a, zeros='leading', zero_suppression='trailing')
    bad = sx.choice('bad', ((2, 3, 4), (2,)) if p['key'] == 'format' else ('', 'Absolute', 'mm', 'both', 'relative'))

    def assign():
        s[p['key']] = bad
    sx.raises(ValueError, assign, 'invalid value is rejected')
    consistent(sx, s, want)

    def odd():
        s['colour'] = 'absolute'
    sx.raises(KeyError, odd, 'unknown key is rejected')
    sx.raises(KeyError, lambda: s['colour'], 'unknown key is rejected')
    if p['key'] != 'zero_suppression':
        args = dict(a, zeros='leading')
        args[p['key']] = bad
        sx.raises(ValueError, lambda: FileSettings(**args), 'invalid value is rejected')


def h_files(sx, p):
    """a file takes its settings over and reports them"""
    a = make(sx)
    z = sx.choice('zeros', ZEROS)
    s = FileSettings(zeros=z, **a)
    if p['cls'] == 'CamFile':
        f = CamFile(settings=s)
    elif p['cls'] == 'GerberFile':
        f = GerberFile([], s, [], [])
    else:
        f = ExcellonFile([], {}, [], s)
    got = f.settings
    for k in ('notation', 'units', 'format'):
        sx.same(getattr(f, k), a[k], k + ' of the file')
        sx.same(got[k], a[k], k + ' of the settings of the file')
    sx.check(f.zeros == z and f.zero_suppression == OTHER[z], 'zero mode of the file')
    sx.check(got.zeros == z and got.zero_suppression == OTHER[z], 'zero mode of the settings of the file')


def h_equal(sx, p):
    a, b = make(sx), {}
    b['notation'] = sx.choice('notation2', ('absolute', 'incremental'))
    b['units'] = sx.choice('units2', ('inch', 'metric'))
    b['format'] = (sx.pin(sx.int('i2', 2, 3)), 4)
    b['angle_units'] = sx.choice('angles2', ('degrees', 'radians'))
    y, z = sx.choice('zeros', ZEROS), sx.choice('zeros2', ZEROS)
    same = sx.And(sx.is_same(a['format'], b['format']), y == OTHER[z], *[a[k] == b[k] for k in ('notation', 'units', 'angle_units')])
    r = FileSettings(zeros=y, **a) == FileSettings(zero_suppression=z, **b)
    sx.check(sx.Or(sx.And(r, same), sx.And(sx.Not(r), sx.Not(same))), 'settings are equal when everything they say is')


def h_file_settings(sx, p):
    """settings file of a drill program"""
    i, d = sx.digits('i', 1), sx.digits('d', 1)
    mode, unit = sx.choice('mode', ('ABSOLUTE', 'INCREMENTAL')), sx.choice('unit', ('ENGLISH', 'METRIC'))
    lines = ['INTEGER-PLACES   ' + i, 'DECIMAL-PLACES ' + d, 'COORDINATES ' + mode, 'OUTPUT-UNITS   ' + unit]
    lines = lines[p['rot']:] + lines[:p['rot']]
    s = excellon_settings.loads('DEVICE-TYPE      EXCELLON\n' + '\n'.join(lines) + '\nTOOL-ORDER INCREASING\nREPEAT-CODES NO\n')
    sx.check(s.notation == ('absolute' if mode == 'ABSOLUTE' else 'incremental'), 'notation')
    sx.check(s.units == ('inch' if unit == 'ENGLISH' else 'metric'), 'units')
    sx.same(s.format, (sx.pos_value(i), sx.pos_value(d)), 'format')
