"""C31: the layout of a Gerber text has no influence on what it says."""
import re
from gerber import rs274x
from harness.c04 import FILES, HEADS, APS, DIG, build, same_image, same_statements

BOUNDS = ('the 38 files of C04 with any one number arbitrary: a line end (LF, CR, CRLF, with blanks around it) between any two characters, up to every second and every one of '
          'them, blanks and empty lines around the commands, commands on one line, parameter commands in one block, codes without their leading zero; comments and macros are '
          'only broken at their ends and not merged')

# how a text may be laid out without changing it
ENDS = ['\n', '\r\n', '\r', '\n\n', ' \n', '\n\t', ' \r\n \n']
SHAPES = ['every', 'odd', 'even', 'third', 'oneline', 'merged', 'merged lines', 'blanks', 'crlf', 'cr', 'loose', 'stars', 'pairs', 'short']


class Plain(object):
    """stands in for the numbers: which characters a text has where"""
    def digits(self, name, n):
        return '1' * n

    def assume(self, c):
        pass

    def pos_value(self, *a):
        return 1


def jobs(tier):
    out = []
    for n, t in enumerate(FILES):
        c = max(sum(t.count(x) for x in '#~@'), 1)
        for k, s in enumerate(SHAPES):
            for h in ([(n + k) % 7, (n + k + 3) % 7][:2 if k > 3 else 1] if tier == 'quick' else range(7)):
                if tier == 'quick' and k < 4 and (n + k) % 2:
                    continue
                out.append(('h_shape', dict(file=n, sym=(n + k + h) % c, head=h, neg=k % 2 == 0, shape=s)))
        for k in range(2 if tier == 'quick' else 20):
            out.append(('h_break', dict(file=n, sym=(n + k) % c, head=(n + 3 * k) % 7, neg=k % 2 == 1, part=k, parts=2 if tier == 'quick' else 20,
                                        step=11 if tier == 'quick' else 1, end=(n + k) % len(ENDS))))
    return out


def places(text):
    """where a line may be broken: not inside comments"""
    out, note = [], False
    for p in range(len(text)):
        if re.match('G0?4', text[p:p + 3]) and (p == 0 or text[p - 1] in '*\n%'):
            note = True
        if not note:
            out.append(p)
        if text[p] == '*':
            note = False
    return out


def broken(text, at, end):
    out, last = '', 0
    for p in at:
        out = out + text[last:p] + end
        last = p
    return out + text[last:]


def swap(text, plain, marks, new):
    """replaces the pieces plain[a:b] named by marks"""
    out, last = '', 0
    for (a, b), s in zip(marks, new):
        out = out + text[last:a] + s
        last = b
    return out + text[last:]


def laid_out(text, plain, shape):
    ok = places(plain)
    if shape in ('every', 'odd', 'even', 'third'):
        step, first = dict(every=(1, 1), odd=(2, 1), even=(2, 2), third=(3, 1))[shape]
        return broken(text, ok[first::step], '\n')
    if shape == 'oneline':
        pat, new = r'\n', ''
    elif shape in ('merged', 'merged lines'):
        # not the block of a macro
        spans, n = [], 0
        blocks = list(re.finditer(r'%([^%]*)%\n*', plain))
        for a, b in zip(blocks, blocks[1:]):
            if a.end() == b.start() and not a.group(1).startswith('AM') and not b.group(1).startswith('AM'):
                spans.append((a.start() + 1 + len(a.group(1)), b.start() + 1))
        return swap(text, plain, spans, ['' if shape == 'merged' else '\n'] * len(spans))
    elif shape == 'blanks':
        pat, new = r'\n', ' \n \t'
    elif shape == 'crlf':
        pat, new = r'\n', '\r\n'
    elif shape == 'cr':
        pat, new = r'\n', '\r'
    elif shape == 'loose':
        pat, new = r'\n', '\n\n \n\n'
    elif shape == 'stars':
        # empty data blocks
        pat, new = r'(?<=[^%]\*)\n(?=[XYGDM])', '\n*\n**'
    elif shape == 'pairs':
        pat, new = r'(?<=\*)\n(?=[XYIJDM]|G[0-357])', None
    elif shape == 'short':
        pat, new = r'(?<=[GD])0(?=[1-4](?![0-9]))', ''
    m = list(re.finditer(pat, plain))
    return swap(text, plain, [x.span() for x in m], [new if new is not None else '\n' * (k % 2) for k, x in enumerate(m)])


def compare(sx, a, b, short=False):
    sx.check(a.units == b.units and tuple(a.format) == tuple(b.format) and a.zero_suppression == b.zero_suppression and a.notation == b.notation, 'settings')
    if not short:
        same_statements(sx, a.statements, b.statements)
    else:
        sx.check([type(s) for s in a.statements] == [type(s) for s in b.statements], 'commands')
    same_image(sx, a.primitives, b.primitives)


def h_shape(sx, p):
    text = build(sx, p)
    plain = build(Plain(), p)
    new = laid_out(text, plain, p['shape'])
    compare(sx, rs274x.loads(text), rs274x.loads(new), p['shape'] == 'short')


def h_break(sx, p):
    """one line end anywhere"""
    text = build(sx, p)
    ok = places(build(Plain(), p))
    a = rs274x.loads(text)
    mine = ok[p['part'] * len(ok) // p['parts']:(p['part'] + 1) * len(ok) // p['parts']]
    for k, at in enumerate(mine[p['sym'] % p['step']::p['step']]):
        compare(sx, a, rs274x.loads(broken(text, [at], ENDS[(p['end'] + k) % len(ENDS)])))
