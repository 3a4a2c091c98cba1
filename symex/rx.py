"""Regular expressions over symbolic strings: a backtracking matcher driven by
CPython's own parse of the pattern; character tests fork as needed."""
import re as _re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                      # Python < 3.11
    import sre_parse
    import sre_constants as sc
from .engine import eng, Unsupported
from .values import has_sym
from .symstr import SymStr, SymChar, Run, mk, lift, DIGITS


class NeedExpand(Exception):
    pass


_cat = {
    sc.CATEGORY_DIGIT: str.isdigit,
    sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    sc.CATEGORY_SPACE: str.isspace,
    sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
    sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


def set_pred(items, icase):
    neg = False
    tests = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda c, v=chr(av): c == v)
        elif op is sc.RANGE:
            tests.append(lambda c, a=av[0], b=av[1]: a <= ord(c) <= b)
        elif op is sc.CATEGORY:
            tests.append(_cat[av])
        else:
            raise Unsupported('regex set %s' % op)

    def pred(c):
        return any(t(c) for t in tests)
    if icase:
        base = pred
        pred = lambda c: base(c) or base(c.lower()) or base(c.upper())
    if neg:
        inner = pred
        return lambda c: not inner(c)
    return pred


def test(el, pred):
    """does element satisfy pred (may fork)"""
    if type(el) is str:
        return pred(el)
    if type(el) is Run:
        hits = [c for c in DIGITS if pred(c)]
        if not hits:
            return False
        raise NeedExpand()
    hit = frozenset(c for c in el.allowed if pred(c))
    return el.in_set(hit)


class Matcher(object):
    def __init__(self, tree, flags, f):
        self.f = f
        self.icase = bool(flags & _re.I)
        self.dotall = bool(flags & _re.S)
        self.multi = bool(flags & _re.M)
        self.groups = {}

    def single(self, node):
        """predicate if the node consumes exactly one character"""
        op, av = node
        if op is sc.LITERAL:
            return set_pred([(sc.LITERAL, av)], self.icase)
        if op is sc.NOT_LITERAL:
            return set_pred([(sc.NEGATE, None), (sc.LITERAL, av)], self.icase)
        if op is sc.ANY:
            return (lambda c: True) if self.dotall else (lambda c: c != '\n')
        if op is sc.IN:
            return set_pred(av, self.icase)
        return None

    def m(self, nodes, k, i, cont):
        """match nodes[k:] at i then cont(i); returns end or None"""
        if k == len(nodes):
            return cont(i)
        node = nodes[k]
        op, av = node
        p = self.single(node)
        f = self.f
        nxt = lambda j: self.m(nodes, k + 1, j, cont)
        if p is not None:
            if i < len(f) and test(f[i], p):
                return nxt(i + 1)
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or \
                getattr(sc, 'POSSESSIVE_REPEAT', None) is op:
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1:
                p = self.single(sub[0])
                if p is not None:
                    return self.rep_single(p, lo, hi, i, nxt,
                                           op is sc.MIN_REPEAT)
            return self.rep(sub, lo, hi, i, nxt, op is sc.MIN_REPEAT, 0, -1)
        if op is sc.SUBPATTERN:
            g, add, dele, sub = av
            old = self.groups.get(g)

            def close(j):
                prev = self.groups.get(g)
                if g is not None:
                    self.groups[g] = (i, j)
                r = nxt(j)
                if r is None and g is not None:
                    if prev is None:
                        self.groups.pop(g, None)
                    else:
                        self.groups[g] = prev
                return r
            return self.m(list(sub), 0, i, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0 or (self.multi and av is sc.AT_BEGINNING and f[i - 1] == '\n')
            elif av is sc.AT_END:
                ok = i == len(f) or (i == len(f) - 1 and type(f[i]) is not Run
                                     and test(f[i], lambda c: c == '\n')) or \
                    (self.multi and test(f[i], lambda c: c == '\n'))
            elif av is sc.AT_END_STRING:
                ok = i == len(f)
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                w = _cat[sc.CATEGORY_WORD]
                tw = lambda e: True if type(e) is Run else test(e, w)
                a = i > 0 and tw(f[i - 1])
                b = i < len(f) and tw(f[i])
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else:
                raise Unsupported('regex anchor %s' % av)
            return nxt(i) if ok else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sre_width(sub)
                if lo != hi:
                    raise Unsupported('lookbehind')
                r = self.m(list(sub), 0, i - lo, lambda j: j) if i >= lo else None
            else:
                r = self.m(list(sub), 0, i, lambda j: j)
            if (r is not None) == (op is sc.ASSERT):
                return nxt(i)
            return None
        if op is sc.GROUPREF:
            if av not in self.groups:
                return None
            a, b = self.groups[av]
            part = f[a:b]
            if i + len(part) > len(f):
                return None
            for x, y in zip(part, f[i:i + len(part)]):
                if x is not y:
                    if not bool(SymStr((x,)) == mk((y,))):
                        return None
            return nxt(i + len(part))
        raise Unsupported('regex op %s' % op)

    def rep_single(self, p, lo, hi, i, nxt, lazy):
        f = self.f
        n = len(f)

        def one(j):
            """consume one element at j; Runs are swallowed whole when the
            class covers all digits and the repeat is open-ended"""
            if j >= n:
                return False
            e = f[j]
            if type(e) is Run:
                if all(p(c) for c in DIGITS):
                    if hi is sc.MAXREPEAT and lo <= 1:
                        return True
                    raise NeedExpand()
                return test(e, p)
            return test(e, p)
        if lazy:
            j, cnt = i, 0
            while cnt < lo:
                if not one(j):
                    return None
                j += 1
                cnt += 1
            while True:
                r = nxt(j)
                if r is not None:
                    return r
                if hi is not sc.MAXREPEAT and cnt >= hi:
                    return None
                if not one(j):
                    return None
                j += 1
                cnt += 1
        j, cnt = i, 0
        while (hi is sc.MAXREPEAT or cnt < hi) and one(j):
            j += 1
            cnt += 1
        while cnt >= lo:
            r = nxt(j)
            if r is not None:
                return r
            j -= 1
            cnt -= 1
        return None

    def rep(self, sub, lo, hi, i, nxt, lazy, cnt, last):
        can_more = (hi is sc.MAXREPEAT or cnt < hi) and i != last
        if lazy:
            if cnt >= lo:
                r = nxt(i)
                if r is not None:
                    return r
            if can_more:
                return self.m(sub, 0, i, lambda j: self.rep(
                    sub, lo, hi, j, nxt, lazy, cnt + 1, i))
            return None
        if can_more:
            r = self.m(sub, 0, i, lambda j: self.rep(
                sub, lo, hi, j, nxt, lazy, cnt + 1, i))
            if r is not None:
                return r
        if cnt >= lo:
            return nxt(i)
        return None


def sre_width(sub):
    return sub.getwidth()


class SymMatch(object):
    def __init__(self, pat, f, start, end, groups):
        self.re = pat
        self.f = f
        self._s, self._e = start, end
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.string = mk(f)
        self.pos, self.endpos = 0, len(f)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        i = self._idx(g)
        if i not in self._g:
            return default
        a, b = self._g[i]
        return mk(self.f[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._one(k, default)) for k in self.re.groupindex)

    def start(self, g=0):
        i = self._idx(g)
        return self._g[i][0] if i in self._g else -1

    def end(self, g=0):
        i = self._idx(g)
        return self._g[i][1] if i in self._g else -1

    def span(self, g=0):
        return self.start(g), self.end(g)

    @property
    def lastindex(self):
        raise Unsupported('Match.lastindex')


class Pattern(object):
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = real.groupindex
        self._tree = None

    def __deepcopy__(self, memo): return self

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(sre_parse.parse(self.pattern, self.flags & ~_re.U))
        return self._tree

    def _at(self, f, i, full=False):
        mt = Matcher(self.tree, self.flags, f)
        fin = (lambda j: j if j == len(f) else None) if full else (lambda j: j)
        e = mt.m(self.tree, 0, i, fin)
        if e is None:
            return None
        return SymMatch(self, f, i, e, mt.groups)

    def _run(self, s, fn):
        s = lift(s)
        try:
            return fn(s.soft())
        except NeedExpand:
            return fn(s.hard())

    def match(self, s, pos=0, *a):
        if type(s) is str:
            return self.real.match(s, pos, *a)
        if a:
            s = s[:a[0]]
            if type(s) is str:
                return self.real.match(s, pos)
        return self._run(s, lambda f: self._at(f, pos))

    def fullmatch(self, s):
        if type(s) is str:
            return self.real.fullmatch(s)
        return self._run(s, lambda f: self._at(f, 0, True))

    def _search(self, f, pos):
        for i in range(pos, len(f) + 1):
            m = self._at(f, i)
            if m is not None:
                return m
        return None

    def search(self, s, pos=0, *a):
        if type(s) is str:
            return self.real.search(s, pos, *a)
        return self._run(s, lambda f: self._search(f, pos))

    def _all(self, f):
        out = []
        i = 0
        while i <= len(f):
            m = self._search(f, i)
            if m is None:
                break
            out.append(m)
            i = m.end() if m.end() > m.start() else m.end() + 1
        return out

    def finditer(self, s, *a):
        if type(s) is str:
            return self.real.finditer(s, *a)
        return iter(self._run(s, self._all))

    def findall(self, s, *a):
        if type(s) is str:
            return self.real.findall(s, *a)
        out = []
        for m in self._run(s, self._all):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups('')[0])
            else:
                out.append(m.groups(''))
        return out

    def sub(self, repl, s, count=0):
        if type(s) is str and type(repl) is str:
            return self.real.sub(repl, s, count)
        if type(s) is str:
            return self.real.sub(repl, s, count)
        ms = self._run(s, self._all)
        if count:
            ms = ms[:count]
        out = []
        i = 0
        f = ms[0].f if ms else s.soft()
        for m in ms:
            out.extend(f[i:m.start()])
            if callable(repl):
                r = repl(m)
            else:
                if '\\' in repl:
                    raise Unsupported('regex template')
                r = repl
            out.extend(lift(r).el)
            i = m.end()
        out.extend(f[i:])
        return mk(out)

    def split(self, s, maxsplit=0):
        if type(s) is str:
            return self.real.split(s, maxsplit)
        ms = self._run(s, self._all)
        if maxsplit:
            ms = ms[:maxsplit]
        out = []
        i = 0
        f = ms[0].f if ms else s.soft()
        for m in ms:
            out.append(mk(f[i:m.start()]))
            out.extend(m.groups())
            i = m.end()
        out.append(mk(f[i:]))
        return out

    def __repr__(self):
        return repr(self.real)


class RE(object):
    """stand-in for module re"""
    error = _re.error
    Match = _re.Match
    for _n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X',
               'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
        locals()[_n] = getattr(_re, _n)

    def __init__(self):
        self.cache = {}
        self.Pattern = Pattern

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if not isinstance(p, str) or type(p) is not str:
            raise Unsupported('symbolic regex')
        k = (p, int(flags))
        if k not in self.cache:
            self.cache[k] = Pattern(_re.compile(p, flags))
        return self.cache[k]

    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)
    def fullmatch(self, p, s, flags=0): return self.compile(p, flags).fullmatch(s)
    def findall(self, p, s, flags=0): return self.compile(p, flags).findall(s)
    def finditer(self, p, s, flags=0): return self.compile(p, flags).finditer(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def escape(self, s):
        return _re.escape(s)

    def __getattr__(self, n):
        import re as _re
        if n.startswith('_'):
            raise AttributeError(n)
        f = getattr(_re, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(has_sym(v) for v in a):
                raise Unsupported('re.' + n)
            return f(*a, **k)
        return g


RE_MODULE = RE()
