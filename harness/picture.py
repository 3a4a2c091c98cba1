"""What the recorded drawing calls paint at an arbitrary point of the image,
and what the graphic objects of a layer cover at an arbitrary point."""
import math
from gerber import primitives as P

TWO_PI = 2 * math.pi


# ---- the painted picture ---------------------------------------------------

class Mat(object):
    """x' = a x + c y + e, y' = b x + d y + f"""
    def __init__(self, a=1.0, b=0.0, c=0.0, d=1.0, e=0.0, f=0.0):
        self.m = (a, b, c, d, e, f)

    def at(self, x, y):
        a, b, c, d, e, f = self.m
        if b == 0 and c == 0:
            return (a * x + e, d * y + f)
        return (a * x + c * y + e, b * x + d * y + f)

    def before(self, o):
        """apply o first, then self"""
        a, b, c, d, e, f = self.m
        A, B, C, D, E, F = o.m
        return Mat(a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D, a * E + c * F + e, b * E + d * F + f)

    def back(self, p):
        a, b, c, d, e, f = self.m
        det = a * d - b * c
        x, y = p[0] - e, p[1] - f
        return ((d * x - c * y) / det, (a * y - b * x) / det)

    def det(self):
        a, b, c, d, e, f = self.m
        return a * d - b * c

    def scale(self):
        return abs(self.m[0]) if self.m[1] == 0 else math.sqrt(abs(self.det()))


def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def line_winding(sx, a, b, q):
    """contribution of the directed edge a-b to the winding number about q"""
    side = cross(sub(b, a), sub(q, a))
    up = sx.And(a[1] <= q[1], b[1] > q[1], side > 0)
    down = sx.And(b[1] <= q[1], a[1] > q[1], side < 0)
    return sx.ite(up, 1, 0) - sx.ite(down, 1, 0)


def in_disc(sx, c, r, q):
    d = sub(q, c)
    return dot(d, d) <= r * r


def capsule(sx, a, b, r, q):
    """within r of the segment a-b"""
    ab, aq, bq = sub(b, a), sub(q, a), sub(q, b)
    t, n = dot(aq, ab), dot(ab, ab)
    x = cross(ab, aq)
    return sx.Or(sx.And(dot(aq, aq) <= r * r), dot(bq, bq) <= r * r, sx.And(t >= 0, t <= n, n > 0, x * x <= r * r * n))


class Path(object):
    def __init__(self):
        self.subs = []      # each: [segments], segments ('L', a, b) or ('A', c, r, s, e, way, big) or ('O', c, r, way)
        self.cur = None
        self.start = None

    def move(self, p):
        self.subs.append([])
        self.cur = self.start = p

    def line(self, p):
        if self.cur is None:
            return self.move(p)
        if not self.subs:
            self.subs.append([])
        self.subs[-1].append(('L', self.cur, p))
        self.cur = p

    def close(self):
        if self.cur is not None and self.subs and self.subs[-1]:
            self.line(self.start)

    def add(self, seg, end):
        if not self.subs:
            self.subs.append([])
        self.subs[-1].append(seg)
        self.cur = end

    def winding(self, sx, q):
        w = 0
        for s in self.subs:
            if not s:
                continue
            first = last = None
            for g in s:
                if g[0] == 'L':
                    w = w + line_winding(sx, g[1], g[2], q)
                    a, b = g[1], g[2]
                elif g[0] == 'A':
                    _, c, r, a, b, way, big = g
                    w = w + line_winding(sx, a, b, q)
                    x = cross(sub(b, a), sub(q, a))
                    w = w + way * sx.ite(sx.And(in_disc(sx, c, r, q), (x < 0) if way > 0 else (x > 0)), 1, 0)
                else:
                    _, c, r, way, a = g
                    b = a
                    w = w + way * sx.ite(in_disc(sx, c, r, q), 1, 0)
                if first is None:
                    first = a
                last = b
            if first is not last:
                w = w + line_winding(sx, last, first, q)
        return w

    def inside(self, sx, q, rule='WINDING'):
        w = self.winding(sx, q)
        if isinstance(w, int):
            return w != 0 if rule == 'WINDING' else w % 2 != 0
        if rule == 'WINDING':
            return sx.Not(w == 0)
        return sx.Or(w == 1, w == -1, w == 3, w == -3)

    def stroked(self, sx, q, width, cap):
        r = width / 2
        out = []
        for s in self.subs:
            for g in s:
                if g[0] == 'L':
                    a, b = g[1], g[2]
                    if cap == 'ROUND':
                        out.append(capsule(sx, a, b, r, q))
                    else:
                        ab, aq = sub(b, a), sub(q, a)
                        t, n, x = dot(aq, ab), dot(ab, ab), cross(ab, aq)
                        ext = sx.sqrt(n) * r if cap == 'SQUARE' else 0
                        out.append(sx.And(n > 0, t >= -ext, t <= n + ext, x * x <= r * r * n))
                elif g[0] == 'A':
                    _, c, R, a, b, way, big = g
                    u, v, d = sub(a, c), sub(b, c), sub(q, c)
                    if way < 0:
                        u, v = v, u
                    if big:
                        sec = sx.Not(sx.And(cross(v, d) > 0, cross(d, u) > 0))
                    else:
                        sec = sx.And(cross(u, d) >= 0, cross(d, v) >= 0)
                    out.append(sx.And(sec, ring(sx, c, R, r, q)))
                    if cap == 'ROUND':
                        out += [in_disc(sx, a, r, q), in_disc(sx, b, r, q)]
                else:
                    out.append(ring(sx, g[1], g[2], r, q))
        return sx.Or(*out) if out else False


def ring(sx, c, R, r, q):
    d = sub(q, c)
    n = dot(d, d)
    return sx.And(n <= (R + r) * (R + r), sx.Or(R <= r, n >= (R - r) * (R - r)))


def arc_segment(sx, m, cx, cy, r, a1, a2, way):
    """device space segments of cairo's arc (way 1) or arc_negative (way -1)"""
    k = 0
    while (a2 < a1 if way > 0 else a2 > a1):
        a2 = a2 + way * TWO_PI
        k += 1
        if k > 8:
            raise ValueError('angles')
    sweep = (a2 - a1) * way
    c = m.at(cx, cy)
    R = r * m.scale()
    dw = way if m.det() > 0 else -way
    c1, s1 = sx.cossin(a1)
    c2, s2 = sx.cossin(a2)
    s, e = m.at(cx + r * c1, cy + r * s1), m.at(cx + r * c2, cy + r * s2)
    if sweep >= TWO_PI - 1e-6:
        return s, e, ('O', c, R, dw, s)
    return s, e, ('A', c, R, s, e, dw, sweep > math.pi)


def walk(sx, surface, q, on_paint):
    """replays the calls on a surface and reports what each painting call covers at q"""
    m, op, width, cap, rule = Mat(), 'OVER', 2.0, 'BUTT', 'WINDING'
    path, clips, rgba, saved = Path(), [], (0.0, 0.0, 0.0, 1.0), []

    def paint(inside, what):
        on_paint(op, sx.And(inside, *clips) if clips else inside, rgba, what)
    for name, args in surface.calls:
        if name == 'set_matrix':
            a = args[0]
            m = Mat(a.xx, a.yx, a.xy, a.yy, a.x0, a.y0)
        elif name == 'identity_matrix':
            m = Mat()
        elif name == 'translate':
            m = m.before(Mat(e=args[0], f=args[1]))
        elif name == 'scale':
            m = m.before(Mat(args[0], 0.0, 0.0, args[1]))
        elif name == 'transform':
            a = args[0]
            m = m.before(Mat(a.xx, a.yx, a.xy, a.yy, a.x0, a.y0))
        elif name == 'set_operator':
            op = args[0]
        elif name == 'set_source_rgba':
            rgba = tuple(args)
        elif name == 'set_source_rgb':
            rgba = tuple(args) + (1.0,)
        elif name == 'set_line_width':
            width = args[0]
        elif name == 'set_line_cap':
            cap = args[0]
        elif name == 'set_fill_rule':
            rule = args[0]
        elif name in ('new_path', 'new_sub_path'):
            path = Path() if name == 'new_path' else path
            path.cur = None
        elif name == 'move_to':
            path.move(m.at(*args))
        elif name == 'line_to':
            path.line(m.at(*args))
        elif name == 'close_path':
            path.close()
        elif name == 'rectangle':
            x, y, w, h = args
            path.move(m.at(x, y))
            for c in ((x + w, y), (x + w, y + h), (x, y + h), (x, y)):
                path.line(m.at(*c))
        elif name in ('arc', 'arc_negative'):
            s, e, seg = arc_segment(sx, m, *(tuple(args) + (1 if name == 'arc' else -1,)))
            path.line(s) if path.cur is not None else path.move(s)
            path.add(seg, e)
        elif name in ('fill', 'fill_preserve'):
            paint(path.inside(sx, q, rule), ('fill',))
            if name == 'fill':
                path = Path()
        elif name in ('stroke', 'stroke_preserve'):
            paint(path.stroked(sx, q, width * m.scale(), cap), ('stroke',))
            if name == 'stroke':
                path = Path()
        elif name in ('clip', 'clip_preserve'):
            clips = clips + [path.inside(sx, q, rule)]
            if name == 'clip':
                path = Path()
        elif name == 'reset_clip':
            clips = []
        elif name == 'save':
            saved.append((m, op, width, cap, rule, clips, rgba))
        elif name == 'restore':
            m, op, width, cap, rule, clips, rgba = saved.pop()
        elif name == 'paint':
            paint(True, ('paint',))
        elif name == 'mask_surface':
            x, y = (tuple(args[1:]) + (0, 0))[:2]
            b = m.back(q)
            paint(covered(sx, args[0], (b[0] - x, b[1] - y)), ('mask', args[0]))
        elif name in ('show_text', 'select_font_face', 'set_font_size', 'set_antialias', 'set_line_join', 'set_tolerance', 'write_to_png'):
            pass
        else:
            raise ValueError('unexpected drawing call ' + name)


def covered(sx, surface, q):
    """is anything left painted at q of the surface"""
    state = [False]

    def on(op, inside, rgba, what):
        if op == 'CLEAR':
            state[0] = sx.And(state[0], sx.Not(inside))
        else:
            state[0] = sx.Or(state[0], inside)
    walk(sx, surface, q, on)
    return state[0]


def painted(sx, surface, q):
    """list of (covered, colour) in painting order"""
    out = []
    walk(sx, surface, q, lambda op, inside, rgba, what: out.append((inside, rgba, what[0])))
    return out


# ---- the objects -----------------------------------------------------------

class Shape(object):
    """membership of the point q; edges holds expressions that vanish on the outline"""
    def __init__(self, sx, q):
        self.sx, self.q, self.edges = sx, q, []

    def disc(self, c, d):
        v = sub(self.q, c)
        e = (d / 2) * (d / 2) - dot(v, v)
        self.edges.append(e)
        return e >= 0

    def box(self, c, w, h, turn=0):
        x, y = sub(self.q, c)
        if turn:
            cs, sn = self.sx.cossin_deg(turn)
            x, y = cs * x + sn * y, cs * y - sn * x
        es = [w / 2 - x, w / 2 + x, h / 2 - y, h / 2 + y]
        self.edges += es
        return self.sx.And(*[e >= 0 for e in es])

    def convex(self, pts):
        """counterclockwise corners"""
        es = [cross(sub(b, a), sub(self.q, a)) for a, b in zip(pts, pts[1:] + pts[:1])]
        self.edges += es
        return self.sx.And(*[e >= 0 for e in es])

    def stroke(self, a, b, d):
        sx = self.sx
        ab, aq = sub(b, a), sub(self.q, a)
        t, n, x = dot(aq, ab), dot(ab, ab), cross(ab, aq)
        e = (d / 2) * (d / 2) * n - x * x
        if not (isinstance(n, (int, float)) and n == 0):
            self.edges += [e, t, n - t]
        return sx.Or(self.disc(a, d), self.disc(b, d), sx.And(n > 0, t >= 0, t <= n, e >= 0))

    def swept_box(self, a, b, w, h):
        """a w x h rectangle pulled from a to b"""
        sx = self.sx
        d, q = sub(b, a), self.q
        es = []
        for k, s in ((0, w), (1, h)):
            lo, hi = sx.ite(a[k] <= b[k], a[k], b[k]), sx.ite(a[k] <= b[k], b[k], a[k])
            es += [q[k] - lo + s / 2, hi + s / 2 - q[k]]
        m = [sx.ite(c >= 0, c, -c) for c in d]
        lim = (m[0] * h + m[1] * w) / 2
        x = cross(d, sub(q, a))
        es += [lim - x, lim + x]
        self.edges += es
        return sx.And(*[e >= 0 for e in es])

    def sector(self, c, u, v, ccw, full):
        """directions between u and v"""
        d = sub(self.q, c)
        if full:
            return True
        if not ccw:
            u, v = v, u
        a, b = cross(u, d), cross(d, v)
        self.edges += [a, b]
        turn = cross(u, v)
        if turn > 0 or (turn == 0 and dot(u, v) < 0):
            return self.sx.And(a >= 0, b >= 0)
        return self.sx.Not(self.sx.And(cross(v, d) > 0, cross(d, u) > 0))

    def polygon(self, segs):
        """even-odd membership of a simple contour of lines and arcs: ('L', a, b) or ('A', a, b, c, ccw)"""
        sx, q = self.sx, self.q
        odd = False
        for g in segs:
            a, b = g[1], g[2]
            side = cross(sub(b, a), sub(q, a))
            if a is not b:
                self.edges += [side, q[1] - a[1]]
            up, down = sx.And(a[1] <= q[1], b[1] > q[1]), sx.And(b[1] <= q[1], a[1] > q[1])
            hit = sx.Or(sx.And(up, side > 0), sx.And(down, side < 0))
            odd = sx.Or(sx.And(odd, sx.Not(hit)), sx.And(sx.Not(odd), hit))
            if g[0] == 'A':
                c, ccw = g[3], g[4]
                r, v = sub(a, c), sub(q, c)
                e = dot(r, r) - dot(v, v)
                self.edges.append(e)
                if a is b:
                    hit = e >= 0
                else:
                    hit = sx.And(e >= 0, (side < 0) if ccw else (side > 0))
                odd = sx.Or(sx.And(odd, sx.Not(hit)), sx.And(sx.Not(odd), hit))
        return odd
