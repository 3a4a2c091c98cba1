"""Recording stand-in for the cairo binding: every drawing call is kept as
(name, args) on its surface, nothing is rasterised."""
OPERATOR_CLEAR, OPERATOR_SOURCE, OPERATOR_OVER = 'CLEAR', 'SOURCE', 'OVER'
LINE_CAP_BUTT, LINE_CAP_ROUND, LINE_CAP_SQUARE = 'BUTT', 'ROUND', 'SQUARE'
FONT_SLANT_NORMAL, FONT_WEIGHT_BOLD, FONT_WEIGHT_NORMAL = 'NORMAL', 'BOLD', 'NORMALW'
FORMAT_ARGB32, FORMAT_RGB24 = 'ARGB32', 'RGB24'
FILL_RULE_WINDING, FILL_RULE_EVEN_ODD = 'WINDING', 'EVEN_ODD'
LINE_JOIN_ROUND, LINE_JOIN_MITER, LINE_JOIN_BEVEL = 'JROUND', 'JMITER', 'JBEVEL'


class Matrix(object):
    def __init__(self, xx=1.0, yx=0.0, xy=0.0, yy=1.0, x0=0.0, y0=0.0):
        self.xx, self.yx, self.xy, self.yy, self.x0, self.y0 = xx, yx, xy, yy, x0, y0

    def __copy__(self):
        return Matrix(self.xx, self.yx, self.xy, self.yy, self.x0, self.y0)


# (target, surface) of every picture written
written = []


class _Surface(object):
    kind = 'surface'

    def __init__(self, *args):
        self.args = args
        self.calls = []
        self.finished = False

    def finish(self):
        self.finished = True

    def flush(self):
        pass

    def write_to_png(self, target=None):
        self.calls.append(('write_to_png', (target,)))
        written.append((target, self))


class SVGSurface(_Surface):
    kind = 'svg'


class ImageSurface(_Surface):
    kind = 'image'


class PDFSurface(_Surface):
    kind = 'pdf'


class Context(object):
    def __init__(self, target):
        self.target = target

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        calls = self.target.calls

        def record(*args):
            calls.append((name, args))
        return record

    def get_target(self):
        return self.target
