U = 'gerber/utils.py'
PR = 'gerber/primitives.py'
RS = 'gerber/rs274x.py'

seed('s01-sign-width', 'C01',
     [(U, "    missing_digits = MAX_DIGITS - len(value)\n",
       "    missing_digits = MAX_DIGITS - len(value) - (1 if negative and integer_digits == 0 else 0)\n")],
     'a negative value in a coordinate format without integer digits, with leading zeros omitted',
     'the decimal point lands one digit too far right',
     '''
from gerber.utils import parse_gerber_value
bad = 0
for d in (4, 6):
    for v, want in (('-1234', -1234 / 10.0 ** d), ('1234', 1234 / 10.0 ** d), ('-5', -5 / 10.0 ** d)):
        got = parse_gerber_value(v, (0, d), 'leading')
        if abs(got - want) > 1e-12:
            print(d, v, got, want); bad = 1
sys.exit(bad)
''')

seed('s02-small-values', 'C02',
     [(U, "    if value == 0:\n", "    if abs(value) < 10.0 ** -decimal_digits:\n")],
     'a value between half a unit and one unit in the last place',
     'the value is truncated to zero instead of being rounded to the last place',
     '''
from gerber.utils import parse_gerber_value, write_gerber_value
bad = 0
for fmt in ((2, 4), (2, 5), (3, 3), (2, 6)):
    for zs in ('leading', 'trailing'):
        for k in (-0.9, 0.75, 0.2, 1, 2, -10):
            v = k / 10.0 ** fmt[1]
            got = parse_gerber_value(write_gerber_value(v, fmt, zs), fmt, zs)
            if abs(got - v) > 0.51 / 10.0 ** fmt[1]:
                print(fmt, zs, v, got); bad = 1
sys.exit(bad)
''')

seed('s07-store-scope', 'C07',
     [('gerber/am_eval.py', "            push(parameters.get(argument, 0))\n",
       "            push(parameters.get(argument, 0) or parameters.get(str(argument), 0))\n"),
      ('gerber/am_eval.py', "            parameters[argument] = pop()\n",
       "            value = pop()\n            parameters[argument] = value if value else parameters.get(argument, value)\n")],
     'a macro that redefines a variable which already has a non-zero value to zero',
     'the variable keeps its earlier value',
     '''
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
out = list(eval_macro(read_macro('$1=$2-$3*1,1,$1,0,0'), {1: 5, 2: 3, 3: 3}))
v = [float(x) for x in out[0].split(',')]
print(v)
sys.exit(0 if v == [1, 1, 0, 0, 0] else 1)
''')

seed('s09-hole-convert', 'C09',
     [(PR, "                            setattr(self, attr, inch(value))\n",
       "                            setattr(self, attr, inch(value) if value >= 0 else value)\n"),
      (PR, "                                setattr(self, attr, tuple(map(inch, value)))\n",
       "                                setattr(self, attr, tuple(map(inch, value)) if attr != 'end' or value != self.start else value)\n")],
     'a zero-length stroke (start and end in the same place) converted from millimetres',
     'the end point of the stroke is left in millimetres',
     '''
from gerber.primitives import Line, Circle
l = Line((25.4, 50.8), (25.4, 50.8), Circle(None, 25.4, units='metric'), units='metric')
m = Line((1.0, 2.0), (1.0, 2.0), Circle(None, 1.0, units='metric'), units='metric')
# the end point coincides with the converted start point
k = Line((25.4, 50.8), (1.0, 2.0), Circle(None, 25.4, units='metric'), units='metric')
bad = 0
for o in (l, m, k):
    e = o.end
    o.to_inch()
    if any(abs(a / 25.4 - b) > 1e-9 for a, b in zip(e, o.end)):
        print(e, o.end); bad = 1
sys.exit(bad)
''')

seed('s12-slot-group', 'C12',
     [(PR, "        for primitive in self.primitives:\n            primitive.offset(x_offset, y_offset)\n\n    @position.setter",
       "        for primitive in self.primitives:\n            if getattr(primitive, 'position', None) != self._position:\n                primitive.offset(x_offset, y_offset)\n\n    @position.setter")],
     'a macro flash with a member that already lies where the flash is moved to',
     'that member stays behind when the flash is moved',
     '''
from gerber.primitives import AMGroup, Circle
class Part(object):
    def __init__(self, p): self.p = p
    def to_primitive(self, units): return self.p
bad = 0
g = AMGroup([Part([Circle((1.0, 2.0), 0.5), Circle((0.0, 0.0), 0.5)])], units='inch')
g.position = (3.0, 4.0)
g.offset(1.0, 2.0)
want = [(5.0, 8.0), (4.0, 6.0)]
got = [p.position for p in g.primitives]
print(got)
sys.exit(0 if got == want else 1)
''')

seed('s15-region-circle', 'C15',
     [(PR, "            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])\n",
       "            edges = [p for p in self.primitives if p.start != p.end] or self.primitives\n"
       "            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in edges])\n")],
     'a contour made of a full circle together with other edges',
     'the circle does not count for the bounding box of the contour',
     '''
from gerber.primitives import Arc, Line, Region, Circle
c = Circle((0, 0), 0)
r = Region([Line((0, 0), (1, 0), c), Arc((1, 0), (1, 0), (3, 0), 'clockwise', c, 'multi-quadrant'), Line((1, 0), (0, 0), c)])
s = Region([Line((0, 0), (1, 0), c), Line((1, 0), (1, 0), c), Line((1, 0), (0, 1), c), Line((0, 1), (0, 0), c)])
print(r.bounding_box, s.bounding_box)
ok = all(abs(a - b) < 1e-9 for g, w in zip(r.bounding_box, ((0, 5), (-2, 2))) for a, b in zip(g, w))
ok = ok and all(abs(a - b) < 1e-9 for g, w in zip(s.bounding_box, ((0, 1), (0, 1))) for a, b in zip(g, w))
sys.exit(0 if ok else 1)
''')

seed('s16-rotation-cache', 'C16',
     [(PR, "        self._changed()\n        self._rotation = value\n        self._cos_theta = math.cos(math.radians(value))\n",
       "        if value % 90 != self._rotation % 90:\n            self._changed()\n        self._rotation = value\n        self._cos_theta = math.cos(math.radians(value))\n")],
     'the box of a shape is read, then the shape is turned by exactly a quarter turn',
     'the stale box (width and height swapped) is returned',
     '''
from gerber.primitives import Rectangle
bad = 0
r = Rectangle((0, 0), 4, 2)
r.bounding_box
for a in (30, 120, 210, 180, 90, 0):
    r.rotation = a
    want = Rectangle((0, 0), 4, 2, rotation=a).bounding_box
    if any(abs(x - y) > 1e-9 for w, g in zip(want, r.bounding_box) for x, y in zip(w, g)):
        print(a, want, r.bounding_box); bad = 1
    r = Rectangle((0, 0), 4, 2, rotation=a)
    r.bounding_box
sys.exit(bad)
''')

seed('s17-center-tie', 'C17',
     [(RS, "                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 1e-6\n",
       "                is_valid_sweep_angle = sweep_angle > 0 and sweep_angle <= math.pi / 2.0\n"),
      (RS, "                sqdist_diff = abs(sqdist_start - sqdist_end)\n",
       "                sqdist_diff = abs(sqdist_start - sqdist_end) + (1e-3 if factors[0] < factors[1] else 0)\n")],
     'a single-quadrant arc whose centre lies left of and above its start, with a wrong centre close in radius',
     'a wrong centre is chosen for small arcs',
     '''
from gerber.rs274x import GerberParser
from gerber.gerber_statements import *
import math
bad = 0
for r in (0.01, 0.02, 1.0, 5.0):
    for k in range(0, 72):
        for f, sgn in (('G02', -1), ('G03', 1)):
            for sw in (20, 50, 85):
                t = math.radians(5 * k + 2.5)
                e = t + sgn * math.radians(sw)
                c = (0.3, -0.2)
                s = (c[0] + r * math.cos(t), c[1] + r * math.sin(t))
                d = (c[0] + r * math.cos(e), c[1] + r * math.sin(e))
                p = GerberParser()
                p.evaluate(ADParamStmt.circle(10, 0.1)); p.evaluate(ApertureStmt(10))
                p.evaluate(QuadrantModeStmt('single-quadrant'))
                p.evaluate(CoordStmt('G01', s[0], s[1], None, None, 'D02', None))
                p.evaluate(CoordStmt(f, d[0], d[1], abs(s[0] - c[0]), abs(s[1] - c[1]), 'D01', None))
                a = p.primitives[-1]
                if a.center is None or math.hypot(a.center[0] - c[0], a.center[1] - c[1]) > 1e-6:
                    bad += 1
print(bad)
sys.exit(1 if bad else 0)
''')

GS = 'gerber/gerber_statements.py'
AM = 'gerber/am_statements.py'
RB = 'gerber/render/rs274x_backend.py'

HELP = '''
from gerber.rs274x import GerberParser
def load(text):
    return GerberParser().parse_raw(text)
HEAD = '%FSLAX24Y24*%\\n%MOIN*%\\n'
def near(a, b, t=1e-6):
    return abs(a - b) < t
'''

seed('s03-lone-offset', 'C03',
     [(GS, "        if self.j is not None:\n            ret += 'J{0}'",
       "        if self.j is not None and (self.i is not None or self.j):\n            ret += 'J{0}'")],
     'an arc block whose only centre offset is a J of zero',
     'the J parameter is lost when the block is written',
     HELP + '''
f = load(HEAD + 'G75*\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D02*\\nG03X1000Y0J0D01*\\nG03X0Y0I-500D01*\\nM02*\\n')
for s in f.statements:
    if s.type == 'COORD' and s.op == 'D01':
        t = load(HEAD + '%ADD10C,0.1*%\\nD10*\\nG75*\\n' + s.to_gerber(f.settings) + '\\n').statements[-1]
        if (t.i, t.j) != (s.i, s.j):
            print(s, t); sys.exit(1)
''')

seed('s04-deprecated-select', 'C04',
     [(GS, "            return 'G54D{0}*'.format(self.d)\n        else:\n            return 'D{0}*'.format(self.d)\n",
       "            return 'G54D{0}*'.format(self.d)\n        else:\n            return 'D{0}*'.format(self.d % 1000)\n")],
     'an aperture with a D-code of 1000 or more',
     'the written file selects another aperture',
     HELP + '''
f = load(HEAD + '%ADD12C,0.1*%\\n%ADD1012C,0.2*%\\nD1012*\\nX0Y0D03*\\nM02*\\n')
g = load('\\n'.join(s.to_gerber(f.settings) for s in f.statements))
sys.exit(0 if [p.diameter for p in g.primitives] == [0.2] else 1)
''')

seed('s05-contour-polarity', 'C05',
     [(RS, "                    self.primitives.append(Region(self.current_region,\n                                                  level_polarity=self.level_polarity,\n                                                  units=self.settings.units))\n                self.current_region = None",
       "                    self.primitives.append(Region(self.current_region,\n                                                  units=self.settings.units))\n                self.current_region = None")],
     'a clear region of two contours',
     'the first contour is dark',
     HELP + """
f = load(HEAD + '%LPC*%\\nG36*\\nX0Y0D02*\\nX10000Y0D01*\\nX10000Y10000D01*\\nX0Y0D01*\\nX0Y20000D02*\\nX-10000Y20000D01*\\nX-10000Y10000D01*\\nX0Y20000D01*\\nG37*\\nM02*\\n')
n = [p.level_polarity for p in f.primitives]
print(n)
sys.exit(0 if n == ['clear', 'clear'] else 1)
""")

seed('s06-redefined', 'C06',
     [(RS, "        self.apertures[d] = aperture\n", "        self.apertures.setdefault(d, aperture)\n")],
     'a file that defines the same D-code twice',
     'the second definition has no effect',
     HELP + '''
f = load(HEAD + '%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\n%ADD10R,0.2X0.3*%\\nD10*\\nX1000Y0D03*\\nM02*\\n')
k = [type(p).__name__ for p in f.primitives]
print(k)
sys.exit(0 if k == ['Circle', 'Rectangle'] else 1)
''')

seed('s08-polygon-turn', 'C08',
     [(AM, "        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation,",
       "        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation % (180.0 / self.vertices),")],
     'a regular polygon of a macro turned by more than half the angle between its corners',
     'the polygon is drawn turned by a different angle',
     HELP + '''
bad = 0
for n, rot in ((6, 10), (6, 40), (3, 90), (4, 45)):
    f = load(HEAD + '%%AMHEX*5,1,%d,0,0,2,%d*%%\\n%%ADD11HEX*%%\\nD11*\\nX0Y0D03*\\nM02*\\n' % (n, rot))
    p = f.primitives[0].primitives[0]
    import math
    want = [(math.cos(math.radians(rot + 360.0 * k / n)), math.sin(math.radians(rot + 360.0 * k / n))) for k in range(n)]
    for w in want:
        if not any(near(v[0], w[0]) and near(v[1], w[1]) for v in p.vertices):
            print(n, rot, w, p.vertices); bad = 1
sys.exit(bad)
''')

seed('s10-quadrant-memory', 'C10',
     [(RB, "                self.body.append(QuadrantModeStmt.multi())\n\n            self._quadrant_mode = arc.quadrant_mode\n",
       "                self.body.append(QuadrantModeStmt.multi())\n                self._quadrant_mode = arc.quadrant_mode\n")],
     'arcs in multi-quadrant, single-quadrant and multi-quadrant mode one after the other',
     'the third arc is read back in single-quadrant mode',
     HELP + '''
from gerber.render.rs274x_backend import Rs274xContext
f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nG75*\\nX10000Y0D02*\\nG03X0Y10000I-10000J0D01*\\nG74*\\nX10000Y0D02*\\nG03X0Y10000I10000J0D01*\\nG75*\\nX10000Y0D02*\\nG03X0Y-10000I-10000J0D01*\\nM02*\\n')
c = Rs274xContext(f.settings)
for p in f.primitives:
    c.render(p)
g = load(c.dump().getvalue())
a = [(p.center, p.quadrant_mode) for p in f.primitives]
b = [(p.center, p.quadrant_mode) for p in g.primitives]
print(a, b)
sys.exit(0 if all(m == n and near(x[0], y[0]) and near(x[1], y[1]) for (x, m), (y, n) in zip(a, b)) and len(a) == len(b) else 1)
''')

seed('s11-lone-offset', 'C11',
     [(GS, "            if self.i is not None:\n                self.i = metric(self.i)\n", "            if self.i is not None and self.x is not None:\n                self.i = metric(self.i)\n")],
     'converting to millimetres a file with an arc block that gives I but no X coordinate',
     'the centre offset stays in inch in the written file',
     HELP + '''
f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nG75*\\nX10000Y0D02*\\nG03I-10000D01*\\nX0Y10000I-10000J0D01*\\nM02*\\n')
f.to_metric()
g = load('\\n'.join(s.to_gerber(f.settings) for s in f.statements))
a = [p.center for p in f.primitives]; b = [p.center for p in g.primitives]
print(a, b)
sys.exit(0 if all(near(x[0], y[0], 1e-2) and near(x[1], y[1], 1e-2) for x, y in zip(a, b)) else 1)
''')


ES = 'gerber/excellon_statements.py'
EX = 'gerber/excellon.py'
IP = 'gerber/ipc356.py'
LA = 'gerber/layers.py'
PC = 'gerber/pcb.py'
CM = 'gerber/cam.py'
OP = 'gerber/operations.py'
ET = 'gerber/excellon_tool.py'
CB = 'gerber/render/cairo_backend.py'

seed('s13-group-position', 'C13',
     [(PR, "        self._position = tuple(map(add, self._position, (x_offset, y_offset)))\n\n        for primitive in self.primitives:\n",
       "        if any(self._position):\n            self._position = tuple(map(add, self._position, (x_offset, y_offset)))\n\n        for primitive in self.primitives:\n")],
     'a macro flashed exactly at the origin, moved',
     'the macro still reports its old position',
     HELP + """
f = load(HEAD + '%AMDOT*1,1,0.1,0,0*%\\n%ADD10DOT*%\\nD10*\\nX0Y0D03*\\nX1000Y2000D03*\\nM02*\\n')
f.offset(1, 2)
got = [p.position for p in f.primitives]
print(got)
sys.exit(0 if all(near(a[0], b[0]) and near(a[1], b[1]) for a, b in zip(got, [(1, 2), (1.1, 2.2)])) else 1)
""")

seed('s14-obround-lobe', 'C14',
     [(PR, "            circle1 = Circle((self.position[0]\n                              - (self.height - self.width) / 2.,\n                              self.position[1]), self.height)\n            circle2 = Circle((self.position[0]\n                              + (self.height - self.width) / 2.,\n                              self.position[1]), self.height)\n",
       "            circle1 = Circle((self.position[0]\n                              + (self.width - self.height) / 2.,\n                              self.position[1]), self.height)\n            circle2 = Circle((self.position[0]\n                              + (self.height - self.width),\n                              self.position[1]), self.height)\n")],
     'an obround that lies on its side',
     'the second lobe of an obround lies too far out',
     """
from gerber.primitives import Obround
o = Obround((1, 2), 2, 1)
x = sorted([o.subshapes['circle1'].position[0], o.subshapes['circle2'].position[0]])
print(x)
sys.exit(0 if abs(x[0] - .5) < 1e-9 and abs(x[1] - 1.5) < 1e-9 else 1)
""")

EXH = """
from gerber.excellon import ExcellonParser, loads
from gerber.cam import FileSettings
def drill(text, **k):
    return ExcellonParser(FileSettings(**k) if k else None).parse_raw(text)
"""

seed('s18-retract', 'C18',
     [(EX, "            self.statements.append(RetractWithoutClampingStmt())\n            self.drill_down = False\n",
       "            self.statements.append(RetractWithoutClampingStmt())\n            self.drill_down = self.state == 'DRILL'\n")],
     'a program that retracts the tool with M17 in drill mode and then routes without M15',
     'slots are cut by moves made with the tool up',
     EXH + """
f = drill('M48\\nINCH,TZ\\nT1C0.02\\n%\\nG90\\nT01\\nX1Y1\\nM15\\nM17\\nG00X10000Y10000\\nG01X20000Y10000\\nM30\\n')
print(f.hits)
sys.exit(0 if len(f.hits) == 1 else 1)
""")

seed('s19-slot-axis', 'C19',
     [(ES, "        if self.x_end is not None:\n            stmt += 'X%s' % write_gerber_value(self.x_end, settings.format,",
       "        if self.x_end:\n            stmt += 'X%s' % write_gerber_value(self.x_end, settings.format,")],
     'a slot that ends on the y axis (x = 0)',
     'the slot read back ends at the x where it starts',
     EXH + """
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    f = drill('M48\\nINCH,TZ\\nT1C0.02\\n%\\nG90\\nT01\\nX10000Y10000G85X0Y20000\\nM30\\n')
    f.write(os.path.join(d, 'a.drl'))
    g = loads(open(os.path.join(d, 'a.drl')).read(), settings=f.settings)
    a, b = f.hits[0], g.hits[0]
    print(a.end, b.end)
    sys.exit(0 if a.start == b.start and a.end == b.end else 1)
finally:
    shutil.rmtree(d)
""")

seed('s20-repeat-delta', 'C20',
     [(ES, "        if self.ydelta is not None and self.ydelta != 0.0:\n", "        if self.ydelta is not None and self.ydelta != 0.0 and self.ydelta != self.xdelta:\n")],
     'a repetition along the diagonal (equal steps in x and y)',
     'the step in y is lost when the statement is written',
     EXH + """
from gerber.excellon_statements import RepeatHoleStmt
s = FileSettings(units='inch', zeros='leading', format=(2, 4), notation='absolute')
bad = 0
for x, y in ((0.1, 0.1), (0.1, 0.2), (None, 0.1), (0.3, None)):
    r = RepeatHoleStmt.from_excellon(RepeatHoleStmt(3, x, y).to_excellon(s), s)
    if (r.xdelta or 0, r.ydelta or 0) != (x or 0, y or 0):
        print(x, y, r.xdelta, r.ydelta); bad = 1
sys.exit(bad)
""")

seed('s21-tool-update', 'C21',
     [(EX, "            if hit.tool.number == newtool.number:\n                hit.tool = newtool\n",
       "            if hit.tool.number == newtool.number or hit.tool.diameter == newtool.diameter:\n                hit.tool = newtool\n")],
     'changing the diameter of a tool to the diameter another tool has',
     'the holes of the other tool are handed over to the changed tool',
     EXH + """
f = drill('M48\\nINCH,TZ\\nT1C0.02\\nT2C0.03\\n%\\nG90\\nT01\\nX10000Y10000\\nT02\\nX20000Y10000\\nM30\\n')
f.update_tool(1, diameter=0.03)
n = [h.tool.number for h in f.hits]
print(n)
sys.exit(0 if n == [1, 2] else 1)
""")

seed('s22-adjacency', 'C22',
     [(IP, "                elif net in record.adjacent_nets:\n                    adjacent_nets.add(record.net)\n",
       "                elif net in record.adjacent_nets[:4]:\n                    adjacent_nets.add(record.net)\n")],
     'an adjacency record that lists more than four nets',
     'the fifth and later nets do not know they are next to the record\'s net',
     """
from gerber.ipc356 import loads
t = 'P  UNITS CUST 0\\n'
for i in range(6):
    t += '317NET%d             VIA         D  24PA00X  14900Y   1450X 396Y 396\\n' % i
t += '379NET0 NET1 NET2 NET3 NET4 NET5\\n999\\n'
nets = dict((n.name, n.adjacent_nets) for n in loads(t).nets)
print(nets)
sys.exit(0 if all(nets['NET%d' % i] == set(['NET0']) for i in range(1, 6)) else 1)
""")

seed('s23-view-through', 'C23',
     [(PC, "        drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]\n",
       "        drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers or 'top' not in l.layers]\n")],
     'a board with buried holes (a drill layer between two inner layers)',
     'the bottom view shows holes that do not reach the bottom',
     """
from gerber.layers import PCBLayer, DrillLayer
from gerber.pcb import PCB
d = DrillLayer('buried.drl', None, layers=['in1', 'in2'])
e = DrillLayer('through.drl', None)
p = PCB([PCBLayer('b.gbl', 'bottom'), d, e, PCBLayer('t.gtl', 'top')])
got = [l.filename for l in p.bottom_layers]
print(got)
sys.exit(0 if got == ['b.gbl', 'through.drl'] else 1)
""")

seed('s24-modal-bounds', 'C24',
     [(RS, "            if stmt.y is not None:\n                min_y = min(stmt.y, min_y)\n                max_y = max(stmt.y, max_y)\n",
       "            if stmt.y is not None:\n                if stmt.y < min_y:\n                    min_y = stmt.y\n                elif stmt.y > max_y:\n                    max_y = stmt.y\n")],
     'a file whose y coordinates only ever get smaller (or has a single one)',
     'the upper bound in y is wrong',
     HELP + """
f = load(HEAD + '%ADD10C,0.1*%\\nD10*\\nX0Y3000D02*\\nX1000Y2000D01*\\nX2000Y1000D01*\\nM02*\\n')
print(f.bounds)
b = f.bounds
sys.exit(0 if all(near(a, c) for a, c in zip(b[0] + b[1], (0, .2, .1, .3))) else 1)
""")

seed('s25-zeros-kept', 'C25',
     [(EX, "    detected_zeros = zero_statements[0] if len(zero_statements) == 1 else None\n",
       "    detected_zeros = zero_statements[0] if len(set(zero_statements)) == 1 and format_comment else None\n")],
     'a file that declares its kept zeros but not its format, and whose numbers look more usual with the other zeros',
     'the declaration is ignored in favour of a guess',
     """
from gerber.excellon import detect_excellon_format
t = 'M48\\nINCH,LZ\\nT1C0.04\\n%\\nT01\\nX0001Y0001\\nX0012Y0003\\nX0027Y0029\\nM30\\n'
u = 'M48\\nINCH,TZ\\nT1C0.04\\n%\\nT01\\nX10000Y10000\\nX12000Y30000\\nX27000Y29000\\nM30\\n'
a = detect_excellon_format(data=t), detect_excellon_format(data=u)
print(a)
sys.exit(0 if (a[0]['zeros'], a[1]['zeros']) == ('leading', 'trailing') else 1)
""")

seed('s26-shared-moves', 'C26',
     [(OP, "    cam_file = copy.deepcopy(cam_file)\n    cam_file.offset(x_offset, y_offset)\n",
       "    source = cam_file\n    cam_file = copy.deepcopy(source)\n    if x_offset == 0 and y_offset == 0:\n        return source\n    cam_file.offset(x_offset, y_offset)\n")],
     'moving a file by nothing, and changing the result afterwards',
     'the returned file is the given one',
     HELP + """
from gerber import operations
f = load(HEAD + '%ADD10C,0.1*%\\nD10*\\nX0Y3000D03*\\nM02*\\n')
g = operations.offset(f, 0, 0)
g.offset(1, 1)
print(f.primitives[0].position)
sys.exit(0 if near(f.primitives[0].position[0], 0) else 1)
""")

seed('s27-zeros-item', 'C27',
     [(CM, "            self.zero_suppression = value\n\n        elif key == 'zeros':\n", "            self._zero_suppression = value\n            if self._zeros == value and value == 'leading':\n                self._zeros = 'trailing'\n\n        elif key == 'zeros':\n")],
     'setting the suppressed zeros to trailing by key when trailing zeros are kept',
     'the zeros kept and the zeros suppressed are both trailing',
     """
from gerber.cam import FileSettings
bad = 0
for a in ('leading', 'trailing'):
    for b in ('leading', 'trailing'):
        s = FileSettings(zeros=a)
        s['zero_suppression'] = b
        if s.zeros == s.zero_suppression or s.zero_suppression != b:
            print(a, b, s.zeros, s.zero_suppression); bad = 1
sys.exit(bad)
""")

seed('s30-plating-types', 'C30',
     [(EX, "            if \"TYPE=NON_PLATED\" in comment_stmt.comment:\n                self.plated = ExcellonTool.PLATED_NO\n",
       "            elif \"TYPE=NON_PLATED\" in comment_stmt.comment and self.plated != ExcellonTool.PLATED_YES:\n                self.plated = ExcellonTool.PLATED_NO\n")],
     'a header with plated tools first and non-plated tools after them',
     'the later tools are taken for plated',
     EXH + """
f = drill('M48\\nINCH,TZ\\n;TYPE=PLATED\\nT1C0.02\\n;TYPE=NON_PLATED\\nT2C0.03\\n%\\nT01\\nX10000Y10000\\nT02\\nX20000Y10000\\nM30\\n')
print([t.plated for t in f.tools.values()])
sys.exit(0 if [f.tools[1].plated, f.tools[2].plated] == ['plated', 'nonplated'] or f.tools[1].plated != f.tools[2].plated else 1)
""")

CAIRO = HELP + """
from gerber.render.cairo_backend import GerberCairoContext
from gerber.layers import PCBLayer
from io import BytesIO
try:
    import cairo
except ImportError:
    import cairocffi as cairo
def pixels(ctx):
    s = cairo.ImageSurface.create_from_png(BytesIO(ctx.dump_str()))
    d = bytes(s.get_data()); w, h, st = s.get_width(), s.get_height(), s.get_stride()
    return w, h, lambda x, y: tuple(d[y * st + 4 * x:y * st + 4 * x + 3])
"""

seed('s28-hole-turn', 'C28',
     [(CB, "                                              obround.rotation, center)\n                    lower_right = rotate_point((center[0] + width / 2.0, center[1] - height / 2.0),\n                                               obround.rotation, center)\n                    upper_left = rotate_point((center[0] - width / 2.0, center[1] + height / 2.0),\n",
       "                                              obround.rotation, center)\n                    lower_right = rotate_point((center[0] + width / 2.0, center[1] - height / 2.0),\n                                               obround.rotation, center)\n                    upper_left = rotate_point((center[0] - height / 2.0, center[1] + height / 2.0),\n")],
     'an obround aperture with a rectangular hole that is not square',
     'the hole has the wrong shape',
     CAIRO + """
f = load(HEAD + '%ADD10O,0.8X0.4*%\\nD10*\\nX0Y0D03*\\nM02*\\n')
p = f.primitives[0]
p.hole_width, p.hole_height = 0.4, 0.2
import math
class L(object):
    layer_class = 'top'; primitives = f.primitives; bounds = ((-.5, .5), (-.5, .5))
c = GerberCairoContext(scale=100)
c.render_layer(L())
w, h, at = pixels(c)
bg = at(2, 2)
inside = [at(50 + x, 50 + y) for x in (-17, 17) for y in (-7, 7)]
rim = [at(50 + x, 50 + y) for x in (-28, 28) for y in (-7, 7)]
print(bg, inside, rim)
sys.exit(0 if all(q == bg for q in inside) and all(q != bg for q in rim) else 1)
""")

seed('s29-stale-size', 'C29',
     [(CB, "        self.origin_in_inch = None\n        self.size_in_inch = None\n        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n",
       "        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n        if self.ctx is not None or self.size_in_inch is None:\n            self.origin_in_inch = None\n            self.size_in_inch = None\n")],
     'drawing a second board with a context that has drawn one before',
     'the second picture has the place and size of the first one',
     CAIRO + """
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    def board(x, y):
        f = load(HEAD + '%%ADD10C,0.1*%%\\nD10*\\nX0Y0D02*\\nX%dY%dD01*\\nM02*\\n' % (x, y))
        f.filename = 'a.gtl'
        return PCBLayer.from_cam(f)
    c = GerberCairoContext()
    sizes = []
    for x, y in ((10000, 20000), (30000, 10000)):
        c.render_layers([board(x, y)], os.path.join(d, 'a.png'), max_width=300, max_height=300)
        sizes.append(tuple(c.size_in_inch))
    print(sizes)
    sys.exit(0 if near(sizes[1][0], 3) and near(sizes[1][1], 1) else 1)
finally:
    shutil.rmtree(d)
""")


seed('s31-indent', 'C31',
     [(RS, "            line = oldline + line.strip()\n", "            line = (oldline + line).strip()\n")],
     'a command broken over two lines, the second of which is indented',
     'the command is not understood',
     HELP + """
f = load(HEAD + '%ADD10C,0.1*%\\nD10*\\nX1000\\n  Y2000D03*\\nM02*\\n')
print(f.primitives)
sys.exit(0 if len(f.primitives) == 1 and near(f.primitives[0].position[0], 0.1) and near(f.primitives[0].position[1], 0.2) else 1)
""")

seed('s32-many', 'C32',
     [(RS, "                            self._recursion_depth -= 1\n", "                            self._recursion_depth = max(self._recursion_depth - 1, 1)\n"),
      (RS, "                        if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:", "                        if self._recursion_depth <= self.INCLUDE_FILE_RECURSION_LIMIT - 1:")],
     'two included files one after the other, the second nested ten levels deep',
     'the file is refused although it is nested no deeper than allowed',
     HELP + """
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    def put(n, t):
        with open(os.path.join(d, n), 'w') as f:
            f.write(t)
    put('main.gbr', HEAD + '%IFap.inc*%\\nD10*\\n%IFf1.inc*%\\nM02*\\n')
    put('ap.inc', '%ADD10C,0.1*%\\n')
    for k in range(1, 11):
        put('f%d.inc' % k, 'X%d00Y0D03*\\n' % k + ('%%IFf%d.inc*%%\\n' % (k + 1) if k < 10 else ''))
    from gerber import rs274x
    with open(os.path.join(d, 'main.gbr')) as f:
        text = f.read()
    try:
        g = rs274x.loads(text, os.path.join(d, 'main.gbr'))
    except IOError as e:
        print(e)
        sys.exit(1)
    print(len(g.primitives))
    sys.exit(0 if len(g.primitives) == 10 else 1)
finally:
    shutil.rmtree(d)
""")

EB = 'gerber/render/excellon_backend.py'
seed('s33-resume', 'C33',
     [(EB, "                self.body.append(RetractWithoutClampingStmt())\n                self.drill_down = False\n", "                self.body.append(RetractWithoutClampingStmt())\n")],
     'a slot that is routed from the very place of the hole drilled before it, after another routed slot',
     'the tool is not lowered and the slot is lost',
     HELP + """
from gerber import excellon
from gerber.cam import FileSettings
from gerber.render.excellon_backend import ExcellonContext
st = FileSettings('absolute', 'inch', zeros='leading', format=(2, 4))
f = excellon.loads('M48\\nINCH,LZ\\nT01C0.02\\n%\\nT01\\nG00X010000Y010000\\nM15\\nG01X020000\\nM16\\nG05\\nX030000Y030000\\nG00X030000Y030000\\nM15\\nG01X050000\\nM16\\nM30\\n', settings=st)
c = ExcellonContext(st)
for p in f.primitives:
    c.render(p)
g = excellon.loads('\\n'.join(s.to_excellon(st) for s in c.statements) + '\\n', settings=st)
print(len(f.hits), len(g.hits))
sys.exit(0 if len(f.hits) == len(g.hits) == 3 else 1)
""")

seed('s34-empty-line', 'C34',
     [('gerber/excellon.py', "        line = '{}{}'.format(self._previous_line, line)\n", "        line = '{}{}'.format(self._previous_line if line else '', line)\n")],
     'an empty line between a routing code on a line of its own and its coordinates',
     'the routing code is lost and a hole is drilled instead',
     HELP + """
from gerber import excellon
from gerber.cam import FileSettings
st = FileSettings('absolute', 'inch', zeros='leading', format=(2, 4))
f = excellon.loads('M48\\nINCH,LZ\\nT01C0.02\\n%\\nT01\\nG00\\n\\nX010000Y010000\\nM15\\nG01X020000\\nM16\\nM30\\n', settings=st)
print(f.hits)
sys.exit(0 if len(f.hits) == 1 and hasattr(f.hits[0], 'end') else 1)
""")

seed('s35-outline-last', 'C35',
     [('gerber/__main__.py', "                bottom = [outline] + bottom\n", "                bottom = bottom + [outline]\n")],
     'a board whose outline file draws something where the bottom side has copper',
     'the outline hides the bottom side',
     CAIRO + """
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, 'b'))
    def put(n, t):
        with open(os.path.join(d, 'b', n), 'w') as f:
            f.write(HEAD + '%ADD10C,0.2*%\\nX0Y0D02*\\nX20000Y10000D02*\\n' + t + 'M02*\\n')
    put('x.gko', 'D10*\\nX5000Y5000D03*\\n')
    put('x.gbl', 'D10*\\nX5000Y5000D03*\\nX15000Y5000D03*\\n')
    from gerber.__main__ import main
    sys.argv = ['x', os.path.join(d, 'b'), '-o', os.path.join(d, 'o'), '--width', '200', '--height', '100']
    main()
    s = cairo.ImageSurface.create_from_png(os.path.join(d, 'o.bottom.png'))
    b = bytes(s.get_data()); st = s.get_stride()
    at = lambda x, y: b[y * st + 4 * x:y * st + 4 * x + 3]
    print(at(50, 50), at(150, 50))
    sys.exit(0 if at(50, 50) == at(150, 50) else 1)
finally:
    shutil.rmtree(d)
""")

seed('s36-side-points', 'C36',
     [('gerber/ipc356.py', "elif layer == 'bottom' and p.layer in ('bottom', 'both'):", "elif layer == 'bottom' and p.layer in ('bottom',):")],
     'the bottom side of a netlist with points that are accessible from both sides',
     'through holes are missing in the drawing of the bottom side',
     HELP + """
from gerber import ipc356
rec = '317NET%d             VIA   -     D0100PA0%dX 006647Y 012900X0000          S3\\n'
f = ipc356.loads(rec % (1, 0) + rec % (2, 8) + rec % (3, 1) + '999\\n')
class Ctx(object):
    def __init__(self):
        self.n = []
    def render(self, p):
        self.n.append(p.net_name)
c = Ctx()
f.render(c, 'bottom')
print(c.n)
sys.exit(0 if c.n == ['NET1', 'NET2'] else 1)
""")

seed('s05-implicit-op', 'C05',
     [('gerber/rs274x.py', "            stmt.op = self.op\n", "            stmt.op = self.op if stmt.function is None else 'D01'\n            self.op = stmt.op\n")],
     'a G01 with coordinates but no operation code after a move or a flash',
     'a line is drawn where the modal operation was a move',
     HELP + """
f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nX1000Y1000D02*\\nG01X2000Y2000*\\nX3000Y3000D01*\\nM02*\\n')
print(f.primitives)
sys.exit(0 if len(f.primitives) == 1 and near(f.primitives[0].start[0], 0.2) else 1)
""")

seed('s08-first-macro', 'C08',
     [('gerber/rs274x.py', "self.macros[stmt.name] = stmt", "self.macros.setdefault(stmt.name, stmt)")],
     'a macro name that is given a second body later in the file',
     'apertures defined after the second definition have the shapes of the first',
     HELP + """
f = load(HEAD + '%AMM1*1,1,0.1,0,0*%\\n%ADD10M1*%\\n%AMM1*5,1,4,0,0,0.3,0*%\\n%ADD11M1*%\\nD11*\\nX1000Y1000D03*\\nD10*\\nX3000Y1000D03*\\nM02*\\n')
k = [type(p.primitives[0]).__name__ for p in f.primitives]
print(k)
sys.exit(0 if k == ['Polygon', 'Circle'] else 1)
""")

seed('s05-lone-direction', 'C05',
     [('gerber/rs274x.py', "            self.interpolation = 'arc'\n", "            if not (stmt.only_function and self.region_mode == 'on'):\n                self.interpolation = 'arc'\n")],
     'a G02 or G03 in a command of its own within a contour',
     'the arc that follows is drawn as a straight edge',
     HELP + """
f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nG75*\\nG36*\\nX10000Y0D02*\\nG03*\\nX0Y10000I-10000J0D01*\\nG01*\\nX0Y0D01*\\nX10000Y0D01*\\nG37*\\nM02*\\n')
k = [type(p).__name__ for p in f.primitives[0].primitives]
print(k)
sys.exit(0 if k == ['Arc', 'Line', 'Line'] else 1)
""")

seed('s05-flash-then-contour', 'C05',
     [('gerber/rs274x.py', "            self.op = stmt.op\n        else:", "            if not (self.region_mode == 'on' and self.op in ('D3', 'D03') and stmt.op in ('D2', 'D02')):\n                self.op = stmt.op\n        else:")],
     'a contour that comes right after a flash',
     'the move that opens the contour flashes the aperture again',
     HELP + """
f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nX0Y0D03*\\nG36*\\nX10000Y0D02*\\nX0Y10000D01*\\nX0Y0D01*\\nX10000Y0D01*\\nG37*\\nM02*\\n')
k = [type(p).__name__ for p in f.primitives]
print(k)
sys.exit(0 if k == ['Circle', 'Region'] else 1)
""")

seed('s17-no-sweep', 'C17',
     [('gerber/rs274x.py', "is_valid_sweep_angle = sweep_angle >= 0 and", "is_valid_sweep_angle = sweep_angle > 0 and")],
     'a single-quadrant arc that ends where it starts',
     'no centre is found and the file cannot be read',
     HELP + """
try:
    f = load(HEAD + '%ADD10C,0.01*%\\nD10*\\nG74*\\nX10000Y0D02*\\nG03X10000Y0I10000J0D01*\\nM02*\\n')
    c = f.primitives[0].center
except Exception as e:
    c = None
    print(e)
print(c)
sys.exit(0 if c is not None and near(abs(c[0] - f.primitives[0].start[0]), abs(f.primitives[0].start[0])) else 1)
""")
