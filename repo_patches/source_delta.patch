From a53cae0e685329ecc680325b737831d4d89ee7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 01/72] fix: coordinate text for formats without integer or
 decimal digits

write_gerber_value() emitted one digit too many for formats such as 0:3 or
3:0, so the value read back was off by a factor of ten.
---
 gerber/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..33f473b 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -148,6 +148,12 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
 
+    # The format string always leaves room for a decimal point and at least one
+    # integer digit, so formats without integer (or decimal) digits get an
+    # extra leading zero
+    while len(digits) > MAX_DIGITS and digits[0] == '0':
+        digits.pop(0)
+
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
     if digit_sum == 0:
-- 
2.43.0


From 60147100a7d61a0778e03b07879f95abaca9c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 02/72] fix: subtraction in aperture macro expressions

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From ec88f8a740a94cccf753ada105627f91395d4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 03/72] fix: negated variables, groups and differences in
 aperture macros

---
 gerber/am_read.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..0e0b3e5 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -29,6 +29,7 @@ class Token:
     # compatibility as many gerber writes do use non compliant X
     MULT = ("x", "X")
     DIV = "/"
+    NEG = "neg"
     OPERATORS = (ADD, SUB, MULT[0], MULT[1], DIV)
     LEFT_PARENS = "("
     RIGHT_PARENS = ")"
@@ -54,12 +55,14 @@ def precedence(token):
         return 1
     elif token in Token.MULT or token == Token.DIV:
         return 2
+    elif token == Token.NEG:
+        return 3
     else:
         return 0
 
 
 def is_op(token):
-    return token in Token.OPERATORS
+    return token in Token.OPERATORS or token == Token.NEG
 
 
 class Scanner:
@@ -156,6 +159,13 @@ def read_macro(macro):
         def empty():
             return len(op_stack) == 0
 
+        def emit():
+            op = pop()
+            if op == Token.NEG:
+                instructions.append((OpCode.PUSH, -1))
+                op = Token.MULT[0]
+            instructions.append((token_to_opcode(op), None))
+
         while not scanner.eof():
 
             c = scanner.getc()
@@ -165,36 +175,44 @@ def read_macro(macro):
 
                 # add all instructions on the stack to finish last modifier
                 while not empty():
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit()
 
                 unary_minus_allowed = True
 
             elif c in Token.OPERATORS:
                 if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
                     unary_minus_allowed = False
+                    # fold the sign into a literal, negate anything else
+                    if scanner.peek() in "0123456789.":
+                        unary_minus = True
+                    else:
+                        push(Token.NEG)
                     continue
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit()
 
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
-                    instructions.append((token_to_opcode(pop()), None))
+                    emit()
 
                 if empty():
                     raise ValueError("unbalanced parentheses")
 
                 # discard "("
                 pop()
+                unary_minus_allowed = False
 
             elif c.startswith("$"):
                 n = scanner.readint()
+                unary_minus_allowed = False
 
                 if is_equation and not found_equation_left_side:
                     equation_left_side = n
@@ -203,6 +221,7 @@ def read_macro(macro):
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
             elif c == "0":
                 if is_primitive and not found_primitive_code:
@@ -212,6 +231,8 @@ def read_macro(macro):
                     # decimal or integer disambiguation
                     if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
                         instructions.append((OpCode.PUSH, 0))
+                        unary_minus = False
+                        unary_minus_allowed = False
 
             elif c in "123456789.":
                 scanner.ungetc()
@@ -220,6 +241,7 @@ def read_macro(macro):
                     primitive_code = scanner.readint()
                 else:
                     n = scanner.readfloat()
+                    unary_minus_allowed = False
                     if unary_minus:
                         unary_minus = False
                         n *= -1
@@ -231,7 +253,7 @@ def read_macro(macro):
 
         # add all instructions on the stack to finish last modifier (if any)
         while not empty():
-            instructions.append((token_to_opcode(pop()), None))
+            emit()
 
         # at end, we either have a primitive or a equation
         if is_primitive and found_primitive_code:
-- 
2.43.0


From 1668a36f281c2efcf2072b07a6c2b7c30374d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 04/72] fix: leading zeros of numbers in aperture macros

---
 gerber/am_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 0e0b3e5..56e10bb 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -228,8 +228,8 @@ def read_macro(macro):
                     instructions.append((OpCode.PUSH, scanner.readstr("*")))
                     found_primitive_code = True
                 else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
+                    # decimal or integer disambiguation, leading zeros
+                    if scanner.peek() not in "0123456789.":
                         instructions.append((OpCode.PUSH, 0))
                         unary_minus = False
                         unary_minus_allowed = False
-- 
2.43.0


From ae3d5308a2cd4cfe0781c4294bcbf2cf9b9295fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 05/72] fix: bounding boxes of shapes rotated beyond 90 degrees

---
 gerber/primitives.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..afe408b 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -758,11 +758,11 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width + abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height + abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -853,11 +853,11 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width + abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height + abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -970,13 +970,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1054,13 +1054,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1155,13 +1155,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 032549d5e70f222cfe463773ff09bcc6680d7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 06/72] fix: vertices of rotated shapes turn about the shape's
 position

---
 gerber/primitives.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index afe408b..ee7985f 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -751,9 +751,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -846,9 +845,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -963,9 +961,8 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(point, self.rotation, self.position)
+                              for point in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From ea92fc045f93e20bc3025b19087e018a882d6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 07/72] fix: outlines of macro primitives are connected and
 carry their units

---
 gerber/am_statements.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..1c2a500 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -320,14 +320,16 @@ class AMVectorLinePrimitive(AMPrimitive):
         line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
         vertices = line.vertices
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(vertices[-1], self.rotation, (0, 0))
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
+
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
@@ -443,7 +445,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0, units=units), units=units))
 
             prev_point = cur_point
 
@@ -806,7 +808,7 @@ class AMThermalPrimitive(AMPrimitive):
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
         outlines = []
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
@@ -821,9 +823,9 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, self.position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
 
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -933,14 +935,16 @@ class AMCenterLinePrimitive(AMPrimitive):
         points.append((x + half_width, y - half_height))
         points.append((x + half_width, y + half_height))
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(points[3], self.rotation, self.center)
         for point in points:
             cur_point = rotate_point(point, self.rotation, self.center)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
+
+            prev_point = cur_point
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 7e6a4b6cd5e8be7dac4a4fd739ab0e0b6dea4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 08/72] fix: sweep of counterclockwise arcs passing through
 zero degrees

---
 gerber/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index ee7985f..b4abcf1 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -400,7 +400,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 80abf62906ca7a8d96bc59fdf2368889efb586b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 09/72] fix: extent of arcs drawn with rectangular apertures

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index b4abcf1..95d0435 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -452,10 +452,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.0
+                max_x = max(x) + self.aperture.width / 2.0
+                min_y = min(y) - self.aperture.height / 2.0
+                max_y = max(y) + self.aperture.height / 2.0
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From 58c6d762416e9c7be7828079cec6f1329296c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 10/72] fix: bounding boxes of single-quadrant arcs that cross
 an axis

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 95d0435..4fec694 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -412,7 +412,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -467,7 +467,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From ff5e5d8b5c74b7fab1373ddb5c10165632814296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 11/72] fix: centre of counterclockwise single-quadrant arcs
 passing through zero degrees

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..8aee439 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -757,7 +757,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 550ba2278a031fb05f03a2aeef1de1c128ab51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 12/72] fix: contours made of a single circle followed by
 another contour are kept

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8aee439..43b9d41 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,7 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 79454d8605f17eab91ca0ee7db20582c5d1e547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 13/72] fix: unit conversion of shapes made of a single
 primitive

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 4fec694..e083213 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From a85485591f459372f96f8bde79136360328e96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 14/72] fix: bounding box of a slot that was moved or resized

---
 gerber/primitives.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e083213..92908f2 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1655,9 +1655,9 @@ class Slot(Primitive):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
+        self._start = start
+        self._end = end
+        self._diameter = diameter
         self._to_convert = ['start', 'end', 'diameter']
 
 
@@ -1665,6 +1665,33 @@ class Slot(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From 45080d4dd013ebc4e6108e537d4d7a252f6f2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 15/72] fix: apertures whose macro name starts with the letter
 C

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 43b9d41..d4c2972 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%]*)"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From 2adb3516498bccc435675c2d5b54da47e707bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 16/72] fix: macro vector lines are rectangles from start to
 end along the line

---
 gerber/am_statements.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 1c2a500..00b554d 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,19 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # The line is a rectangle whose ends are cut square at the start and
+        # end points, whatever the direction of the line
+        delta_x = self.end[0] - self.start[0]
+        delta_y = self.end[1] - self.start[1]
+        length = math.sqrt(delta_x ** 2 + delta_y ** 2)
+        if length == 0:
+            return None
+        normal_x = -delta_y * self.width / (2.0 * length)
+        normal_y = delta_x * self.width / (2.0 * length)
+        vertices = [(self.start[0] + normal_x, self.start[1] + normal_y),
+                    (self.start[0] - normal_x, self.start[1] - normal_y),
+                    (self.end[0] - normal_x, self.end[1] - normal_y),
+                    (self.end[0] + normal_x, self.end[1] + normal_y)]
 
         aperture = Circle((0, 0), 0, units=units)
 
-- 
2.43.0


From 536518a925a6c4657d9a410828599cddf2f6479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 17/72] fix: offset and mirror statements that name one axis
 only

---
 gerber/gerber_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..8f8f5b9 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -620,8 +620,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -668,8 +668,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
-- 
2.43.0


From ef7346e21cbd791c64e9109a85bc2638cd4700f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 18/72] fix: decimal text of very small and very large numbers

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 33f473b..e7100dd 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -191,6 +191,8 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        floatstr = '%0.10f' % value
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From f6f90aeb594429be6f4873e96ee2a664a98c89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 19/72] fix: aperture definitions keep their digits when
 written

---
 gerber/gerber_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 8f8f5b9..3b145b3 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -369,7 +369,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.10g" % x for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
-- 
2.43.0


From 54a952fd5c893f57a0ae21188e7c452737401df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 20/72] fix: formats without zero suppression are written as
 such

---
 gerber/gerber_statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 3b145b3..511368c 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -96,6 +96,8 @@ class FSParamStmt(ParamStmt):
     """ FS - Gerber Format Specification Statement
     """
 
+    _ZERO_CODES = {'leading': 'L', 'trailing': 'T', 'none': 'D'}
+
     @classmethod
     def from_settings(cls, settings):
 
@@ -155,11 +157,11 @@ class FSParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if settings:
-            zero_suppression = 'L' if settings.zero_suppression == 'leading' else 'T'
+            zero_suppression = self._ZERO_CODES.get(settings.zero_suppression, 'T')
             notation = 'A' if settings.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, settings.format))
         else:
-            zero_suppression = 'L' if self.zero_suppression == 'leading' else 'T'
+            zero_suppression = self._ZERO_CODES.get(self.zero_suppression, 'T')
             notation = 'A' if self.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, self.format))
 
-- 
2.43.0


From 587e034551bd7e44ab4e10299b8f42249ae21e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 21/72] fix: scale factors are read instead of being reset to
 one

---
 gerber/gerber_statements.py | 4 ++--
 gerber/rs274x.py            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 511368c..40e846e 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -744,8 +744,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index d4c2972..40fed74 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -205,7 +205,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>.*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 0c1bf441ce5b7264c16181bac49c9b62c4f2ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 22/72] fix: aperture macros with parameters are written with
 their variables

---
 gerber/gerber_statements.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 40e846e..1cb905a 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -422,12 +422,15 @@ class AMParamStmt(ParamStmt):
 
         self.instructions = self.read(macro)
         self.primitives = []
+        self.parametric = False
+        self.converted = False
 
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
         self.primitives = []
+        self.parametric = self.parametric or len(modifiers[0]) > 0
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
             if primitive[0] == '0':
@@ -458,16 +461,22 @@ class AMParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
+            self.converted = True
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
+            self.converted = True
             for primitive in self.primitives:
                 primitive.to_metric()
 
     def to_gerber(self, settings=None):
+        if not self.converted and (self.parametric or not self.primitives):
+            # Every use of the macro has its own parameters, so write the
+            # definition and not the values of the latest use
+            return '%AM{0}*{1}*%'.format(self.name, self.macro.strip().rstrip('*'))
         return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
 
     def __str__(self):
-- 
2.43.0


From c1678fab17329a330020ff6195ff3f90d63d05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 23/72] fix: coordinates in aperture macros keep their digits
 when written

---
 gerber/am_statements.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 00b554d..064716e 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -438,8 +438,8 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
+            start_point="%.10g,%.10g" % self.start_point,
+            points=",\n".join(["%.10g,%.10g" % point for point in self.points]),
             rotation=str(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
@@ -551,8 +551,8 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
+            position="%.10g,%.10g" % self.position,
+            diameter='%.10g' % self.diameter,
             rotation=str(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
@@ -660,7 +660,7 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.10g,%.10g" % self.position,
             diameter=self.diameter,
             ring_thickness=self.ring_thickness,
             gap=self.gap,
@@ -753,7 +753,7 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.10g,%.10g" % self.position,
             outer_diameter=self.outer_diameter,
             inner_diameter=self.inner_diameter,
             gap=self.gap,
@@ -926,7 +926,7 @@ class AMCenterLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            center="%.4g,%.4g" % self.center,
+            center="%.10g,%.10g" % self.center,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
@@ -1034,7 +1034,7 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
+            lower_left="%.10g,%.10g" % self.lower_left,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
-- 
2.43.0


From 489b8ea67c514d93f61ef3acc0e1c7bac512fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 24/72] fix: unit conversion keeps the vertex count and
 rotation of polygon apertures

---
 gerber/gerber_statements.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 1cb905a..acee0d7 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -357,16 +357,22 @@ class ADParamStmt(ParamStmt):
         else:
             self.modifiers = [tuple()]
 
+    def _is_length(self, index):
+        # The number of vertices and the rotation of a polygon are no lengths
+        return self.shape != 'P' or index not in (1, 2)
+
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
+            self.modifiers = [tuple([inch(x) if self._is_length(i) else x
+                                     for i, x in enumerate(modifier)])
                               for modifier in self.modifiers]
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self.modifiers = [tuple([metric(x) if self._is_length(i) else x
+                                     for i, x in enumerate(modifier)])
                               for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
-- 
2.43.0


From ca602c1cd67daeba65f2adea36781bbd542d633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 25/72] fix: moving a file leaves arc centres, image offsets
 and scale factors alone

---
 gerber/rs274x.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 40fed74..d97fbc8 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -172,7 +172,13 @@ class GerberFile(CamFile):
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-            statement.offset(x_offset, y_offset)
+            # Only coordinates move: the centre of an arc is relative to its
+            # start, and image offsets and scale factors apply on top
+            if isinstance(statement, CoordStmt):
+                if statement.x is not None:
+                    statement.x += x_offset
+                if statement.y is not None:
+                    statement.y += y_offset
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
-- 
2.43.0


From 28d43301f5545fe8837e0bb55883133cbf597d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 26/72] fix: deprecated format codes do not swallow the
 commands behind them

---
 gerber/rs274x.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index d97fbc8..5e1f7ec 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -464,7 +464,8 @@ class GerberParser(object):
 
                 (deprecated_format, r) = _match_one(self.DEPRECATED_FORMAT, line)
                 if deprecated_format:
-                    yield DeprecatedStmt.from_gerber(line)
+                    yield DeprecatedStmt.from_gerber(
+                        deprecated_format["format"] + "*")
                     line = r
                     did_something = True
                     continue
-- 
2.43.0


From e4fb0c8fede2bbbc049de4820e23c72dc01789ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 27/72] fix: unit conversion of aperture macros that are used
 with several parameters

---
 gerber/gerber_statements.py | 41 +++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index acee0d7..7b4ab17 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -358,8 +358,11 @@ class ADParamStmt(ParamStmt):
             self.modifiers = [tuple()]
 
     def _is_length(self, index):
-        # The number of vertices and the rotation of a polygon are no lengths
-        return self.shape != 'P' or index not in (1, 2)
+        if self.shape == 'P':
+            # The number of vertices and the rotation are no lengths
+            return index not in (1, 2)
+        # What the parameters of a macro are is up to its definition
+        return self.shape in ('C', 'R', 'O')
 
     def to_inch(self):
         if self.units == 'metric':
@@ -398,6 +401,19 @@ class AMParamStmt(ParamStmt):
     """ AM - Aperture Macro Statement
     """
 
+    # Positions of the fields of a primitive that are lengths
+    _LENGTHS = {
+        '1': lambda n: range(2, 5),
+        '2': lambda n: range(2, 7),
+        '20': lambda n: range(2, 7),
+        '21': lambda n: range(2, 6),
+        '22': lambda n: range(2, 6),
+        '4': lambda n: range(3, n - 1),
+        '5': lambda n: range(3, 6),
+        '6': lambda n: (1, 2, 3, 4, 5, 7, 8),
+        '7': lambda n: range(1, 6),
+    }
+
     @classmethod
     def from_dict(cls, stmt_dict):
         return cls(**stmt_dict)
@@ -429,7 +445,6 @@ class AMParamStmt(ParamStmt):
         self.instructions = self.read(macro)
         self.primitives = []
         self.parametric = False
-        self.converted = False
 
     def read(self, macro):
         return read_macro(macro)
@@ -464,22 +479,36 @@ class AMParamStmt(ParamStmt):
 
         return AMGroup(self.primitives, stmt=self, units=self.units)
 
+    def _scale_macro(self, scale):
+        blocks = [block.strip() for block in self.macro.strip().rstrip('*').split('*')]
+        for k, block in enumerate(blocks):
+            fields = block.replace('\n', '').replace('\r', '').split(',')
+            if fields[0] not in self._LENGTHS:
+                # Comments and definitions of variables
+                continue
+            for i in self._LENGTHS[fields[0]](len(fields)):
+                if i < len(fields):
+                    fields[i] = '(%s)%s' % (fields[i], scale)
+            blocks[k] = ','.join(fields)
+        self.macro = '*'.join(blocks)
+        self.instructions = self.read(self.macro)
+
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.converted = True
+            self._scale_macro('/25.4')
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.converted = True
+            self._scale_macro('x25.4')
             for primitive in self.primitives:
                 primitive.to_metric()
 
     def to_gerber(self, settings=None):
-        if not self.converted and (self.parametric or not self.primitives):
+        if self.parametric or not self.primitives:
             # Every use of the macro has its own parameters, so write the
             # definition and not the values of the latest use
             return '%AM{0}*{1}*%'.format(self.name, self.macro.strip().rstrip('*'))
-- 
2.43.0


From afbfc288cbb8d4f8dc0398f39245a20ff8410738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 28/72] fix: slots routed with plain coordinates count as hits
 of their tool

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..7832222 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -733,6 +733,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From 39662c3c724c867a59b25aa01d73511248188e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 29/72] fix: tool sizes in comments are read on Python 3

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7832222..02c80f5 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From 64eb3e09f66a08e7af40bc5387eb0efb22fe9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 30/72] fix: slots whose start has one coordinate only

---
 gerber/excellon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 02c80f5..1f6e794 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -684,6 +684,12 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
+                # Coordinates that are left out keep their value
+                start = (stmt.x_start if stmt.x_start is not None else self.pos[0],
+                         stmt.y_start if stmt.y_start is not None else self.pos[1])
+                end = (stmt.x_end if stmt.x_end is not None else start[0],
+                       stmt.y_end if stmt.y_end is not None else start[1])
+
                 # I don't know if this is actually correct, but it makes sense
                 # that this is where the tool would end
                 x = stmt.x_end
@@ -706,7 +712,7 @@ class ExcellonParser(object):
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
-- 
2.43.0


From 3466af7d24015423433c0b75bfdc5fc717f6c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 31/72] fix: the end of program is written in the coordinate
 format of the file

---
 gerber/excellon_statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..bf38c82 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -621,10 +621,12 @@ class EndOfProgramStmt(ExcellonStatement):
 
     def to_excellon(self, settings=None):
         stmt = 'M30'
+        fmt = ((settings.format, settings.zero_suppression)
+               if settings is not None else ())
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % write_gerber_value(self.x, *fmt)
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % write_gerber_value(self.y, *fmt)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 19a7c62349f4ca8bbae6d729df400ea101a628ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 32/72] fix: unit statements keep the number format they
 declare

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index bf38c82..7c624ba 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -681,10 +681,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format is not None:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 265c6a7ac155a01260443a47f5e1f81d69c5e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 33/72] fix: slots, incremental files and hits without tool
 selection are written

---
 gerber/excellon.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 1f6e794..0aa3cbb 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -197,6 +197,12 @@ class ExcellonFile(CamFile):
 
     """
 
+    # The header ends where the first of these statements is found
+    _BODY_STATEMENTS = (ToolSelectionStmt, NextToolSelectionStmt,
+                        CoordinateStmt, RepeatHoleStmt, SlotStmt,
+                        RouteModeStmt, ZAxisRoutPositionStmt,
+                        EndOfProgramStmt)
+
     def __init__(self, statements, tools, hits, settings, filename=None):
         super(ExcellonFile, self).__init__(statements=statements,
                                            settings=settings,
@@ -265,18 +271,24 @@ class ExcellonFile(CamFile):
 
             # Copy the header verbatim
             for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
+                if isinstance(statement, self._BODY_STATEMENTS):
                     break
+                f.write(statement.to_excellon(self.settings) + '\n')
+
+            # The positions below are absolute
+            if self.settings.notation != 'absolute':
+                f.write(AbsoluteModeStmt().to_excellon() + '\n')
 
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        if isinstance(hit, DrillSlot):
+                            stmt = SlotStmt.from_points(hit.start, hit.end)
+                        else:
+                            stmt = CoordinateStmt.from_point(hit.position)
+                        f.write(stmt.to_excellon(self.settings) + '\n')
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
     def to_inch(self):
-- 
2.43.0


From 4b400ca0eaa753b50c6ec2b8d5862ed387cc25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 34/72] fix: path length of files with slots

---
 gerber/excellon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 0aa3cbb..5e62715 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -341,9 +341,12 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            points = ((hit.start, hit.end) if isinstance(hit, DrillSlot)
+                      else (hit.position,))
+            for point in points:
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], point)))
+                positions[num] = point
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 45fcbd69349b715897c2db8627f52ef2b615211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 35/72] fix: drill reports of files with unused tools, in
 millimetres or incremental

---
 gerber/excellon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5e62715..029de2e 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -250,16 +250,16 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += '  Data Mode         %s\n' % (
+            'Absolute' if self.settings.notation == 'absolute' else 'Incremental')
+        rprt += '  Units             %s\n' % (
+            'Inches' if self.settings.units == 'inch' else 'Millimeters')
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count, self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
-- 
2.43.0


From c7fbb739bc038459ad80b61f76bd08ad6ebfbc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 36/72] fix: adjacent nets of the first net of an adjacency
 record

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..2d23698 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From 0164d8a947fed8de5b5e6f696ab9ccebdb823c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 37/72] fix: rotation of netlist records in radians

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 2d23698..ece164b 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -348,7 +348,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 57a751c36b84226e3aaea5c12779134116285c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 38/72] fix: netlist records without pin and with negative
 coordinates

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index ece164b..2d77b8e 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -294,7 +294,7 @@ class IPC356_TestRecord(object):
         end = len(line) - 1 if len(line) < 18 else 17
         record['net_name'] = line[3:end].strip()
 
-        if len(line) >= 27 and line[26] != '-':
+        if len(line) >= 27 and line[26] not in ('-', ' '):
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
         end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
-- 
2.43.0


From 26ff6147ec2050b4564378539d5cd1dc145849a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 39/72] fix: the last field of a netlist record keeps its last
 character

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 2d77b8e..1bc5514 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,22 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = 17
         record['net_name'] = line[3:end].strip()
 
         if len(line) >= 27 and line[26] not in ('-', ' '):
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +314,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,7 +356,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 79 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 3c838d696410825b7e89b2a6a1bcb8ce72c812f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 40/72] fix: tools that are not defined in the header are
 written in the header

---
 gerber/excellon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 029de2e..2bb5ff0 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -677,12 +677,16 @@ class ExcellonParser(object):
                         self._settings(), number=stmt.tool, diameter=diameter)
                     self.tools[tool.number] = tool
 
-                    # FIXME: need to add this tool definition inside header to
-                    # make sure it is properly written
+                    # Add this tool definition inside header to make sure it
+                    # is properly written
+                    in_header = False
                     for i, s in enumerate(self.statements):
-                        if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
+                        if (isinstance(s, (ToolSelectionStmt, HeaderEndStmt))
+                                or (in_header and isinstance(s, RewindStopStmt))):
                             self.statements.insert(i, tool)
                             break
+                        if isinstance(s, (HeaderBeginStmt, RewindStopStmt)):
+                            in_header = True
 
                 self.active_tool = tool
 
-- 
2.43.0


From 333173612136acff8dee80e3c4edb136ee94390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 41/72] fix: views of boards without copper layer on that side

---
 gerber/pcb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..9937acf 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -81,7 +81,8 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        copper = [l for l in board_layers if l.layer_class == 'top']
+        return copper + drill_layers + [l for l in board_layers if l not in copper]
 
     @property
     def bottom_layers(self):
@@ -89,7 +90,8 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        copper = [l for l in board_layers if l.layer_class == 'bottom']
+        return copper + drill_layers + [l for l in board_layers if l not in copper]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 468832a94d8d4267bdb5561a84c110fbbfaed150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 42/72] fix: order of inner layers comes from the file name and
 not from its directory

---
 gerber/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..bf1e7cc 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -255,7 +255,7 @@ class InternalLayer(PCBLayer):
     def from_cam(cls, camfile):
         filename = camfile.filename
         try:
-            order = int(re.search(r'\d+', filename).group())
+            order = int(re.search(r'\d+', os.path.basename(filename)).group())
         except AttributeError:
             order = 0
         return cls(filename, camfile, order)
-- 
2.43.0


From 5b2ebd0602dd3c5b8aef51dcf74a45f566dd9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 43/72] fix: file operations on Gerber files on Python 3

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 5e1f7ec..69a4454 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -280,7 +280,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 1fb0e28bc2d504217f8bcebd394695c1b8532f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 44/72] fix: settings files with incremental coordinates

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From bc3fa61ee45b0f9d3d153e085517f26f86dcfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 45/72] fix: plating of the tools in Allegro tool tables

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From bfcda336aac509424ea83ea2978f57dd299ef997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 46/72] fix: tool tables read without settings

---
 gerber/excellon_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index f9837b7..2f20979 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -29,6 +29,7 @@ try:
 except(ImportError):
     from io import StringIO
 
+from .cam import FileSettings
 from .excellon_statements import ExcellonTool
 
 def loads(data, settings=None):
@@ -69,7 +70,7 @@ class ExcellonToolDefinitionParser(object):
 
     def __init__(self, settings=None):
         self.tools = {}
-        self.settings = settings
+        self.settings = settings if settings is not None else FileSettings()
 
     def parse_raw(self, data):
         for line in StringIO(data):
-- 
2.43.0


From bc6cdd32a8e8991f2fa743688b445f05b726949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 47/72] fix: macros rendered back to Gerber keep the parameters
 of their use

---
 gerber/gerber_statements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 7b4ab17..5a0b7a3 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,8 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+import copy
+
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     inch, metric)
 
@@ -477,7 +479,11 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # The group keeps the values of this use of the macro
+        stmt = copy.deepcopy(self)
+        stmt.parametric = False
+
+        return AMGroup(self.primitives, stmt=stmt, units=self.units)
 
     def _scale_macro(self, scale):
         blocks = [block.strip() for block in self.macro.strip().rstrip('*').split('*')]
-- 
2.43.0


From 749ff87e20c7f290800c1586ce727d141c3018d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 48/72] fix: macros that differ in rotation, holes, exposure or
 line width are not equivalent

---
 gerber/primitives.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 92908f2..e711684 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -70,6 +70,9 @@ class Primitive(object):
     def __eq__(self, other):
         return self.__dict__ == other.__dict__
 
+    def _same_attributes(self, other, names):
+        return all(getattr(self, name, None) == getattr(other, name, None) for name in names)
+
     @property
     def units(self):
         return self._units
@@ -312,7 +315,17 @@ class Line(Primitive):
         equiv_end = tuple(map(add, other.end, offset))
 
 
-        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)
+        if not (nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)):
+            return False
+
+        if not self._same_attributes(other, ('level_polarity',)):
+            return False
+
+        if self.aperture is None or other.aperture is None:
+            return self.aperture is other.aperture
+
+        return (type(self.aperture) == type(other.aperture) and
+                self.aperture._same_attributes(other.aperture, ('diameter', 'width', 'height')))
 
     def __str__(self):
         return "<Line {} to {}>".format(self.start, self.end)
@@ -585,7 +598,7 @@ class Circle(Primitive):
         if not isinstance(other, Circle):
             return False
 
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+        if not self._same_attributes(other, ('diameter', 'hole_diameter', 'hole_width', 'hole_height', 'level_polarity')):
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -769,7 +782,7 @@ class Rectangle(Primitive):
         if not isinstance(other, Rectangle):
             return False
 
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+        if not self._same_attributes(other, ('width', 'height', 'rotation', 'hole_diameter', 'hole_width', 'hole_height', 'level_polarity')):
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -1242,7 +1255,10 @@ class Polygon(Primitive):
         """
 
         # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
+        if type(self) != type(other):
+            return False
+
+        if not self._same_attributes(other, ('sides', 'radius', 'rotation', 'hole_diameter', 'hole_width', 'hole_height', 'level_polarity')):
             return False
 
         equiv_pos = tuple(map(add, other.position, offset))
@@ -1412,6 +1428,9 @@ class Outline(Primitive):
         if type(self) != type(other) or len(self.primitives) != len(other.primitives):
             return False
 
+        if not self._same_attributes(other, ('level_polarity',)):
+            return False
+
         for i in range(0, len(self.primitives)):
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
-- 
2.43.0


From c6887394f0a8a22b14e5e8396bc3f2d7bf552169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 49/72] fix: exposure and rotation of macros made from
 primitives

---
 gerber/am_statements.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 064716e..b698b95 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -31,6 +31,10 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _exposure(primitive):
+    return 'off' if primitive.level_polarity == 'clear' else 'on'
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -191,7 +195,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, _exposure(primitive), primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position):
         validate_coordinates(position)
@@ -263,7 +267,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, _exposure(primitive), primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -393,7 +397,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, _exposure(primitive), start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -507,7 +511,7 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        return cls(5, _exposure(primitive), primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -886,8 +890,8 @@ class AMCenterLinePrimitive(AMPrimitive):
         width = primitive.width
         height = primitive.height
         center = primitive.position
-        rotation = math.degrees(primitive.rotation)
-        return cls(21, 'on', width, height, center, rotation)
+        rotation = primitive.rotation
+        return cls(21, _exposure(primitive), width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From 59e75ee61053de78a2a903cbfa9b2f17950580e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 50/72] fix: apertures of lines rendered to Gerber keep their
 holes and may be polygons

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..9ee8f1c 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -161,9 +161,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 00f2689428dbc00865ac0f3764824d0af0d95738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 51/72] fix: dots drawn as lines of no length are rendered to
 Gerber

---
 gerber/render/rs274x_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 9ee8f1c..ed1e38c 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -201,8 +201,11 @@ class Rs274xContext(GerberContext):
 
         point = self._simplify_point(line.end)
 
-        # In some files, we see a lot of duplicated ponts, so omit those
-        if point[0] != None or point[1] != None:
+        # In some files, we see a lot of duplicated ponts, so omit those that
+        # just repeat the end of a line
+        last = self.body[-1] if self.body else None
+        repeated = isinstance(last, CoordStmt) and last.op == CoordStmt.OP_DRAW
+        if point[0] != None or point[1] != None or not repeated:
             self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
             self._pos = line.end
         elif func:
-- 
2.43.0


From d81cc59b2852aa1dc00cf0777b077859f22fa36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 52/72] fix: pictures no longer cut off the top of objects

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..7dd2ab8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -594,7 +594,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From 897604667ee330cf5cd2441edf0234daa9545b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 53/72] fix: clear objects on inverted layers are shown

---
 gerber/render/cairo_backend.py | 49 +++++++++++-----------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 7dd2ab8..f04e4c1 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,17 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        """Dark objects add to the layer and clear ones remove from it; on an
+        inverted layer it is the other way around."""
+        return (cairo.OPERATOR_OVER
+                if (primitive.level_polarity == 'dark') != self.invert
+                else cairo.OPERATOR_CLEAR)
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +246,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +275,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -301,10 +300,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -345,10 +341,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -384,10 +377,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -437,10 +427,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -499,9 +486,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -522,9 +507,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From 1bb34aeb23ecb774c20162380d4f83f55b948874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 54/72] fix: holes of clear objects and of objects on inverted
 layers are shown

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index f04e4c1..c90d3e6 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -315,10 +315,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -351,19 +348,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -405,10 +396,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -444,10 +432,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -455,10 +440,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 140406ca2d61dce974fc025ce1a2b1f13bfabf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 55/72] fix: objects with no hole given can be drawn

---
 gerber/render/cairo_backend.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index c90d3e6..aca3a43 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -346,14 +346,15 @@ class GerberCairoContext(GerberContext):
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
-                if rectangle.hole_diameter > 0:
+                if rectangle.hole_diameter is not None and rectangle.hole_diameter > 0:
                     # Render the center clear
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
-                if rectangle.hole_width > 0 and rectangle.hole_height > 0:
+                if (rectangle.hole_width is not None and rectangle.hole_height is not None
+                        and rectangle.hole_width > 0 and rectangle.hole_height > 0):
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -389,13 +390,14 @@ class GerberCairoContext(GerberContext):
                 mask.ctx.fill()
 
                 center = self.scale_point(obround.position)
-                if obround.hole_diameter > 0:
+                if obround.hole_diameter is not None and obround.hole_diameter > 0:
                     # Render the center clear
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.arc(center[0], center[1], obround.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
-                if obround.hole_width > 0 and obround.hole_height > 0:
+                if (obround.hole_width is not None and obround.hole_height is not None
+                        and obround.hole_width > 0 and obround.hole_height > 0):
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
@@ -430,7 +432,7 @@ class GerberCairoContext(GerberContext):
                 mask.ctx.fill()
 
                 center = self.scale_point(polygon.position)
-                if polygon.hole_radius > 0:
+                if polygon.hole_radius is not None and polygon.hole_radius > 0:
                     # Render the center clear
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
@@ -439,7 +441,8 @@ class GerberCairoContext(GerberContext):
                                  polygon.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
-                if polygon.hole_width > 0 and polygon.hole_height > 0:
+                if (polygon.hole_width is not None and polygon.hole_height is not None
+                        and polygon.hole_width > 0 and polygon.hole_height > 0):
                     mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
-- 
2.43.0


From 13f34a3acf56f22395787538cfa269060df319a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 56/72] fix: clockwise full circles and full circles in regions
 are drawn

---
 gerber/render/cairo_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index aca3a43..2d491c6 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -240,7 +240,7 @@ class GerberCairoContext(GerberContext):
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
             # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            angle2 -= 0.000000001 if arc.direction == 'counterclockwise' else -0.000000001
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -289,6 +289,9 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if angle1 == angle2 and prim.quadrant_mode != 'single-quadrant':
+                            # A full circle, see _render_arc
+                            angle2 -= 0.000000001 if prim.direction == 'counterclockwise' else -0.000000001
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From 2bf5e1fb42d7ea8c0dacaa5a28e29d9e9b9f0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 57/72] fix: rotated rectangles are drawn rotated

---
 gerber/render/cairo_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 2d491c6..ad92282 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -345,7 +345,12 @@ class GerberCairoContext(GerberContext):
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                if rectangle.rotation == 0:
+                    mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                else:
+                    mask.ctx.move_to(*self.scale_point(rectangle.vertices[-1]))
+                    for vertex in rectangle.vertices:
+                        mask.ctx.line_to(*self.scale_point(vertex))
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
-- 
2.43.0


From 7b40e98bd855d6a2e5ba9c41bdb793ff1fd9161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 58/72] fix: macros with exposure off or clear polarity are
 drawn as a whole

---
 gerber/render/cairo_backend.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index ad92282..68c49fc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -490,8 +490,23 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
-        for primitive in amgroup.primitives:
-            self.render(primitive)
+        if (amgroup.level_polarity == 'dark' and
+                all(primitive.level_polarity == 'dark' for primitive in amgroup.primitives)):
+            for primitive in amgroup.primitives:
+                self.render(primitive)
+            return
+
+        # Shapes with their exposure off only erase shapes of the same macro,
+        # and the polarity applies to the macro as a whole
+        layer_ctx, layer_invert = self.ctx, self.invert
+        with self._new_mask() as mask:
+            mask.ctx.set_matrix(cairo.Matrix(x0=-self.origin_in_pixels[0]))
+            self.ctx, self.invert = mask.ctx, False
+            for primitive in amgroup.primitives:
+                self.render(primitive)
+            self.ctx, self.invert = layer_ctx, layer_invert
+            self.ctx.set_operator(self._operator(amgroup))
+            self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From ec2a7fab6780cb05e9f7766640346284b20843a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 59/72] fix: pictures of several layers take in all of them

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 68c49fc..dc28b25 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -127,7 +127,7 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
-                              verbose=verbose)
+                              verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
 
     def dump(self, filename=None, verbose=False):
-- 
2.43.0


From bcaf0731b63dcad9941611c31eb9f6cccadf14e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 60/72] fix: boards larger than the picture in units are no
 longer drawn with scale 0

---
 gerber/render/cairo_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index dc28b25..f7ab8f9 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -117,7 +117,9 @@ class GerberCairoContext(GerberContext):
         width = x_range[1] - x_range[0]
         height = y_range[1] - y_range[0]
 
-        scale = math.floor(min(float(max_width)/width, float(max_height)/height))
+        scale = min(float(max_width)/width, float(max_height)/height)
+        if scale > 1:
+            scale = math.floor(scale)
         self.scale = (scale, scale)
 
         self.clear()
-- 
2.43.0


From b4c93979c904e6aed521e6ea6ca6a93751ee22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 61/72] fix: test points of netlists are marked at their places

---
 gerber/render/cairo_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index f7ab8f9..03a5a80 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -511,8 +511,7 @@ class GerberCairoContext(GerberContext):
             self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
-- 
2.43.0


From d01349e67e2815e6f360083661103a5a63762571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 62/72] fix: drill files have bounds and can be the first layer
 of a picture

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 2bb5ff0..5825492 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -227,6 +227,10 @@ class ExcellonFile(CamFile):
                 raise ValueError('Unknown hit type')
         return primitives
 
+    @property
+    def bounds(self):
+        return self.bounding_box
+
     @property
     def bounding_box(self):
         xmin = ymin = 100000000000
-- 
2.43.0


From 32b5d5bc7655e8a4d3d32763023464b7e67d5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 63/72] fix: small numbers in apertures and macros are written
 without an exponent

---
 gerber/am_statements.py     | 76 +++++++++++++++++++------------------
 gerber/gerber_statements.py |  4 +-
 gerber/utils.py             | 28 ++++++++++++++
 3 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index b698b95..1660ba9 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -20,7 +20,7 @@ from math import asin
 import math
 
 from .primitives import *
-from .utils import validate_coordinates, inch, metric, rotate_point
+from .utils import validate_coordinates, inch, metric, number_string, rotate_point
 
 
 
@@ -31,6 +31,10 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _point_string(point):
+    return ','.join([number_string(x, '%.10g') for x in point])
+
+
 def _exposure(primitive):
     return 'off' if primitive.level_polarity == 'clear' else 'on'
 
@@ -216,9 +220,9 @@ class AMCirclePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(code=self.code,
                     exposure='1' if self.exposure == 'on' else 0,
-                    diameter=self.diameter,
-                    x=self.position[0],
-                    y=self.position[1])
+                    diameter=number_string(self.diameter),
+                    x=number_string(self.position[0]),
+                    y=number_string(self.position[1]))
         return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
 
     def to_primitive(self, units):
@@ -305,12 +309,12 @@ class AMVectorLinePrimitive(AMPrimitive):
         fmtstr = '{code},{exp},{width},{startx},{starty},{endx},{endy},{rotation}*'
         data = dict(code=self.code,
                     exp=1 if self.exposure == 'on' else 0,
-                    width=self.width,
-                    startx=self.start[0],
-                    starty=self.start[1],
-                    endx=self.end[0],
-                    endy=self.end[1],
-                    rotation=self.rotation)
+                    width=number_string(self.width),
+                    startx=number_string(self.start[0]),
+                    starty=number_string(self.start[1]),
+                    endx=number_string(self.end[0]),
+                    endy=number_string(self.end[1]),
+                    rotation=number_string(self.rotation))
         return fmtstr.format(**data)
 
     def to_primitive(self, units):
@@ -442,9 +446,9 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.10g,%.10g" % self.start_point,
-            points=",\n".join(["%.10g,%.10g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=_point_string(self.start_point),
+            points=",\n".join([_point_string(point) for point in self.points]),
+            rotation=number_string(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
 
@@ -555,9 +559,9 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.10g,%.10g" % self.position,
-            diameter='%.10g' % self.diameter,
-            rotation=str(self.rotation)
+            position=_point_string(self.position),
+            diameter=number_string(self.diameter, '%.10g'),
+            rotation=number_string(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
         return fmt.format(**data)
@@ -664,14 +668,14 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.10g,%.10g" % self.position,
-            diameter=self.diameter,
-            ring_thickness=self.ring_thickness,
-            gap=self.gap,
+            position=_point_string(self.position),
+            diameter=number_string(self.diameter),
+            ring_thickness=number_string(self.ring_thickness),
+            gap=number_string(self.gap),
             max_rings=self.max_rings,
-            crosshair_thickness=self.crosshair_thickness,
-            crosshair_length=self.crosshair_length,
-            rotation=self.rotation
+            crosshair_thickness=number_string(self.crosshair_thickness),
+            crosshair_length=number_string(self.crosshair_length),
+            rotation=number_string(self.rotation)
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
         return fmt.format(**data)
@@ -757,11 +761,11 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.10g,%.10g" % self.position,
-            outer_diameter=self.outer_diameter,
-            inner_diameter=self.inner_diameter,
-            gap=self.gap,
-            rotation=self.rotation
+            position=_point_string(self.position),
+            outer_diameter=number_string(self.outer_diameter),
+            inner_diameter=number_string(self.inner_diameter),
+            gap=number_string(self.gap),
+            rotation=number_string(self.rotation)
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
         return fmt.format(**data)
@@ -928,10 +932,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            center="%.10g,%.10g" % self.center,
-            rotation=self.rotation
+            width = number_string(self.width),
+            height = number_string(self.height),
+            center=_point_string(self.center),
+            rotation=number_string(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
         return fmt.format(**data)
@@ -1036,10 +1040,10 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            lower_left="%.10g,%.10g" % self.lower_left,
-            rotation=self.rotation
+            width = number_string(self.width),
+            height = number_string(self.height),
+            lower_left=_point_string(self.lower_left),
+            rotation=number_string(self.rotation)
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 5a0b7a3..5c896e2 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -23,7 +23,7 @@ Gerber (RS-274X) Statements
 import copy
 
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
-                    inch, metric)
+                    number_string, inch, metric)
 
 from .am_statements import *
 from .am_read import read_macro
@@ -382,7 +382,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.10g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join([number_string(x, '%.10g') for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
diff --git a/gerber/utils.py b/gerber/utils.py
index e7100dd..a85d157 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -213,6 +213,34 @@ def decimal_string(value, precision=6, padding=False):
         return int(floatstr)
 
 
+def number_string(value, fmt='%s'):
+    """ Write a number without an exponent.
+
+    Neither the numbers of Gerber statements nor those of aperture macros may
+    have an exponent.
+
+    Parameters
+    ----------
+    value : float
+        Number to write
+
+    fmt : string
+        Format that determines the precision
+
+    Returns
+    -------
+    number : string
+        The number in positional notation.
+
+    """
+    number = fmt % value
+    if 'e' not in number:
+        return number
+    mantissa, exponent = number.split('e')
+    digits = len(mantissa.lstrip('-').replace('.', ''))
+    return '%.*f' % (max(0, digits - 1 - int(exponent)), value)
+
+
 def detect_file_format(data):
     """ Determine format of a file
 
-- 
2.43.0


From 2db693df4ec71c6f722f10cb5d25333099b8e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 64/72] fix: parameter blocks with several commands are split
 at each of them

---
 gerber/rs274x.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 69a4454..f287346 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -194,25 +194,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(?![a-zA-Z_$])[,]?(?P<modifiers>[^,%*]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^%*]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^%*]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
     SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    LN = r"(?P<param>LN)(?P<name>[^%*]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From 8b384f783ea60d5326778e6676d49588a8e43446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 65/72] fix: commands before the first parameter block may
 share a line

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index f287346..856df93 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -289,7 +289,7 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_header = False
 
         for cur in range(0, length):
 
-- 
2.43.0


From d7a9ef62866e4a62a1d455436f01e50977ffcdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 66/72] fix: themes start over with their inner layer colours
 when all are used

---
 gerber/render/theme.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..c88679b 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -16,6 +16,8 @@
 # limitations under the License.
 
 
+from itertools import cycle
+
 from .render import RenderSettings
 
 COLORS = {
@@ -70,13 +72,9 @@ class Theme(object):
     @property
     def internal(self):
         if not self._internal_gen:
-            self._internal_gen = self._internal_gen_func()
+            self._internal_gen = cycle(self._internal)
         return next(self._internal_gen)
 
-    def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
-
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
         return val if val is not None else noneval
-- 
2.43.0


From 58bdbd67822fefacff2113db43460bd45d0e4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 67/72] fix: drill files can be rendered to Excellon statements

---
 gerber/excellon.py                | 11 +++++++----
 gerber/render/excellon_backend.py | 27 +++++++++++----------------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5825492..e4399c4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -218,13 +218,16 @@ class ExcellonFile(CamFile):
         primitives = []
         for hit in self.hits:
             if isinstance(hit, DrillHit):
-                primitives.append(Drill(hit.position, hit.tool.diameter,
-                                        units=self.settings.units))
+                primitive = Drill(hit.position, hit.tool.diameter,
+                                  units=self.settings.units)
             elif isinstance(hit, DrillSlot):
-                primitives.append(Slot(hit.start, hit.end, hit.tool.diameter,
-                                       units=self.settings.units))
+                primitive = Slot(hit.start, hit.end, hit.tool.diameter,
+                                 units=self.settings.units)
             else:
                 raise ValueError('Unknown hit type')
+            # Renderers that write drill files look up the tool here
+            primitive.hit = hit
+            primitives.append(primitive)
         return primitives
 
     @property
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..04ae911 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -95,19 +95,21 @@ class ExcellonContext(GerberContext):
     def _simplify_point(self, point):
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
+    def _select_tool(self, tool):
+        if tool.number not in self.handled_tools:
+            self.handled_tools.add(tool.number)
+            self.header.append(ExcellonTool.from_tool(tool))
+
+        if tool.number != self.cur_tool:
+            self.body.append(ToolSelectionStmt(tool.number))
+            self.cur_tool = tool.number
+
     def _render_drill(self, drill, color):
 
         if self.drill_mode != ExcellonContext.MODE_DRILL:
             self._start_drill_mode()
 
-        tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
-            self.header.append(ExcellonTool.from_tool(tool))
-
-        if tool != self.cur_tool:
-            self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+        self._select_tool(drill.hit.tool)
 
         point = self._simplify_point(drill.position)
         self._pos = drill.position
@@ -137,14 +139,7 @@ class ExcellonContext(GerberContext):
     def _render_slot(self, slot, color):
 
         # Set the tool first, before we might go into drill mode
-        tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
-            self.header.append(ExcellonTool.from_tool(tool))
-
-        if tool != self.cur_tool:
-            self.body.append(ToolSelectionStmt(tool.number))
-            self.cur_tool = tool
+        self._select_tool(slot.hit.tool)
 
         # Two types of drilling - normal drill and slots
         if slot.hit.slot_type == DrillSlot.TYPE_ROUT:
-- 
2.43.0


From 6d3a980c9a309c2e52bee3bb96398a25ed6d9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 68/72] fix: repeated holes keep their coordinates when
 rendered to Excellon

---
 gerber/render/excellon_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 04ae911..602fbfb 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -93,6 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        # A command needs at least one coordinate
+        if tuple(point) == tuple(self._pos):
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _select_tool(self, tool):
-- 
2.43.0


From 6765a1ae71d3188cdcb652dabc1feee95d0f6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 69/72] fix: the command line draws files in the theme and size
 asked for

---
 gerber/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..cc20226 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -110,11 +110,11 @@ def main():
             pass
     else:
         filenames = args.filenames
-        for filename in filenames:
-            layer = load_layer(filename)
-            settings = theme.THEMES[args.theme].get(layer.layer_class, None)
-            renderer.render_layer(layer, settings=settings)
-        renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
+        renderer.render_layers(
+            layers=[load_layer(filename) for filename in filenames],
+            theme=theme.THEMES[args.theme],
+            max_height=args.height, max_width=args.width,
+            filename='{0}.{1}'.format(args.outfile, outext))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 6cb8f8f45c4afb200ecdc78d0c0afb120f31b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 70/72] fix: the command line leaves out sides that a board
 does not have

---
 gerber/__main__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index cc20226..4d98ad0 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -92,20 +92,24 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            renderer.render_layers(
-                layers=top, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.top.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=bottom, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.bottom.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=copper, theme=theme.THEMES['Transparent Multilayer'],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.copper.{1}'.format(args.outfile, outext))
+            # There is nothing to draw of a side that has no layers
+            if top:
+                renderer.render_layers(
+                    layers=top, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.top.{1}'.format(args.outfile, outext)
+                )
+            if bottom:
+                renderer.render_layers(
+                    layers=bottom, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.bottom.{1}'.format(args.outfile, outext)
+                )
+            if copper:
+                renderer.render_layers(
+                    layers=copper, theme=theme.THEMES['Transparent Multilayer'],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.copper.{1}'.format(args.outfile, outext))
         else:
             pass
     else:
-- 
2.43.0


From 7aa4ea2da6436b7faef8c30313b0059f148e1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 71/72] fix: a text without file name can include files

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 856df93..7c8cf4c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -392,7 +392,7 @@ class GerberParser(object):
                         # Don't crash on include loop
                         if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:
                             self._recursion_depth += 1
-                            with open(os.path.join(os.path.dirname(self.filename), param["filename"]), 'r') as f:
+                            with open(os.path.join(os.path.dirname(self.filename or ''), param["filename"]), 'r') as f:
                                 inc_data = f.read()
                             for stmt in self._parse(self._split_commands(inc_data)):
                                 yield stmt
-- 
2.43.0


From 47163a8732eca79c16598442d00a2abe531a11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 72/72] fix: tools in comments above the declaration of the
 units have the size stated

---
 gerber/excellon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e4399c4..025defa 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -409,6 +409,7 @@ class ExcellonParser(object):
         self.tools = {}
         self.ext_tools = ext_tools or {}
         self.comment_tools = {}
+        self._tool_comments = {}
         self.hits = []
         self.active_tool = None
         self.pos = [0., 0.]
@@ -498,6 +499,7 @@ class ExcellonParser(object):
                 if len(tools) == 1:
                     tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
+                    self._tool_comments[tool.number] = (self.units, comment_stmt.comment)
 
         elif line[:3] == 'M48':
             self.statements.append(HeaderBeginStmt())
@@ -816,6 +818,11 @@ class ExcellonParser(object):
         if not tool:
             tool = self.comment_tools.get(toolid)
             if tool:
+                # The units may be declared below the comment
+                units, comment = self._tool_comments.get(toolid, (self.units, ''))
+                if units != self.units:
+                    tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment)
+                    tool.diameter = tools[toolid].diameter
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0

