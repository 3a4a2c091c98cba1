NOTES = {
'C01': ('`parse_gerber_value`, every character of the text symbolic over the digits, one job per format, zero mode and length.',
        'sum of digit x power of ten with the omitted zeros put on the suppressed side; explicit points: the number spelled.',
        'formats with more digits; blanks and other characters in the text.'),
'C02': ('`write_gerber_value` then `parse_gerber_value` on a real of any value that fits the format.',
        'the value rounded to the last place of the format; shape of the text (sign, digits, "0").',
        'ties of rounding as IEEE doubles break them.'),
'C03': ('the `from_dict`/`to_gerber` pair of every statement class and the parser in between.',
        'the statement parsed has the parameters of the statement written, to the stated precision.',
        'names with "*" or "%"; macro names of one letter (the parser does not take them); moire and lower-left lines as shapes.'),
'C04': ('`rs274x.loads` of whole files with one symbolic number, `to_gerber` of every statement, `loads` again.',
        'statement by statement and object by object equality of the two files, fixed point of the second text; in another format the image is equal to its last place.',
        'files with two numbers at format limits at once; includes; moire.'),
'C05': ('`rs274x.loads` of header plus command sequences with symbolic coordinates.',
        'a small independent interpreter of the standard in the harness (modal state, contour state) that yields the expected objects.',
        'arcs in contours rely on explicit function codes after an arc (the library resets to linear, as gerbv does); single-quadrant arcs are in C17.'),
'C06': ('aperture definitions with symbolic decimal text, flashed and stroked.',
        'shape, sizes, hole, rotation and units as listed in the definition.',
        'zero sized apertures.'),
'C07': ('`AMParamStmt.build` on generated expression texts with symbolic digits and parameters.',
        'the value of the expression tree the text was generated from.',
        'unary minus after an operator; division by zero.'),
'C08': ('macro + aperture + flash statements evaluated by `GerberParser`, all parameters symbolic reals.',
        'geometry of each macro primitive by the standard (corner sets, radii, exposure), moved to the flash.',
        'moire and lower-left lines draw nothing in this library; rotation of circles; off-centre rotation of centre lines, polygons and thermals (documented as about their own centre).'),
'C09': ('`to_inch`/`to_metric` of every primitive class with symbolic geometry.',
        'every length and coordinate of a snapshot x 25.4 or / 25.4, everything else equal; idempotent, invertible.',
        'plain attributes of donuts, butterflies and test records assigned by hand.'),
'C10': ('`Rs274xContext.render` of every object of a file with one symbolic number, `dump`, `loads`.',
        'same objects, in the same order, up to strokes of no length; apertures shared only by equal shapes.',
        'objects the backend cannot express (ellipses, diamonds).'),
'C11': ('`to_metric`/`to_inch` of whole files with one symbolic number, then writing and reading.',
        'snapshots scaled by the factor; units of file, settings, statements and objects; image of the text written.',
        'macros with parameters in two units at once.'),
'C12': ('`offset` of every primitive class, symbolic geometry, with and without derived values read before.',
        'coordinates of a snapshot shifted, all else equal; opposite move restores.', 'nothing further.'),
'C13': ('`GerberFile.offset` on the files of C04, then writing and reading.', 'objects and coordinate statements shifted; text denotes the moved image.', 'incremental files.'),
'C14': ('constructors, `bounding_box`, `vertices`, `subshapes` of the flashed shapes, symbolic rotation as a point on the unit circle.',
        'corner / lobe positions turned by the rotation lie inside the box; tightness where stated; corner sets equal.',
        'tightness of rotated obrounds and rounded shapes; the library does not turn the lobes of an obround.'),
'C15': ('`bounding_box` of lines, slots, arcs, regions, groups with symbolic points and directions (angles as branch-cut constrained pairs).',
        'box of the path by its own argument (end points plus swept axis extremes) widened by half the pen.',
        'pens other than discs and rectangles.'),
'C16': ('every setter, `offset`, unit conversion in pairs with reads in between.', 'derived values equal to those of a freshly built object with the same attributes.',
        'attributes without setter (donut, butterfly); three changes.'),
'C17': ('`CoordStmt` evaluation of arcs (centre search, sweep, angles).', 'centre and sweep from the definition of the two quadrant modes.', 'ambiguous centres nearer than the tolerance of the parser.'),
'C18': ('`ExcellonParser` on header + every command sequence up to the bound, every coordinate symbolic digits.',
        'a small independent interpreter of drill programs in the harness.', 'see bounds; canned text commands; patterns.'),
'C19': ('`ExcellonFile.write` to the in-memory file and `loads` again.', 'same settings, tool table, hits per tool; fixed point of the text.', 'tool numbers defined twice with different sizes; hits moved outside the format.'),
'C20': ('`to_excellon`/`from_excellon`, conversion and `offset` of every statement class.', 'parameters equal to the last place; lengths scaled; positions shifted.', 'slots with missing coordinates in incremental files.'),
'C21': ('`ExcellonFile` built from symbolic hits: box, path length, report, move, `update_tool`.', 'minimum/maximum over the holes, path by square roots (constrained reals), counts by tool.',
        'converting a drill file does not convert hit positions from inch to millimetre and back consistently; `test_conversion` of the test suite pins this, so file conversion of drill files is not claimed.'),
'C22': ('`ipc356.loads` of texts assembled column by column with symbolic digits.', 'the fields put into the columns, scaled by the declared unit.', 'records without coordinates (the reader needs them).'),
'C23': ('`guess_layer_class`, `sort_layers`, `PCB` views and `PCB.from_directory` (in-memory directory).', 'the documented signature table and stacking order, written down in the harness.', 'names that carry several signatures at once.'),
'C24': ('`bounds`, `bounding_box`, `size` of files with all coordinates symbolic.', 'smallest box: contains every value and touches one on each side.', 'files without objects.'),
'C25': ('`detect_file_format`, `common.loads`, `detect_excellon_format`, drill parser with symbolic text.', 'first marker line decides; declared format and zeros are used.', '"M48" inside a Gerber comment before %FS; the guessing heuristics themselves.'),
'C26': ('`operations.*` on files with a symbolic number.', 'result equals the method on a copy; snapshot of the given file unchanged, no sharing.', 'conversion of drill files (see C21).'),
'C27': ('`FileSettings`, `CamFile`, Excellon settings files with symbolic formats and histories.', 'independent record of the last value given per key.', 'hashing.'),
'C28': ('`GerberCairoContext` with `fakecairo`, which records paths, fills, strokes, masks, clips and matrices as terms; a symbolic point is put through the recorded calls by cairo\'s documented semantics.',
        'point membership of each object (disc, rectangle, capsule, hull, sector, winding number) composed by polarity, inversion, mirror.',
        'antialiasing within 0.001 of outlines; obround rotation; lines with obround or polygon pens; real cairo (recording stand-in; cairocffi exists only for PyPy).'),
'C29': ('`render_layers`, `render_layer`, `CamFile.render` as C28.', 'composition of layer pictures by theme; scale = largest integer that fits.', 'layers in different units; netlists as first layer.'),
'C30': ('tool table readers, `parse_raw(..., tools)`, plating comments with symbolic digits.', 'table rows as stated; precedence header, comment, table, number.', 'other vendors\' tables.'),
'C31': ('`rs274x.loads` of the same commands in two layouts, one number symbolic in both.', 'statement by statement and object by object equality of the two files.', 'comments and aperture macros are only broken at their ends; statement texts where codes are written short.'),
'C32': ('`rs274x.read`/`gerber.read` of in-memory files that include each other, one number symbolic.', 'the file with the texts put in place.', 'includes inside one parameter block with other commands.'),
'C33': ('`ExcellonContext.render` of every primitive of a drill file read from a program with one symbolic coordinate, `to_excellon`, `excellon.loads` again.', 'same hits and tools.', 'settings in other units than the file; plating; incremental target settings (refused).'),
'C34': ('`excellon.loads` of the same program in two layouts, one coordinate symbolic in both.', 'settings, commands, tools and hits equal.', 'CR-only line ends (a string of such lines is one line to this reader); comments between a routing code and its coordinates.'),
'C35': ('`gerber.__main__.main` with in-memory boards and `fakecairo` as in C28.', 'names, order, theme settings and coverage of every layer in every picture.', 'boards without outline: drills in the copper picture; starting colour of inner layers; netlists; option errors.'),
'C36': ('`ipc356.loads`/`read`/`gerber.loads` of the same netlist in two layouts, one number symbolic in both; `IPCNetlist.render` with symbolic access codes into a recording context.', 'records equal attribute by attribute; points of the side asked for.', 'a line end right after a blank inside a list of words (the reader strips it); empty lines before a continuation line.'),
}
TAIL = '''
## Not claimed

* Behaviour pinned by the existing tests although doubtful (conversion of drill files, truncation in `decimal_string`).
* Documented oddities left as they are: centre lines, polygons and thermals turn about their own centre; interpolation returns to linear after an arc in a contour.

## False alarms met and removed

Early versions reported (a) equalities that hold only up to double rounding: the deciding query now requires a gap above 1e-6 and the replay a relative 1e-8;
(b) ties of rounding: written numbers are compared to the last place; (c) drawing under a rotation whose sine and cosine were chosen independently: angles are one point on the circle.
None of them is listed as a finding; `known_findings.json` lists fixed defects only.
'''
