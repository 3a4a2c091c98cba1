prop('C01', 'Coordinate text decodes to its positional decimal value',
     "For every coordinate format (up to 6 integer and 7 decimal digits) and every zero-suppression mode, a string of decimal digits with an optional sign decodes to the number obtained by padding the omitted zeros on the suppressed side and placing the decimal point after the integer digits. A string with an explicit decimal point decodes to the number it spells, whatever the format.",
     ['inputs', 'configurations'], 'all digit strings of 1..i+d digits with each sign form, all formats i<=6,d<=7, all suppression modes',
     'The tests decode a few dozen listed strings; the space is 10^13 strings x 42 formats x 3 modes.',
     [G + 'utils.py'], [('parse_gerber_value', 'gerber/utils.py:parse_gerber_value')], ['value returned to the statement parsers'])
prop('C02', 'Coordinate values survive being written and read back',
     "Encoding any number whose magnitude fits the integer digits of a coordinate format and decoding the result with the same format and suppression mode gives back the number rounded to the format's last decimal place. The encoded text is an optional minus sign followed by one to (integer+decimal) digits, 'none' mode emits every digit of a non-zero value, and zero encodes as '0'.",
     ['inputs', 'configurations'], 'all real values below 10^i, all formats i<=6,d<=7, all suppression modes',
     'The tests encode and decode a listed handful of values; a digit lost for particular leading/trailing zero patterns or signs shows only on others.',
     [G + 'utils.py'], [('write_gerber_value', 'gerber/utils.py:write_gerber_value'), ('parse_gerber_value', 'gerber/utils.py:parse_gerber_value')], ['coordinate text in written files'])
prop('C03', 'Gerber statements survive being written and read back',
     "Writing any Gerber statement (format, units, polarity, image polarity, offset, scale factor, mirror, image rotation, axis selection, names, aperture definition, aperture macro, coordinate operation, aperture selection, quadrant and region mode, comment, end of file) and parsing the text yields a statement of the same kind with the same parameter values. Numbers survive to the last place of the coordinate format, apertures and macro shapes to ten significant digits, offsets and scale factors to five decimal places. A macro with parameters keeps its variables, so that every use of it still yields the same shapes.",
     ['inputs', 'configurations'], 'all parameter values, all coordinate formats and modes',
     'The tests compare a few literal strings per statement kind.',
     [G + 'gerber_statements.py', G + 'rs274x.py', G + 'am_statements.py'], [('to_gerber', 'gerber/gerber_statements.py'), ('GerberParser._parse', 'gerber/rs274x.py')], ['statement list and written text'])
prop('C05', 'A Gerber image is drawn as the standard prescribes',
     "For every sequence of operations the parsed image contains exactly the flashes, lines, arcs and filled contours that the format's drawing rules prescribe for the modal state in force: current aperture, interpolation mode, quadrant mode, polarity, contour mode, modal coordinates and modal operation code. Each object carries the position, aperture dimension, polarity and units in force when it was drawn. (Inside contours every arc and every line following an arc states its function code.)",
     ['histories', 'inputs'], 'all bounded command sequences with arbitrary coordinates',
     'Tests replay a few sample files; modal state only matters in particular command orders.',
     [G + 'rs274x.py'], [('GerberParser.evaluate', 'gerber/rs274x.py'), ('_evaluate_coord', 'gerber/rs274x.py')], ['primitives of the parsed file'],
     [('modal state', 'current point, aperture, interpolation, op, polarity, region', 'GerberParser.__init__')])
prop('C07', 'Macro expressions are computed by the arithmetic the standard defines',
     "An aperture macro expression built from numbers, variables $1..$n, + - x / and parentheses evaluates to its arithmetic value: x and / bind tighter than + and -, equal operators group to the left, a leading sign negates, parentheses group. Variables take the aperture definition's parameters by position, missing ones are zero, and a variable definition ($n=expression) changes the value for the following lines only.",
     ['programs', 'inputs'], 'all expression shapes up to the bounded number of operators, with arbitrary real literals and parameters',
     'The tests evaluate three literal macros; precedence, associativity and sign handling depend on the shape of the expression.',
     [G + 'am_read.py', G + 'am_eval.py'], [('read_macro', 'gerber/am_read.py'), ('eval_macro', 'gerber/am_eval.py')], ['values of the macro primitives built for an aperture definition'])
prop('C09', 'Converting a graphic object between inch and millimetre scales lengths only',
     "Converting any graphic object (with its pen, hole and member objects) to the other unit system multiplies every coordinate and length, and the bounding box, by 25.4 or 1/25.4, keeps angles, counts, directions, polarity and names, and records the new units. Converting to the units it already has changes nothing, converting twice equals converting once, and converting back restores the original.",
     ['inputs', 'histories'], 'all geometries of every object kind, all sequences of up to three conversions',
     'The tests convert one instance per kind with round numbers.',
     [G + 'primitives.py'], [('to_inch/to_metric', 'gerber/primitives.py:Primitive')], ['public attributes and bounding box of the object'],
     [('_memoized', 'cached derived geometry', 'gerber/primitives.py:Primitive')])
prop('C12', 'Moving a graphic object translates it and changes nothing else',
     "Offsetting any graphic object by (dx, dy) adds (dx, dy) to every coordinate of it and of its members, its corners and its bounding box, and leaves sizes, angles, pens, polarity, names and units as they were. Successive offsets add up and the opposite offset restores the object, whether or not derived values were read in between.",
     ['inputs', 'histories'], 'all geometries of every object kind, all offsets, sequences of up to three moves',
     'The tests move one instance per kind by one amount.',
     [G + 'primitives.py'], [('offset', 'gerber/primitives.py:Primitive')], ['public attributes, vertices and bounding box'])
prop('C14', 'The bounding box of a flashed shape encloses it tightly',
     "For every flashed shape (disc, rectangle, obround, polygon, ellipse, diamond, chamfered and rounded rectangle, butterfly, donut, drill) at any position, size and rotation, the bounding box contains the whole outline; for unrotated shapes, discs, rectangles and ellipses it touches the outline on every side, and for the others it is no larger than the box of the enclosing rectangle or circumscribed circle. The listed corners of rectangles, diamonds, chamfered rectangles and polygons are exactly the corners of the rotated shape.",
     ['inputs'], 'all positions, sizes and rotations',
     'The tests use a few sizes with rotations of 0, 45 and 90 degrees.',
     [G + 'primitives.py'], [('bounding_box', 'gerber/primitives.py'), ('vertices', 'gerber/primitives.py')], ['bounding_box, vertices'])
prop('C15', 'Bounding boxes of strokes, arcs, contours and groups are exact',
     "The bounding box of a line, slot or arc is the box of the exact path (for arcs: its end points and every axis extreme the sweep passes over) widened by half the pen in each axis; without the pen it is the box of the path itself. The box of a contour is that of its edges, the box of a group is the union of its members' boxes.",
     ['inputs'], 'all end points, centres, radii, sweeps, directions, quadrant modes and pens; up to 4 members',
     'The tests check one or two arcs per quadrant and a handful of lines.',
     [G + 'primitives.py'], [('Line/Arc/Region/AMGroup.bounding_box', 'gerber/primitives.py')], ['bounding_box, bounding_box_no_aperture, vertices'])
prop('C16', 'Derived geometry always reflects the current attributes',
     "After any sequence of attribute assignments, moves and unit conversions interleaved with reads, every derived value of a graphic object (bounding boxes, corners, lower left corner, axis-aligned sizes, angles, sub-shapes) equals that of a freshly built object with the same attributes. Assignments covered: those of circles, rectangles, obrounds, polygons, lines, arcs, drills, slots, diamonds, ellipses, chamfered and rounded rectangles.",
     ['histories', 'inputs'], 'all read/write interleavings within the bound, arbitrary attribute values',
     'The tests change one attribute and read one derived value, per kind.',
     [G + 'primitives.py'], [('_changed/_memoized', 'gerber/primitives.py:Primitive')], ['derived properties'],
     [('_memoized', 'cached derived geometry', 'gerber/primitives.py:Primitive')])
prop('C17', 'Circular interpolation draws the arc the coordinates denote',
     "An arc operation draws an arc from the current point to the given point; omitted coordinates keep their value and omitted offsets are zero. In multi-quadrant mode the centre is the start point plus the signed offsets; in single-quadrant mode (sweep up to 90 degrees) it is the one centre, among the four signs of the offsets, for which the arc in the given direction has the right radius and sweep. The arc runs clockwise for G02 and counterclockwise for G03, its sweep lies between zero and a full turn and leads from its start angle to its end angle.",
     ['inputs'], 'all start points, end points and offsets, both directions, both quadrant modes, inside and outside contours',
     'The tests draw a handful of arcs.',
     [G + 'rs274x.py', G + 'primitives.py'], [('_evaluate_coord/_find_center', 'gerber/rs274x.py'), ('Arc.sweep_angle', 'gerber/primitives.py')], ['arcs in the parsed image'])
prop('C06', 'Aperture definitions give the shape, size, hole and units they state',
     "A standard aperture (circle, rectangle, obround, regular polygon) defined with any admissible number of modifiers is flashed and stroked with exactly that shape, size, rotation, round or rectangular hole, and the file's units; an aperture named after a macro takes the macro's shapes with the given parameters. A D-code selects the latest definition of exactly that code.",
     ['inputs', 'programs'], 'all modifier values in all spellings, all modifier counts, all polygons of 3 to 12 sides, both unit systems',
     'The tests define a few apertures without looking at the flashed result.',
     [G + 'rs274x.py', G + 'gerber_statements.py'], [('_define_aperture', 'gerber/rs274x.py'), ('ADParamStmt', 'gerber/gerber_statements.py')], ['primitives of the parsed file'])
prop('C08', 'A flashed aperture macro has the shapes its primitives describe',
     "Flashing a macro aperture places, in order, one shape per drawable macro primitive (circle, vector line, centre line, outline, regular polygon, thermal) with the exact geometry the parameters describe, moved to the flash point, in the file's units, dark or clear by its exposure; comments draw nothing. Outlines and vector lines turn about the macro origin, centre lines about their centre; each flash uses the parameters of its own aperture definition.",
     ['inputs', 'programs'], 'all parameter values and rotations of every drawable macro primitive, all flash points, both unit systems',
     'The tests check the parsed parameters of literal macros, not the shapes drawn.',
     [G + 'am_statements.py', G + 'rs274x.py', G + 'primitives.py'], [('to_primitive', 'gerber/am_statements.py'), ('AMGroup', 'gerber/primitives.py')], ['members of the flashed group'])
prop('C04', 'A Gerber file written and read again is the same file',
     "Reading a Gerber file, writing it with its own settings and reading it again yields the same commands in the same order with the same values, the same units and format, and the same image (kinds, positions, sizes, polarity, holes, arc directions, contours, macro shapes). Writing what was read again produces the same text. Written in another coordinate format with at least as many digits, the file denotes the same image and declares that format.",
     ['inputs', 'programs'], 'all values of any one number of the files in the bound, either sign, all coordinate formats in the bound',
     'The tests parse example files and never compare a written file with the one read.',
     [G + 'cam.py', G + 'rs274x.py', G + 'gerber_statements.py', G + 'utils.py'], [('GerberFile.write', 'gerber/rs274x.py'), ('to_gerber', 'gerber/gerber_statements.py')], ['written file', 'statements and primitives read back'])
prop('C11', 'Converting a Gerber file scales image and written file alike',
     "Converting a Gerber file between inch and millimetre, any number of times and in any order, leaves the same image with every length multiplied by 25.4 or divided by it exactly when the units change, and counts, rotations, polarities and scale factors untouched; file, settings, statements and graphic objects all report the new units. Writing the converted file and reading it back gives that image, in the new units, also for apertures defined by parametrised macros.",
     ['inputs', 'histories'], 'all values of any one number of the files in the bound, conversion sequences of length up to 4',
     'The tests convert single statements and primitives, and two files without arcs, macros or polygons.',
     [G + 'rs274x.py', G + 'gerber_statements.py', G + 'primitives.py', G + 'am_statements.py'], [('GerberFile.to_inch/to_metric', 'gerber/rs274x.py'), ('AMParamStmt.to_metric', 'gerber/gerber_statements.py')], ['primitives and statements', 'written file'])
prop('C13', 'Moving a Gerber file translates its image and nothing else',
     "Offsetting a whole Gerber file by (dx, dy), once or repeatedly, moves every graphic object by exactly the total offset and changes no size, angle, polarity, aperture or arc centre offset. Its coordinate statements move alike, so that the written file, read again, denotes the moved image.",
     ['inputs', 'histories'], 'all offsets, all values of any one number of the files in the bound, one or two moves',
     'The tests move single statements and one kind of primitive each.',
     [G + 'rs274x.py', G + 'gerber_statements.py', G + 'primitives.py'], [('GerberFile.offset', 'gerber/rs274x.py'), ('offset', 'gerber/primitives.py')], ['primitives and statements', 'written file'])
prop('C18', 'An Excellon program drills exactly the holes and slots it denotes',
     "Interpreting an Excellon program yields, in order, one hole per drilled coordinate and per repetition, and one slot per G85 command or routed move with the tool down, with the tool selected at that point, the diameter its definition states and the file's units. Omitted coordinates keep their value, incremental coordinates and repeat steps add to the position, routing and retracted moves drill nothing. The unit, zero and format declarations of the header govern how every number is read.",
     ['inputs', 'programs'], 'all coordinates and all command sequences within the bound, 7 headers',
     'The tests read one drill file and a few single lines.',
     [G + 'excellon.py', G + 'excellon_statements.py'], [('ExcellonParser._parse_line', 'gerber/excellon.py'), ('ExcellonFile.primitives', 'gerber/excellon.py')], ['hits, tools, primitives'])
prop('C19', 'An Excellon file written and read again has the same tools and holes',
     "Reading an Excellon file, writing it and reading it again with the same settings yields the same units, format, zero mode and tool table, and for every tool the same holes and slots in the same order, whatever mixture of absolute, incremental, repeated, slotted and routed commands made them. Writing what was read again produces the same text.",
     ['inputs', 'programs'], 'all values of any one coordinate of the programs in the bound',
     'The tests compare the text of one written file with its source.',
     [G + 'excellon.py', G + 'excellon_statements.py', G + 'utils.py'], [('ExcellonFile.write', 'gerber/excellon.py'), ('to_excellon', 'gerber/excellon_statements.py')], ['written file', 'hits read back'])
prop('C20', 'Excellon statements survive writing, unit conversion and moving',
     "Every Excellon statement (tool definition, tool selection, coordinate, slot, repeat, end of program, units, format, version, modes, feed rate, comment, linked tools) written in a coordinate format and read back in it has the same values. Converting a statement between inch and millimetre scales its lengths by 25.4 exactly when the units change; moving it shifts its positions and nothing else.",
     ['inputs'], 'all values that fit the format, all formats in the bound, both zero modes',
     'The tests check literal lines.',
     [G + 'excellon_statements.py', G + 'utils.py'], [('to_excellon/from_excellon', 'gerber/excellon_statements.py')], ['statements read back'])
prop('C21', 'What an Excellon file reports about itself agrees with its holes',
     "The bounding box of an Excellon file is the smallest box around all its holes and slots, its path length per tool is the distance travelled from the origin through that tool's hits in order, and its hit counts count them; the drill report states the mode, units, sizes, hit counts and path lengths of all tools. Moving the file moves every hole, and changing a tool changes exactly the holes drilled with it.",
     ['inputs', 'histories'], 'all positions, diameters, offsets; files of up to 4 hits and 3 tools',
     'The tests only call the report and the bounding box of one file.',
     [G + 'excellon.py'], [('ExcellonFile', 'gerber/excellon.py')], ['bounding_box, path_length, hit_count, report, offset, update_tool'])
prop('C22', 'An IPC-D-356 netlist is read as its columns state',
     "Every test record yields the net, reference designator, pin, hole diameter, plating, access side, position, size, rotation and solder mask stated in its columns, in the declared units, wherever the line ends and however long the designator is. Outlines and conductors have the points their (modal) coordinates denote, also over continuation lines; net name aliases are resolved; every net lists exactly the nets some adjacency record puts next to it.",
     ['inputs', 'programs'], 'all numbers in all paddings and signs, all record lengths, all unit declarations',
     'The tests read a few literal records and compare positions without asserting.',
     [G + 'ipc356.py'], [('IPC356_TestRecord.from_line', 'gerber/ipc356.py'), ('IPCNetlist.nets', 'gerber/ipc356.py')], ['records, primitives, nets'])
prop('C23', 'Layers are classified by name and stacked from board top to bottom',
     "A file whose extension, or whose base name up to separators, is one of the listed signatures (in any case) gets that layer class, an inner layer takes its number from its file name, and unlisted names are 'unknown'. A board holds every outline, paste, silk, mask, copper, drill and drawing layer exactly once, in stack order with inner layers by number and drills and drawings last; copper count, drill list, outline, board bounds and the two side views (copper, drills through that side, mask, silk) follow from it. Reading a directory puts every readable layer file in it, and nothing else, on the board.",
     ['inputs', 'configurations'], 'all layer multisets and orders within the bound, all inner layer numbers, all prefixes and letter cases of file names',
     'The tests sort one list of layers and guess a table of names.',
     [G + 'layers.py', G + 'pcb.py'], [('sort_layers/guess_layer_class', 'gerber/layers.py'), ('PCB', 'gerber/pcb.py')], ['layer_class, order, PCB.layers and its views'])
prop('C24', "A Gerber file's extents are those of its coordinates and of its objects",
     "The bounding box of a Gerber file is the smallest box around the bounding boxes of all objects it draws. Its bounds are the smallest ranges holding every coordinate the file states, its size is their extent, and all of them follow when the file is moved or converted to other units.",
     ['inputs', 'histories'], 'all coordinates and aperture sizes in files of the bounded shapes',
     'The tests look at the extents of one sample file.',
     [G + 'rs274x.py'], [('GerberFile.bounds/bounding_box/size', 'gerber/rs274x.py')], ['bounds, bounding_box, size'])
prop('C25', 'What a file is and how its numbers are read follows from what it declares',
     "The first line that carries a marker (M48, %FS, or a P JOB record) decides whether a text is read as drill file, Gerber file or netlist, and a text without marker is rejected. A drill file that declares its number format or its kept zeros is read with exactly those, and only what it leaves out is taken from the usual ones; the positions are decoded accordingly, and explicit decimal points are taken as they are.",
     ['inputs', 'configurations'], 'all texts within the bound, all declared formats and zero modes, all coordinate digits',
     'The tests detect three sample files.',
     [G + 'utils.py', G + 'common.py', G + 'excellon.py'], [('detect_file_format', 'gerber/utils.py'), ('loads', 'gerber/common.py'), ('detect_excellon_format', 'gerber/excellon.py')], ['type, settings and contents of the file read'])
prop('C26', 'File operations return a changed copy and leave the given file alone',
     "Converting or moving a file with the operations module returns a new file of the same kind that equals what the file's own method would have made of it. The given file - its objects, statements and settings - stays as it was, and later changes to either do not show in the other.",
     ['histories', 'inputs'], 'all files of the bounded shapes, all amounts, up to two operations',
     'No test calls these operations.',
     [G + 'operations.py', G + 'rs274x.py'], [('to_inch/to_metric/offset', 'gerber/operations.py')], ['primitives, statements and settings of both files'])
prop('C27', 'File settings are consistent and carried over to the files built with them',
     "At any time the zeros kept and the zeros suppressed are opposites, whichever of them was given or changed last; every other setting has the value last given, invalid values and unknown keys are rejected and leave the settings unchanged. Settings are equal exactly when all they say is equal, a file reports the settings it was built with, and a drill program's settings file is read as written.",
     ['configurations', 'histories'], 'all combinations of settings, all histories of bounded length, all formats',
     'The tests set each value once.',
     [G + 'cam.py', G + 'excellon_settings.py'], [('FileSettings', 'gerber/cam.py'), ('CamFile', 'gerber/cam.py'), ('loads', 'gerber/excellon_settings.py')], ['attributes and keys of the settings'])
prop('C30', 'Holes get the tools that headers, comments, tool tables and reports describe',
     "Every row of a tool table (Allegro listings in mils or millimetres, PADS reports) yields a tool with exactly the stated number, size in the requested units and plating, a later row replacing an earlier one of the same number. A hole in a drill file gets the tool of the header, else the one described in a comment, else the one of the external table, else the size its number stands for; plating left open by the header comes from the external table and TYPE comments hold for the tools below them.",
     ['inputs', 'configurations'], 'all sizes, numbers and plating values in tables of the bounded length',
     'The tests read a few literal rows.',
     [G + 'excellon_tool.py', G + 'excellon.py'], [('ExcellonToolDefinitionParser', 'gerber/excellon_tool.py'), ('_get_tool', 'gerber/excellon.py')], ['tools returned, tool of each hole'])
prop('C10', 'An image rendered back to Gerber statements is the same image',
     "Rendering the objects of a Gerber file through the Gerber backend (Rs274xContext) gives a text that, read back, has the same units, format and objects in the same order: kinds, positions, sizes, holes, polarity, pens, arcs, contours and macro shapes, where only lines of no length that repeat the end of a stroke or contour may be missing. Apertures are shared only by objects that look the same, also between aperture macros that differ in a single value. The same holds for regions without a polarity of their own, whose edges take the polarity of the region, and for macros put together from shapes.",
     ['inputs', 'programs'], 'all values of any one number of the files in the bound; pairs of macros that differ in one value; all formats in the bound',
     'The tests compare the statements rendered for a few example files with golden files.',
     [G + 'render/rs274x_backend.py', G + 'gerber_statements.py', G + 'primitives.py', G + 'am_statements.py'], [('Rs274xContext', 'gerber/render/rs274x_backend.py'), ('equivalent', 'gerber/primitives.py')], ['text written by the backend', 'objects read back'])
prop('C28', 'The picture of a layer shows exactly its objects, where they are',
     "In the picture the cairo backend draws of a layer, a point is covered by the layer's colour exactly when the objects of the layer leave it dark: circles, rectangles (also rotated), obrounds, polygons and their holes, lines of round and rectangular pens, arcs of either direction and full circles, regions, drills, slots and macros with exposure on or off. Dark objects add and clear objects remove, in the order of the layer. Inverted layers show the complement, mirrored layers the mirror image about the middle of the picture, and the size, background, colour and alpha are those asked for.",
     ['inputs'], 'any one number of each kind of object, at every point of the picture, dark and clear, normal, inverted and mirrored',
     'The tests compare the pixels of a few objects with golden pictures, and only where the cairo binding is installed.',
     [G + 'render/cairo_backend.py', G + 'render/render.py', G + 'primitives.py'], [('GerberCairoContext', 'gerber/render/cairo_backend.py'), ('GerberContext', 'gerber/render/render.py')], ['coverage of the picture at any point'])
prop('C29', 'A picture of several layers shows each layer over the ones before it',
     "render_layers draws the background once over the whole picture and then every layer once, in the order given, in the colour, transparency, inversion and mirroring its theme has for its class, with all layers placed about one common origin: a point is covered by a layer exactly when its objects cover it. The picture takes in the bounds of all layers, Gerber and drill files alike, at the largest whole number of pixels per unit that fits the size asked for (a fraction where not even one fits), whatever was drawn with the context before. CamFile.render draws one file the same way within its bounding box, and test points of netlists are marked at their positions.",
     ['inputs', 'configurations'], 'all positions and sizes of one object of one layer, all layer stacks and themes in the bound, at every point of the picture; all board sizes for the scale',
     'The tests do not draw pictures of more than one layer.',
     [G + 'render/cairo_backend.py', G + 'render/theme.py', G + 'layers.py', G + 'cam.py', G + 'excellon.py'], [('GerberCairoContext', 'gerber/render/cairo_backend.py'), ('Theme', 'gerber/render/theme.py'), ('CamFile', 'gerber/cam.py')], ['coverage and colours of the picture at any point', 'size of the picture'])
prop('C31', 'The layout of a Gerber text has no influence on what it says',
     "Line ends (LF, CR, CRLF, none), empty lines and blanks between commands, line ends inside commands, several commands on a line, several parameter commands in one block, empty commands and function codes without their leading zero do not change what a Gerber text denotes: the file read has the same settings, the same statements and the same objects in the same order.",
     ['inputs', 'programs'], 'all values of any one number of the files in the bound, in every layout of the bound',
     'The tests read files in the one layout they are stored in.',
     [G + 'rs274x.py'], [('GerberParser._split_commands/_parse', 'gerber/rs274x.py')], ['settings, statements and primitives of the file read'])
prop('C32', 'An included Gerber file acts as if its text stood where it is named',
     "A Gerber file that includes others (IF), in any place, several times or in each other up to ten levels deep, has the same settings, statements and objects as the file with the texts put in place of the include commands; names are absolute or relative to the directory of the file that is read. Deeper nesting and loops are refused with an error.",
     ['inputs', 'programs'], 'all values of any one number of the files in the bound, every way to move a part of the file to included files within the bound',
     'The tests include no file.',
     [G + 'rs274x.py'], [('GerberParser._parse', 'gerber/rs274x.py')], ['settings, statements and primitives of the file read', 'error'])
prop('C33', 'A drill file rendered to Excellon statements has the same tools and holes',
     "Rendering the objects of a drill file through the Excellon backend (ExcellonContext) in absolute settings of the same units gives statements whose text, read back, has the units, format and zeros of the settings and the same holes and slots (drilled and routed) in the same order, each at its position and with its tool, and defines exactly the tools used with their parameters. Lines, arcs, circles, rectangles, obrounds and polygons are refused.",
     ['inputs', 'programs'], 'all values of any one coordinate of the programs in the bound, target formats and zero modes in the bound',
     'No test uses the Excellon backend.',
     [G + 'render/excellon_backend.py', G + 'excellon.py', G + 'excellon_statements.py'], [('ExcellonContext', 'gerber/render/excellon_backend.py'), ('ExcellonFile.primitives', 'gerber/excellon.py')], ['text of the statements', 'tools and hits read back'])
prop('C34', 'The layout of a drill program has no influence on what it says',
     "LF and CRLF line ends, empty lines, blanks around lines, comments between commands, one to three digits in tool numbers, routing codes (G00, G01) on a line before their coordinates, either end of a header that starts with M48, and coordinates with explicit decimal points do not change what a drill program denotes: the file read has the same settings, commands, tools, holes and slots.",
     ['inputs', 'programs'], 'all values of any one coordinate of the programs in the bound, in every layout of the bound',
     'The tests read files in the one layout they are stored in.',
     [G + 'excellon.py', G + 'excellon_statements.py'], [('ExcellonParser._parse_line', 'gerber/excellon.py')], ['settings, statements, tools and hits of the file read'])
prop('C35', 'The command line draws the sides of a board, or the files named',
     "gerber-render with a directory writes up to three pictures: OUT.top.png and OUT.bottom.png show, over each other, the outline and the copper, drills, mask and silk of that side in the theme asked for; OUT.copper.png shows the outline, all copper layers from bottom to top and (on boards with an outline) the drills in the transparent multilayer theme; sides without any layer are left out. With file names it writes OUT.png with these files over each other in the order named. Every picture takes in its layers and is no larger than the width and height asked for.",
     ['inputs', 'configurations'], 'all places of one pad of the boards and lists in the bound, at every point of the pictures; themes and sizes in the bound',
     'The tests do not run the command line.',
     [G + '__main__.py', G + 'pcb.py', G + 'render/cairo_backend.py', G + 'render/theme.py'], [('main', 'gerber/__main__.py'), ('PCB', 'gerber/pcb.py')], ['pictures written: names, sizes, coverage and colours at any point'])
prop('C36', 'The layout of a netlist changes nothing; its points are drawn by side',
     "Line ends (LF, CR, CRLF, none at the end), empty lines, blanks at the ends of records, comments between records, breaking the outlines, conductors and adjacency records into continuation lines, and reading from a file instead of a text do not change what an IPC-D-356 netlist says: units, parameters, records in their order and test points are the same. Rendering it hands the context the test points that are accessible from the side asked for (top, bottom or both; points accessible from both sides belong to either, inner layers to none), in the order of the file and nothing else.",
     ['inputs', 'programs'], 'all values of any one number of the netlist, in every layout of the bound; all combinations of accesses of the points in the bound',
     'The tests read one netlist in the one layout it is stored in and do not render it.',
     [G + 'ipc356.py', G + 'common.py'], [('IPCNetlistParser/IPCNetlist.render', 'gerber/ipc356.py')], ['units, records and test points of the netlist read', 'objects handed to the context'])
