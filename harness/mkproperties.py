"""Writes properties.jsonl (the list below is the source)."""
import json
import os

P = []


def add(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["gdspy/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


add("C01", "A library written to GDSII and read back is the same library",
    "Writing a library to a GDSII file (or stream) and reading it back gives the same cells, with the same polygons, paths, labels, references, arrays and properties: same layers, datatypes, texttypes, texts, anchors, rotations, magnifications, reflections, and coordinates equal up to half a database unit. Polygons of any number of vertices, native and polygonal paths of every end style, and every legal unit/precision pair are included. The layout that a reader sees does not depend on whether a path was saved as a native path or as polygons.",
    ["inputs", "configurations"],
    "every library of cells that the API can build (all element types, attribute combinations, properties, hierarchies), every unit/precision pair, file name or open stream as destination, with or without a restriction to a list of cells",
    "The tests round-trip two fixed trees on one unit pair; rounding, optional fields, path end types, properties and hierarchy interact in ways a fixed sample does not cover.",
    ["library.py", "polygon.py", "path.py", "label.py", "gdsiiformat.py"],
    [("to_gds of every element", "gdspy/polygon.py PolygonSet.to_gds, gdspy/path.py FlexPath.to_gds, RobustPath.to_gds, gdspy/label.py Label.to_gds, gdspy/library.py CellReference.to_gds, CellArray.to_gds, Cell.to_gds"),
     ("library header and cells", "gdspy/library.py GdsLibrary.write_gds"), ("reader", "gdspy/library.py GdsLibrary.read_gds")],
    ["GdsLibrary.write_gds", "GdsLibrary.read_gds", "gdspy.library properties of the cells read"])

add("C02", "Every GDSII stream produced is well formed and means what was asked",
    "Every byte stream written is a legal GDSII stream: records in the order of the grammar, with the right data types, even lengths and declared lengths that match, closed polygons, and no record longer than the format allows. Decoded by an independent reader it describes the objects given: coordinates within half a database unit of the requested ones, layers, types, texts, properties, transformation flags, array corner points, and the requested timestamp and units.",
    ["inputs", "configurations"],
    "every library, including polygons and paths with more vertices than one record holds (both sides of the limit), odd and even name lengths, any timestamp, any unit/precision pair",
    "The tests only read their own output with the package's own reader, which forgives mistakes made on both sides.",
    ["library.py", "polygon.py", "path.py", "label.py", "gdsiiformat.py"],
    [("record packing", "gdspy/polygon.py PolygonSet.to_gds, gdspy/library.py Cell.to_gds, GdsLibrary.write_gds"), ("vertex splitting over several records", "gdspy/polygon.py PolygonSet.to_gds, gdspy/path.py FlexPath.to_gds")],
    ["bytes written to the output stream"])

add("C03", "8-byte real numbers survive encoding and decoding",
    "Every finite number in the range of the GDSII 8-byte real format is encoded to a normalised value that differs from it by less than the resolution of the format (relative error below 2^-52), sign and zero included. Every legal 8-byte pattern is decoded to the number it stands for, and decoding what was encoded gives the original back within that resolution.",
    ["inputs"],
    "all finite doubles with magnitude between 16^-65 and 16^63 (powers of 2 and 16 and their neighbours, decimal values, random mantissas), and all 8-byte patterns, through units, magnifications and rotations as well",
    "The tests convert a handful of constants; the failing inputs of such codecs are exponent boundaries and mantissas that round up to the next power.",
    ["gdsiiformat.py"],
    [("encoder and decoder", "gdspy/gdsiiformat.py _eight_byte_real, _eight_byte_real_to_float")],
    ["UNITS, MAG and ANGLE records written", "values read back"])

add("C04", "Any legal GDSII file is imported faithfully, and import options do what they say",
    "Reading any legal GDSII stream, whatever program wrote it, builds exactly the cells it describes: boundaries and boxes as polygons, paths with their widths, ends and extensions, texts with anchors and transformations, references and arrays with their transformations, spacings and properties. The unit option scales or keeps every length consistently (coordinates, widths, extensions, spacings); the renaming and layer, datatype and texttype maps apply everywhere the name or number occurs and nowhere else. References are linked to the cells of the same file irrespective of their order.",
    ["inputs", "configurations"],
    "all grammar-derived streams (optional records present or absent, forward and backward references, empty cells, several boundary vertices counts, unknown elements in between) times all combinations of import options",
    "The tests import two small files written by the package itself, so records it never emits and most option combinations are never exercised.",
    ["library.py", "gdsiiformat.py"],
    [("reader", "gdspy/library.py GdsLibrary.read_gds"), ("element builders", "gdspy/library.py GdsLibrary._create_polygon, _create_path, _create_label, _create_reference, _create_array"), ("record reader", "gdspy/gdsiiformat.py _record_reader")],
    ["cells of the library after read_gds"])

add("C05", "Incremental writing and binary splicing are equivalent to writing the library",
    "Writing cells one by one with the streaming writer gives the same bytes as writing the library at once (for the same cells and timestamp). Cells extracted in binary form from a file, or converted to binary, and inserted in another file are byte for byte the cells of the source, and the resulting file reads as a library with all of them. Reading the units of a file gives the units it was written with.",
    ["inputs", "histories"],
    "all libraries and partitions of their cells in objects and binary chunks, any order of insertion, file names or open streams",
    "The tests check one file with three cells.",
    ["library.py", "gdsiiformat.py"],
    [("streaming writer", "gdspy/library.py GdsWriter"), ("binary extraction", "gdspy/library.py get_binary_cells, get_gds_units"), ("raw cells in write_gds", "gdspy/library.py GdsLibrary.write_gds")],
    ["bytes written"])

add("C06", "GDSII hashes and timestamps depend only on what they should",
    "The hash of a GDSII file is the same for files that differ only in their timestamps or in the order of their cells, and differs when any other content of a cell differs. Replacing the timestamps of a file changes the timestamps and no other byte.",
    ["inputs"],
    "all libraries, timestamps, permutations of the cells, single changes of content, several hash engines",
    "The tests compare two pairs of hard-coded files.",
    ["gdsiiformat.py"],
    [("hash", "gdspy/gdsiiformat.py gdsii_hash"), ("timestamps", "gdspy/gdsiiformat.py set_gdsii_timestamp"), ("record reader", "gdspy/gdsiiformat.py _raw_record_reader")],
    ["digest returned", "bytes of the file"])

add("C07", "Boolean operations compute the set operation on the regions",
    "The polygons returned by a boolean operation (or, and, xor, not) cover exactly the region that the set operation gives for the regions covered by the operands, up to the precision asked for; they are disjoint, weakly simple, have at most the vertices allowed and carry the layer and datatype asked for. The answer is 'nothing' exactly when the region is empty. Operands may be any mixture of polygons, polygon sets, paths, references and arrays, overlapping, touching, self-overlapping, nested, or empty.",
    ["inputs", "configurations"],
    "all operand polygons (weakly simple, any number, any orientation, touching or duplicated), the four operations, precisions and coordinate ranges, kinds of operand",
    "The tests check 5 squares; clipping fails on degenerate contacts, nested holes and near-coincident edges.",
    ["operation.py", "clipper.cpp", "clipper.hpp", "polygon.py"],
    [("scan-line clipper", "gdspy/clipper.cpp Clipper::Execute"), ("holes linked to their contour", "gdspy/clipper.cpp link_holes, tree2paths"), ("operands", "gdspy/operation.py boolean, _gather_polys")],
    ["PolygonSet returned by boolean"])

add("C08", "Offsetting moves the boundary by the distance asked for",
    "Offsetting by a positive distance returns the points within that distance of the operand, and by a negative distance the points of the operand farther than it from the boundary, up to the precision and to the shape allowed for the join at convex vertices (miter limit, bevel, number of points of round joins). Result polygons are disjoint and carry the layer, datatype and vertex limit asked for; a shape thinner than twice a negative distance vanishes. If asked to, polygons are joined before the operation, so that shared edges do not move.",
    ["inputs", "configurations"],
    "all operand polygons (one or several, overlapping, adjacent), distances of both signs, joins, tolerances, precisions, with and without joining first",
    "The tests offset one square and one rectangle pair.",
    ["operation.py", "clipper.cpp"],
    [("offsetter", "gdspy/clipper.cpp ClipperOffset"), ("interface", "gdspy/operation.py offset")],
    ["PolygonSet returned by offset"])

add("C09", "Slicing partitions the polygons between the cut lines",
    "Slicing returns one entry per strip delimited by the cut positions (sorted), each holding exactly the part of the operands inside that strip, so that the strips add up to the operands with neither loss nor overlap beyond the precision. Entries with nothing inside are empty, and layers and datatypes are assigned to the strips in order, cyclically.",
    ["inputs", "configurations"],
    "all operand polygons, positions in any order (outside, on vertices, on edges, coincident), both axes, lists of layers and datatypes",
    "The tests cut one polygon twice.",
    ["operation.py", "clipper.cpp"],
    [("chop", "gdspy/clipper.cpp _chop, gdspy/operation.py slice")],
    ["list returned by slice"])

add("C10", "Point-in-polygon queries agree with the geometry",
    "Testing points against polygons reports for each point whether it lies in the region covered by the polygons (boundary excluded from judgement), and for each group of points whether any or all of them do, for every kind of polygonal operand. The answer does not depend on the order or orientation of the polygons.",
    ["inputs", "configurations"],
    "all points and polygons (with holes cut open, overlapping, any scale), single list or groups, both combination modes, several precisions",
    "The tests query a handful of points on a square.",
    ["operation.py", "clipper.cpp"],
    [("inside", "gdspy/clipper.cpp inside, gdspy/operation.py inside")],
    ["tuple returned by inside"])

add("C11", "Fracturing bounds the vertices and keeps the layout",
    "Fracturing a set of polygons, directly or through any constructor or operation with a vertex limit, leaves polygons that have no more vertices than the limit (when it is above 4), ends for every polygon, and keeps the region covered on each layer and datatype, with no overlap between the pieces. With a limit of 4 or less nothing changes.",
    ["inputs", "configurations"],
    "all polygons (any number of vertices, vertices sharing coordinates), limits and precisions, every interface that takes the limit",
    "The tests fracture two polygons whose cuts are well behaved.",
    ["polygon.py", "path.py", "operation.py", "clipper.cpp"],
    [("fracture", "gdspy/polygon.py PolygonSet.fracture, _fracture_once"), ("chop", "gdspy/clipper.cpp _chop")],
    ["polygons after fracture"])

add("C12", "Hierarchy queries equal the explicit expansion of the hierarchy",
    "The polygons, paths and polygon sets reported for a cell, reference or array (all of them, restricted in depth, or by layer and datatype) are those obtained by expanding every reference and array instance with the GDSII transformation (reflect, magnify, rotate, translate; array steps are not magnified). Flattening a cell leaves the same layout with no references, the total and per-layer areas are the sums over the expansion, and the reported layers, datatypes and texttypes are exactly those present.",
    ["inputs", "configurations"],
    "all acyclic hierarchies with any transformations, depths, layer filters, element types",
    "The tests use one- or two-level trees with a couple of transformations.",
    ["library.py"],
    [("expansion", "gdspy/library.py Cell.get_polygons, Cell.get_polygonsets, Cell.get_paths, CellReference.get_polygons, CellArray.get_polygons"), ("flatten", "gdspy/library.py Cell.flatten"), ("area and sets of layers", "gdspy/library.py Cell.area, get_layers, get_datatypes, get_texttypes")],
    ["values returned by the queries"])

add("C13", "Bounding boxes are always those of the current content",
    "The bounding box reported for a polygon set, cell, reference or array is the smallest rectangle around its current expanded geometry, and 'none' when there is no geometry. This holds after any sequence of additions, removals, transformations, edits anywhere in the hierarchy and earlier queries.",
    ["histories", "inputs"],
    "all sequences of content changes and queries over hierarchies of cells",
    "Boxes are cached in the cells; the tests exercise one invalidation each.",
    ["library.py", "polygon.py"],
    [("cache and its validity", "gdspy/library.py Cell.get_bounding_box, _bb_valid, CellReference.get_bounding_box, CellArray.get_bounding_box"), ("element boxes", "gdspy/polygon.py PolygonSet.get_bounding_box")],
    ["boxes returned"])

add("C14", "The library registry stays consistent under any sequence of operations",
    "After any sequence of adding, replacing, removing and renaming cells, replacing references and extracting cells, a library holds exactly the cells a simple name-to-cell model holds, every reference anywhere in it points to the cell the model says, and the top-level cells are those that no other cell refers to. An addition that would silently replace a different cell of the same name is refused and changes nothing.",
    ["histories"],
    "all sequences of registry operations with all their options, over random hierarchies",
    "The tests call each operation once or twice on fresh libraries.",
    ["library.py"],
    [("registry", "gdspy/library.py GdsLibrary.add, remove, rename_cell, replace_references, extract, top_level, new_cell")],
    ["cells and references of the library after every step", "errors raised"])

add("C15", "Copies are independent and removals take exactly what was asked",
    "A deep copy of a cell shares no element with the original: changing one never shows in the other, and a copy with a transformation is the original layout (polygons, paths, labels, references and arrays) under that transformation. Removing polygons, paths or labels by a condition, or by adding and removing elements, removes exactly the matching ones and leaves all others as they were; remaining elements stay usable by every other operation.",
    ["histories", "inputs"],
    "all cells with elements of every kind, all transformations (translation, rotation, scale, reflection), all conditions, followed by further operations",
    "The tests copy one cell with simple content and remove by one condition.",
    ["library.py"],
    [("copy", "gdspy/library.py Cell.copy"), ("removal", "gdspy/library.py Cell.remove_polygons, remove_paths, remove_labels")],
    ["content of both cells"])

add("C16", "Transformations of polygon sets are the affine maps they name",
    "Translating, rotating, scaling and mirroring a polygon set (polygon, rectangle, round, text, path) maps every vertex by that affine map about the given centre and nothing else: number and order of polygons, layers, datatypes and properties stay, areas scale by the determinant, and any composition gives the composed map. Areas by layer are those of the polygons.",
    ["inputs", "histories"],
    "all polygon sets and sequences of transformations with any parameters and centres",
    "The tests apply each transformation once to a square.",
    ["polygon.py", "path.py"],
    [("transformations", "gdspy/polygon.py PolygonSet.translate, rotate, scale, mirror, Path.translate, rotate, scale, mirror, transform")],
    ["vertices after the transformation"])

add("C17", "Transforming a path and converting it to polygons commute",
    "For flexible and robust paths, the polygons of the transformed path are the transformed polygons of the path, for translation, rotation, scaling (also by negative factors) and the reference transformation with its reflection, up to the path's tolerance. Paths seen through references, arrays and flattening obey the same rule, widths scaling only if they are set to.",
    ["inputs", "histories"],
    "all paths (any number of parallel paths, offsets, joins, ends, corners, tapers) and sequences of transformations",
    "The tests compare a few transformations of simple paths.",
    ["path.py", "library.py"],
    [("transformations", "gdspy/path.py FlexPath.translate, rotate, scale, transform, RobustPath.translate, rotate, scale, transform")],
    ["polygons of the path"])

add("C18", "A flexible path covers the stroke its spine, widths and styles describe",
    "The polygons of a flexible path cover, for each parallel path, the points within half the local width of its offset spine, apart from the area the chosen joins and ends add or cut, and nothing farther away than these styles allow; the ends extend as the end style says. Segments, arcs, turns, curves and smooth interpolation added to a path pass through the points and directions asked for. A path kept as GDSII path has one width throughout.",
    ["inputs", "configurations"],
    "all spines with segments longer than the widths, any number of parallel paths, widths, offsets, tapers, joins, ends and corner styles",
    "The tests compare hard-coded polygons of a few paths.",
    ["path.py"],
    [("construction", "gdspy/path.py FlexPath.segment, arc, turn, parametric, bezier, smooth"), ("polygonisation", "gdspy/path.py FlexPath.get_polygons")],
    ["polygons returned"])

add("C19", "A robust path is the curve, width and offset it was given, within tolerance",
    "The centre line, width and offset of every parallel path evaluated anywhere along a robust path are the ones its sections define, continuous across sections, and the polygons, and the points saved to a file, stay within the tolerance of the exact outline. The ends extend as the end style says, and every section starts where the last one ended. A path kept as GDSII path has one width throughout.",
    ["inputs", "configurations"],
    "all sequences of sections (segments, arcs, turns, curves, smooth interpolation, parametric) with constant, linear, smooth and arbitrary width and offset laws, tolerances and end styles",
    "The tests compare hard-coded sections and polygons.",
    ["path.py"],
    [("sections", "gdspy/path.py RobustPath.segment, arc, turn, parametric, bezier, smooth"), ("evaluation", "gdspy/path.py RobustPath.x, grad, width, __call__"), ("polygonisation", "gdspy/path.py RobustPath.get_polygons, to_gds")],
    ["points, widths and polygons returned"])

add("C20", "Curves pass within tolerance of the exact curve they describe",
    "Every point of a curve built from lines, horizontal and vertical lines, arcs, quadratic and cubic Bezier sections, smooth continuations, arbitrary-degree Bezier and smooth interpolation, absolute or relative, lies on the exact curve, consecutive points are so close that the chord deviates from it by no more than the tolerance (relative to the construction's own guarantee), and the ends are the requested ones. Smooth interpolation passes through all the points given, with the requested directions.",
    ["inputs", "histories"],
    "all sequences of construction commands with real or complex coordinates and tolerances",
    "The tests check point counts and end points on a few commands.",
    ["curve.py", "hobby.py"],
    [("construction", "gdspy/curve.py Curve.L, H, V, C, S, Q, T, B, I, arc"), ("smooth interpolation", "gdspy/hobby.py _hobby")],
    ["points of the curve"])

add("C21", "Primitive shapes have the geometry they name",
    "A rectangle has the corners given; a circle, ellipse, ring or circular section deviates from the exact shape by no more than the tolerance, or has the number of points asked for, and its holes and angular limits are right; text is drawn with the size, direction, position and line structure asked for, and moves rigidly with its position and angle.",
    ["inputs", "configurations"],
    "all radii (equal or elliptic, with or without inner ones), angles, tolerances, numbers of points, vertex limits; all printable texts, sizes and positions",
    "The tests check a few areas.",
    ["polygon.py"],
    [("primitives", "gdspy/polygon.py Rectangle, Round, Text")],
    ["polygons of the primitive"])

add("C22", "Polygonal paths have the widths, spacing and course asked for",
    "Segments, arcs, turns and parametric sections added to a polygonal path, and its Manhattan and polyline variants, cover the band of the local width around each parallel centre line, whose spacing and widths taper from the current to the final values; the recorded end position, direction and width are those of the last section and the next section starts there. The length and area of the sections are consistent with that.",
    ["inputs", "histories"],
    "all sequences of sections with any directions, widths, numbers of paths and distances",
    "The tests compare a few hard-coded shapes.",
    ["polygon.py", "path.py"],
    [("sections", "gdspy/polygon.py Path.segment, arc, turn, parametric, L1Path, PolyPath")],
    ["polygons, position, direction and width of the path"])

add("C23", "Filleting rounds corners with the radius asked for and nothing else",
    "Filleting replaces each vertex by an arc tangent to both of its edges with the radius given for it, limited by the length of the edges, approximated by the number of points asked for; all other points of the boundary stay, and the sets of layers and datatypes are kept.",
    ["inputs", "configurations"],
    "all simple polygons (convex and reflex vertices, collinear ones), radii given as a number, per polygon or per vertex, zero and too large radii, with and without vertex limit",
    "The tests fillet one polygon and compare areas.",
    ["polygon.py"],
    [("fillet", "gdspy/polygon.py PolygonSet.fillet")],
    ["polygons after the operation"])

add("C24", "Native geometry code is memory safe and never corrupts the interpreter",
    "For every argument, legal or not (degenerate, empty, huge, non-numeric or misbehaving sequences), the compiled geometry operations either return a result or raise a Python exception: no invalid memory access, no undefined behaviour, no reference-count error and no unbounded leak of memory or references.",
    ["inputs", "fault_sequences"],
    "all arguments of the native operations: valid and invalid types, sequences that fail at any position, extreme and non-finite coordinates, empty and degenerate polygons",
    "The tests call it on valid small polygons only, without instrumentation.",
    ["clipper.cpp", "clipper.hpp", "operation.py"],
    [("argument parsing", "gdspy/clipper.cpp parse_polygon, parse_polygon_set, build_polygon_tuple"), ("operations", "gdspy/clipper.cpp clip, offset, inside, _chop")],
    ["sanitizer reports", "reference counts"])

add("C25", "The SVG output draws the library that was given",
    "The SVG file written for a cell is well-formed XML and describes the polygons, paths, references, arrays and labels of the cell and everything it refers to, at the right places and sizes in the scaled, flipped coordinate system; every layer and datatype used has exactly one style, custom or default, and the image size contains the layout with the requested margin.",
    ["inputs", "configurations"],
    "all cells and hierarchies, texts with special characters, style dictionaries, scalings, paddings, backgrounds, numbers of digits",
    "The tests write one file and look at nothing but its existence or fixed text.",
    ["library.py", "polygon.py", "path.py", "label.py"],
    [("writer", "gdspy/library.py Cell.write_svg, Cell.to_svg, CellReference.to_svg, CellArray.to_svg"), ("elements", "gdspy/polygon.py PolygonSet.to_svg, gdspy/path.py FlexPath.to_svg, RobustPath.to_svg, gdspy/label.py Label.to_svg")],
    ["text of the SVG file"])

add("C26", "Labels are found and placed correctly through the hierarchy",
    "The labels reported for a cell, reference or array are those of the expanded hierarchy, to the depth asked for, at the transformed positions, without touching the originals; with transformations set, their rotation, magnification and reflection are those of the composed transformation. Labels keep text, anchor, layer, texttype and properties through copying, transformation and flattening.",
    ["inputs", "histories"],
    "all hierarchies with labels and any transformation, depths, array sizes",
    "The tests use a single level and a few angles.",
    ["library.py", "label.py"],
    [("queries", "gdspy/library.py Cell.get_labels, CellReference.get_labels, CellArray.get_labels"), ("label", "gdspy/label.py Label.translate")],
    ["labels returned"])

add("C27", "Queries and operations never change their operands",
    "Geometric operations, queries, conversions, writing and copying leave their operands as they were, and what they return can be changed without the operands, caches or later answers noticing. Asking the same question twice gives the same answer, also after other questions.",
    ["histories", "inputs"],
    "all read-only calls on objects of every type, in any order, followed by arbitrary changes of the objects they returned",
    "The tests call each function once and discard the operands.",
    ["operation.py", "library.py", "path.py", "polygon.py", "label.py"],
    [("operand gathering", "gdspy/operation.py _gather_polys"), ("cached polygons of paths", "gdspy/path.py FlexPath.get_polygons"), ("hierarchy queries", "gdspy/library.py Cell.get_polygons, Cell.get_labels")],
    ["deep fingerprint of operands before and after"])

add("C28", "The viewer draws the layout of the cell shown",
    "The layout viewer draws, for the cell shown and the depth selected, every polygon, label and reference box of the expanded hierarchy at its position in the view, on the canvas items of its layer; measuring, panning, zooming and hiding layers keep that correspondence.",
    ["histories", "configurations"],
    "all cells and sequences of view commands",
    "The tests do not open the viewer at all.",
    ["viewer.py"],
    [("drawing", "gdspy/viewer.py LayoutViewer._update_canvas, _update_view, _scale, _hide_layers")],
    ["canvas operations"])

add("C29", "Faults of files are reported and leave nothing half done in memory",
    "When the destination of a GDSII or SVG output or the source of an import fails part way, the caller gets the exception, what was written before it is the start of the complete output, the library and its cells are as they were, and trying again gives exactly what would have been obtained without the fault. A file that ends too early yields its complete cells as they are in the whole file, or is refused, and never a changed or an invented one. Files given by name are closed when the call returns; handles given by the caller are used from where they stand, need nothing but read() or write(), and stay open.",
    ["crash_points", "fault_sequences", "histories"],
    "all byte positions of faults and cuts, every way of writing and reading, names, paths and handles",
    "The tests write and read complete files only, and no test injects a fault.",
    ["library.py", "gdsiiformat.py"],
    [("writing", "gdspy/library.py GdsLibrary.write_gds, GdsWriter, Cell.to_gds, Cell.write_svg"), ("reading", "gdspy/library.py GdsLibrary.read_gds, get_binary_cells, get_gds_units; gdspy/gdsiiformat.py _record_reader, _raw_record_reader")],
    ["exceptions, bytes at the destination, library content, state of the file objects"])

add("C30", "Results depend on the operands only, not on what else the process does",
    "The result of every operation is determined by its arguments and the objects they reach: it is the same in a new process, after any other operations, after objects made earlier were changed or deleted, and while other threads work on objects of their own. Objects created separately share nothing, whatever arguments were left out. The package leaves the state of the interpreter (random generators, error modes, warning filters, locale, directory, environment) as it found it.",
    ["schedules", "histories"],
    "all programs over the interface, histories before them, interleavings of threads with separate objects, hash seeds",
    "Each test runs once, in one thread, in one order, on objects of its own, so a result that depends on leftovers of other calls is never seen twice.",
    ["__init__.py", "library.py", "polygon.py", "path.py", "curve.py", "operation.py", "label.py", "hobby.py", "gdsiiformat.py"],
    [("constructors and their defaults", "gdspy/polygon.py PolygonSet, gdspy/path.py FlexPath, RobustPath, gdspy/label.py Label, gdspy/library.py CellReference, CellArray, GdsLibrary"), ("operations", "gdspy/operation.py boolean, offset, slice, inside"), ("import state", "gdspy/library.py GdsLibrary.read_gds")],
    ["results of the calls, interpreter state"])

add("C31", "An argument left out means its documented default",
    "Leaving out an optional argument is the same as giving its documented default, for every function, constructor and method of the interface and every combination of the other arguments; giving arguments by position in the documented order or by name makes no difference. Where None is the default, it means what the documentation says: the width, distance or direction the path has, no rotation, no magnification, the same factor on both axes, all depths, all cells, all vertices.",
    ["inputs", "configurations"],
    "all documented callables, all subsets of their optional arguments, values of the other arguments, positional and keyword forms",
    "Tests call each function in a few forms, mostly with the arguments they care about, and check the result at points where other defaults (limits, tolerances, precisions, layers) would not show.",
    ["polygon.py", "path.py", "curve.py", "operation.py", "label.py", "library.py", "gdsiiformat.py", "__init__.py"],
    [("signatures", "gdspy/polygon.py, gdspy/path.py, gdspy/curve.py, gdspy/operation.py, gdspy/label.py, gdspy/library.py"), ("None as the current value", "gdspy/polygon.py Path.segment, Path.arc, Path.turn, Path.parametric; gdspy/path.py FlexPath.segment, RobustPath._parse_width, RobustPath._parse_offset")],
    ["the objects and results of the calls, files written"])

add("C32", "Equal values give equal results, whatever type they come in",
    "Numbers can be Python or numpy integers and floats, and points and lists of points can be tuples, lists, integer or float arrays (also views), or complex numbers in curves: equal values give the same objects, the same results of all operations on them (also after transformations and continuation of objects made of integers), and the same bytes in files.",
    ["inputs"],
    "all calls of the interface and sequences of calls on one object, all combinations of numeric types and containers with equal values",
    "Tests write numbers as literals in one form, mostly tuples of integers or floats; truncation to integers, numpy scalars taken for lists, or in-place changes of integer arrays only show for other forms.",
    ["polygon.py", "path.py", "curve.py", "operation.py", "label.py", "library.py"],
    [("arguments that may be numbers or lists", "gdspy/path.py RobustPath._parse_width, _parse_offset, FlexPath.segment; gdspy/polygon.py Round, PolyPath; gdspy/curve.py Curve.arc"), ("point arrays", "gdspy/polygon.py PolygonSet, Polygon; gdspy/path.py FlexPath; gdspy/curve.py Curve.L, C, S")],
    ["the objects and results of the calls, files written"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
