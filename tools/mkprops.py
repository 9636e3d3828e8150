"""Writes properties.jsonl (the single source of the property texts)."""
import json, os

L = "gdspy/library.py"
G = "gdspy/gdsiiformat.py"
P = "gdspy/path.py"
PO = "gdspy/polygon.py"
LB = "gdspy/label.py"
CL = "gdspy/clipper.cpp"
OP = "gdspy/operation.py"
V = "gdspy/viewer.py"
CU = "gdspy/curve.py"

def mech(*a):
    return [dict(name=n, where=w) for n, w in a]

PROPS = []
def P_(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    anchors = dict(files=files, mechanism=mechanism)
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext),
                      why_tests_cant=why, anchors=anchors))

P_("C01", "A successful export is complete in its destination; a failed write raises",
   "When writing a layout to GDSII (a whole library at once or cell by cell) or a cell with geometry to SVG returns normally, the destination holds the complete document, and for a destination given as a path it still does after the process is killed right afterwards. If any open, write, flush or close of the destination fails, the call raises instead of returning. Files opened by the library from a path (plain string or path object) are closed on return, and streams supplied by the caller are used through writing only and never closed.",
   ["inputs", "crash_points", "fault_sequences"],
   "every layout, every destination kind (string path, path object, open stream), every position at which storage can fail (open, any write, flush, close; disk full, I/O error, interrupted or short low-level writes) and every point after return at which the process can be killed",
   "The tests write small layouts to healthy disks and read them back in the same process; they inject no storage error, no short low-level write, no kill, and never look at who closes the stream.",
   [L], mech(("GdsLibrary.write_gds open/close handling", L + ":GdsLibrary.write_gds"),
             ("incremental writer and its close", L + ":GdsWriter"),
             ("Cell.write_svg open/close handling", L + ":Cell.write_svg")),
   observe=["bytes in the destination after the call and after a simulated kill", "whether the call raised", "closed state of the stream"])

P_("C02", "A layout that was exported is recovered intact by a later session",
   "Exporting any layout to GDSII and importing the resulting file in a fresh session recovers the same library: same name and units, the same cells, and in each cell the same polygons, paths, labels, single and arrayed references, with their layers, datatypes, text types, coordinates (to within half a database unit), widths, path ends, anchors, rotations, magnifications, reflections, repetition grids and properties. This also holds when the file is assembled cell by cell or from binary cells taken from other files, when it is delivered in arbitrarily small chunks, and through repeated export/import cycles; the import options (units skip/import/convert, rename maps and templates, layer, datatype and text type maps) change only what they name. The units and the per-cell binary contents obtained directly from the file agree with the imported library.",
   ["inputs", "programs", "configurations", "histories"],
   "every layout program (element kinds, attribute combinations, sizes beyond one record, odd-length names, reflected and rotated arrays), every writer route, every import configuration, every chunking of the low-level reads, any number of export/import generations across process restarts",
   "The tests round-trip one hand-written library and a few fixed options; the guarantee is over all element/attribute combinations, all import options and all routes by which a file can be produced and delivered.",
   [L, G, PO, P, LB],
   mech(("write side", L + ":GdsLibrary.write_gds/Cell.to_gds/CellReference.to_gds/CellArray.to_gds"),
        ("element encoders", PO + ":PolygonSet.to_gds; " + P + ":FlexPath.to_gds/RobustPath.to_gds; " + LB + ":Label.to_gds"),
        ("read side", L + ":GdsLibrary.read_gds and _create_*"),
        ("record codec", G + ":_record_reader/_eight_byte_real"),
        ("units and binary cells", L + ":get_gds_units/get_binary_cells"),
        ("incremental writer", L + ":GdsWriter")),
   observe=["imported library compared with an independent model of the layout", "file bytes parsed by an independent GDSII decoder"])

P_("C03", "A file cut short by a crash never yields fabricated content",
   "Reading a GDSII file that was cut at an arbitrary byte (the writer crashed, the disk filled up) either raises or yields a subset of what had been written: every cell and element that appears is exactly one that was written, complete and unaltered, and every cell present is one of the written cells holding a leading part of its elements. Binary cells extracted from such a file are always byte-exact complete cells. The in-place timestamp tool and the content hash on such a file never alter or accept bytes beyond what is there.",
   ["inputs", "crash_points"],
   "every layout and every byte offset at which its file can be cut, including inside record headers, strings, coordinates, properties and units, whether cut by a simulated writer crash with any buffering or by truncation of a complete file",
   "No test reads an incomplete file; the number of cut points per file is the file length and each hits a different parser state.",
   [G, L], mech(("record framing", G + ":_record_reader/_raw_record_reader"), ("element assembly", L + ":GdsLibrary.read_gds"),
                ("binary cell extraction", L + ":get_binary_cells")),
   observe=["library contents after read", "binary cells map"])

P_("C04", "Damaged input is contained: readers end, and nothing else is disturbed",
   "Every reader of GDSII data (library import, units, binary cells, content hash, timestamp rewrite), given any byte sequence and any read errors, ends after an amount of reading bounded by the file size, by returning or by raising an ordinary exception. Cells already present in a library keep their contents whatever the import does, files opened by the library do not stay open, streams supplied by the caller do, and a following operation on a good file with the same objects gives the same result as if the damaged file had never been seen. Zero padding after a valid library and elements of unsupported kinds do not prevent the rest from being read unchanged.",
   ["inputs", "fault_sequences", "histories"],
   "every corruption of a valid file (bit flips, overwritten or zeroed ranges, wrong or zero record sizes, inserted, deleted, duplicated or swapped records, zero padding, arbitrary bytes), every position of an I/O error during reading, and any later valid operation in the same process",
   "The tests read only well-formed files (plus one padded example); termination, containment and recovery quantify over all damaged inputs and all later operations.",
   [G, L], mech(("record framing and end conditions", G + ":_record_reader/_raw_record_reader/gdsii_hash/set_gdsii_timestamp"),
                ("import into an existing library", L + ":GdsLibrary.read_gds"),
                ("units/binary cells", L + ":get_gds_units/get_binary_cells")),
   observe=["number of low-level reads/steps", "outcome kind", "library contents before/after"])

P_("C05", "Rewriting timestamps in place touches nothing but timestamps, crash or not",
   "Setting the timestamps of a GDSII file in place changes only the timestamp fields: at every instant, whatever I/O error occurs and wherever the process is killed, the file keeps its length and all other bytes, and so its contents hash. When the call returns normally every library and cell timestamp in the file equals the requested value, and repeating the call after an interruption completes the job.",
   ["inputs", "crash_points", "fault_sequences"],
   "every file, every timestamp, every kill point or I/O error during the in-place rewrite with any buffering or short low-level transfer, and any number of retries",
   "The test restamps one healthy file once; nothing interrupts the rewrite or inspects the untouched bytes.",
   [G], mech(("in-place rewrite loop", G + ":set_gdsii_timestamp"), ("content hash", G + ":gdsii_hash")),
   observe=["durable file bytes at every simulated kill point"])

P_("C06", "The content hash identifies cell contents and nothing else",
   "The content hash of a GDSII file depends only on the multiset of its cells' contents: it is the same for files that differ in timestamps, library name, units record or order of cells, whichever route, clock, memory layout, hash engine state or read chunking produced them. Files whose cells differ in any name, element, attribute, coordinate or property have different hashes. A caller-supplied hash engine receives exactly the same content as the default one.",
   ["inputs", "schedules", "configurations"],
   "every layout, every permutation of cells, every clock reading and writer route, and every single content change",
   "The tests hash two files; invariance and sensitivity quantify over all layouts, orders, clocks and content changes.",
   [G], mech(("hash over sorted cell contents", G + ":gdsii_hash")), observe=["hash values"])

P_("C07", "Exports and queries leave the layout as it was, even when they fail",
   "Exporting to GDSII or SVG and querying a layout (polygons, polygon sets, paths, labels, areas, bounding boxes, layers, dependencies, top level, copies, text form) does not change what any later operation observes: contents, exported bytes and answers stay the same, also when the export or query is aborted part-way by a storage error, an error in user code or an interrupt. Retrying a failed export on a healthy destination produces exactly the bytes a never-failed export would have. Results handed to the caller are independent copies: modifying them does not alter the layout.",
   ["inputs", "fault_sequences", "histories"],
   "every layout, every query or export, every abort point, and any following sequence of queries and exports; and every in-place modification of returned arrays and containers",
   "Tests call each query once on a fresh object and compare one answer; they never abort a query or export, never compare later observations, and never write into what they were given.",
   [L, PO, P, LB], mech(("flattening queries", L + ":Cell.get_polygons/get_polygonsets/get_paths/get_labels and the reference versions"),
                        ("path evaluation", P + ":FlexPath.get_polygons/to_gds, RobustPath.get_polygons/to_gds"),
                        ("exporters", L + ":GdsLibrary.write_gds/Cell.write_svg")),
   state=[("cached path polygons and bounding boxes", "derived data that must be invisible", P + ":_polygon_dict; " + L + ":_bounding_box")],
   observe=["full observation of the layout before and after", "exported bytes"])

P_("C08", "Concurrent readers of one layout see exactly what a single reader sees",
   "Threads that only query or export the same layout at the same time, each to its own destination, all obtain exactly the results they would obtain alone, under every interleaving. No reader fails because of another, and the layout observed afterwards is the same as before.",
   ["schedules", "inputs"],
   "every layout with lazily evaluated parts, every set of concurrent queries and exports, every interleaving at the points where the interpreter can switch threads",
   "The test suite is single-threaded; races in lazily filled caches appear only under particular interleavings.",
   [L, P], mech(("lazy path evaluation", P + ":FlexPath.get_polygons/RobustPath.get_polygons"), ("bounding box caching", L + ":Cell.get_bounding_box"),
                ("label/path query transforms on copies", L + ":CellReference.get_labels/get_paths")),
   state=[("cached path polygons and bounding boxes", "shared lazily computed data", P + ", " + L)],
   observe=["return value or exception of each reader"])

P_("C09", "Independent sessions do not interfere",
   "Work on one library, cell, path, reader, writer or viewer never changes the outcome of work on unrelated ones, whether sequentially or in concurrently running threads: results equal those of running each piece of work alone in a fresh process. In particular default arguments, module-level settings and argument objects passed by the caller (lists, maps, arrays, points) carry nothing from one operation to another and are left unmodified.",
   ["schedules", "histories", "inputs"],
   "every pair of programs over disjoint objects sharing only caller-supplied argument objects and module state, every interleaving at thread switch points, failures in either included",
   "Each test uses its own fresh arguments in one thread; leakage through shared defaults, globals or argument objects needs two interleaved or successive uses to be seen.",
   [L, P, PO, OP, V], mech(("default arguments and per-call copies", L + ":GdsLibrary.read_gds/write_gds; " + P + ":constructors"),
                            ("scratch registration of cells in the global library", L + ":use_current_library"),
                            ("per-import reference list", L + ":GdsLibrary._references")),
   observe=["results of each program alone versus interleaved", "argument objects after the call"])

P_("C10", "A failed or interrupted path or curve evaluation is not remembered",
   "If evaluating a path fails or is interrupted (user-supplied end, corner, bend, width, offset or parametric functions raise, memory runs out, the user interrupts), the error reaches the caller and, once the cause is gone, the next evaluation or export gives the same geometry as if it had never happened. Path geometry always reflects the current definition: after any sequence of construction and transformation steps, evaluations in between included, the polygons, area and exported data equal those of the same sequence without evaluations in between. A construction step that fails leaves the path's earlier geometry usable and unchanged. A path that is moved, rotated, scaled or mirrored part way through its construction goes on from the position, direction, width and offset it was taken to: the result is the path built first and transformed afterwards.",
   ["histories", "fault_sequences", "programs"],
   "every path program (segments, arcs, turns, curves, parametric parts, transformations, width and offset changes), every interleaving with evaluations, every failing call of a user function and every interrupt or allocation failure point",
   "Tests evaluate each path once after building it; caching errors need evaluate-modify-evaluate histories and failures at specific callbacks.",
   [P, CU], mech(("lazily evaluated polygon cache and its invalidation", P + ":FlexPath/RobustPath _polygon_dict handling"),
             ("construction steps", P + ":FlexPath.segment/arc/turn/parametric/bezier/..., RobustPath likewise")),
   state=[("polygon cache", "None or the evaluated polygons", P + ":_polygon_dict")],
   observe=["polygons, area, exported bytes"])

P_("C11", "Answers always reflect the current layout, whatever was edited or asked before",
   "After any history of edits (adding, filtering, removing, flattening, translating or otherwise transforming elements, replacing or removing references, editing a cell nested at any depth), every answer (bounding boxes, polygons, polygon sets, paths, labels, areas, layers, datatypes, text types, dependencies, exported bytes) of every cell and reference equals the one given by a freshly built layout with the same contents, which places what each cell holds by the magnification, reflection, rotation, repetition and translation of every level. What was queried before, and in which order, makes no difference. Filtering removes exactly the elements selected by the user's test and flattening keeps the geometry and the labels with their text, anchor and position. Translating, rotating, scaling or mirroring an element, and copying a cell with a transformation, move every point they hold as asked.",
   ["histories", "programs", "inputs"],
   "every finite history of edits and queries over any hierarchy of cells, with user test functions that may also fail",
   "Tests query once after construction; stale derived data needs a query, then an edit somewhere else in the hierarchy, then another query.",
   [L, PO, P, LB], mech(("bounding box cache and invalidation", L + ":Cell.get_bounding_box/add/remove_*"),
                        ("flatten and filters", L + ":Cell.flatten/remove_polygons/remove_paths/remove_labels"),
                        ("element edits", PO + ":PolygonSet.translate/rotate/scale/fillet/fracture; " + LB + ":Label.translate")),
   state=[("cached bounding box", "must equal the recomputed one", L + ":Cell._bounding_box")],
   observe=["answers compared with a fresh reference model"])

P_("C12", "The library registry follows its operations and rejects bad ones without effect",
   "After any history of operations on a library (new cell, add with or without dependencies and overwriting, remove, rename, replace references, import, extract), its contents match the documented effect of each operation: each name maps to one cell whose name is that key, references in the library's cells point where the operations put them, and top-level cells are exactly those not referenced by another. An operation that is rejected with an error leaves the library and all cells as they were. The outcome does not depend on memory layout.",
   ["histories", "inputs", "schedules"],
   "every finite history of registry operations over several libraries and cell hierarchies (duplicate names, shared and missing dependencies, repeated and self-similar renames), every rejected operation, every memory layout",
   "Tests apply one or two operations to fixed libraries; the guarantee is over all sequences, including rejected ones, and over set orders that depend on addresses.",
   [L], mech(("registry operations", L + ":GdsLibrary.new_cell/add/remove/rename_cell/replace_references/extract/top_level"),
             ("dependency search", L + ":Cell.get_dependencies")),
   state=[("cells map", "name to cell", L + ":GdsLibrary.cells")],
   observe=["cells map, references, top level after each step compared with a reference model"])

P_("C13", "The same program writes the same bytes",
   "A program that builds a layout and exports it with explicit timestamps produces byte-identical GDSII and SVG output on every run: addresses, hash seeds, the wall clock, thread scheduling and what was exported before have no influence. The order of cells and elements in the output is determined by the program alone.",
   ["programs", "schedules", "configurations"],
   "every layout program, every memory layout and hash seed (arbitrary set orders), every clock reading, every export route, repeated runs",
   "A test run samples one memory layout and one clock; address-dependent ordering shows up only on other runs.",
   [L], mech(("insertion order of cells", L + ":GdsLibrary.add"), ("dependency collection", L + ":Cell.get_dependencies"),
             ("cell order in exports", L + ":GdsLibrary.write_gds"), ("SVG definitions and classes", L + ":Cell.write_svg")),
   observe=["exported bytes across simulated memory layouts"])

P_("C14", "Timestamps in files are the requested ones, or the clock's",
   "With an explicit timestamp, every library and cell timestamp in an exported file is exactly that value and the clock has no influence; binary cells copied from other files keep theirs. Without one, every timestamp written is a reading of the clock taken during the call that wrote it, also when the clock jumps or steps back; creation and modification fields agree.",
   ["schedules", "inputs", "configurations"],
   "every layout and export route, every timestamp value, every clock behaviour (ticks between any two readings, jumps over minutes, days, years, backwards)",
   "Tests pass one fixed timestamp or ignore the stamps; nothing controls the clock.",
   [L, G], mech(("library and cell stamps", L + ":GdsLibrary.write_gds/GdsWriter/Cell.to_gds")),
   observe=["BGNLIB/BGNSTR records decoded from the output"])

P_("C15", "Geometry kernel failures are contained",
   "Boolean, offset, slicing, fracturing and inside operations, given any operands, user sequences that raise or lie about their contents, and memory allocation failures at any point, either return the result they would have given undisturbed or raise an ordinary Python exception; the process never crashes or hangs. After a failure nothing is leaked or over-released: operands are unchanged and keep their reference counts, and later operations give correct results.",
   ["fault_sequences", "inputs", "histories"],
   "every operand shape (polygons, sets, paths, references, raw sequences; empty, degenerate, huge or non-numeric coordinates), every allocation or sequence access that can fail, and any following operations",
   "Tests pass well-formed operands with plenty of memory; the error paths of the extension are never executed.",
   [CL, OP, PO], mech(("sequence conversion and error paths", CL + ":parse_polygon/parse_polygon_set"),
                  ("result construction", CL + ":build_polygon_tuple"),
                  ("operand gathering", OP + ":_gather_polys")),
   observe=["process survival", "result or exception", "reference counts and allocated blocks", "later results"])

P_("C16", "The viewer keeps its picture and its state in step under any event sequence",
   "Under any sequence of user events (zooming, panning, measuring, showing and hiding layers, raising and lowering them, changing nesting depth, cell or aspect) the viewer shows exactly the visible layers of the selected cell at the selected depth, each drawn where the current view maps its layout coordinates. A layout coordinate read back from a position on the canvas is the one drawn there, and measurements equal layout distances. The layer list, its order, colours and patterns agree with the picture. Resetting the view brings the whole cell into the window, zooming keeps the point under the pointer, zooming into a rectangle brings that rectangle to the window. An event that fails half way costs at most the picture until the next reset of the view. Viewing never alters the layout or the arguments given by the caller.",
   ["histories", "schedules", "inputs"],
   "every layout and every finite sequence of user interface events, in any order, including repeated and interleaved gestures",
   "There are no tests for the viewer at all; its state is spread over the canvas, visibility lists and the view transform and depends on event histories.",
   [V], mech(("event handlers", V + ":LayoutViewer"), ("view mapping", V + ":LayoutViewer._update_canvas/_scale")),
   observe=["items on a simulated canvas compared with a reference projection"])

P_("C17", "Boolean, offset, slice and inside results are geometrically correct",
   "The region covered by a boolean, offset or slice result equals the corresponding operation on the regions covered by the operands, and point membership queries agree with it, up to the requested precision.",
   ["inputs"], "all operand polygons, operations and precisions",
   "Tests check a few hand-computed cases; the space of polygons is unbounded.",
   [OP, CL], mech(("polygon clipping", CL), ("wrappers", OP)), observe=["result polygons"])

P_("C18", "Curves, bends and text are drawn within the requested tolerance",
   "Every curved element (round shapes, curve sections, arcs, turns, smooth interpolations, parametric and robust path sections) approximates its mathematical definition within the requested tolerance, starts and ends where it should, and text follows its font tables.",
   ["inputs"], "all curve parameters and tolerances", "Tests sample a few parameter sets.",
   [CU, P, PO, "gdspy/hobby.py"], mech(("curve sampling", CU), ("path sampling", P)), observe=["polygon vertices"])

P_("C19", "Polygon edits preserve the covered region as documented",
   "Fracturing, mirroring, rotating, scaling, translating and filleting change the covered region exactly as documented and nothing else; areas are consistent with the region.",
   ["inputs"], "all polygons and parameters", "Tests sample a few polygons.",
   [PO], mech(("polygon transformations", PO + ":PolygonSet")), observe=["polygon vertices, area"])

P_("C20", "Reference expansion composes placement transformations correctly",
   "Expanding single and arrayed references yields the referenced geometry, paths and labels under the composition of magnification, reflection, rotation, repetition and translation of each level; SVG output draws the same picture.",
   ["inputs"], "all hierarchies and placements", "Tests sample a few placements.",
   [L], mech(("expansion", L + ":CellReference/CellArray get_*"), ("SVG", L + ":to_svg")), observe=["expanded polygons"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(PROPS))
