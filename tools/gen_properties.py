#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop("C01", "Ring area and winding order are exact at every u32 coordinate",
 "For every closed ring of u32 points, the reported doubled area is exactly twice the enclosed (shoelace) area and the winding order is clockwise exactly when the signed area in y-down coordinates is zero or positive, with no overflow or wrap-around anywhere in the u32 range. "
 "Storing the ring as points or cutting it into edges in any way gives the same points (each joint once), doubled area and winding order. "
 "Summing the signed doubled area of consecutive pieces of a path gives the signed doubled area of the whole; rotating a ring changes nothing and reversing it only flips the sign.",
 ["inputs"], "every closed ring, every way of cutting it into edges, every rotation and both directions, over the full u32 coordinate range",
 "Unit tests of the geo module are never compiled (cfg(Test) typo) and every other test uses coordinates below 102; overflow only shows above 2^31 and orientation mistakes only on particular shapes.",
 ["src/geo/mod.rs"], [("shoelace sum over consecutive points", "geo::signed_area2"), ("points/edges conversions", "geo::Ring::points, Ring::edges")],
 ["topogeo::geo::{signed_area2, area2, winding_order, area2_and_winding_order}", "topogeo::geo::Ring methods"])

prop("C02", "Building a topology keeps every region's data, order, rings and points",
 "For every sequence of regions whose rings do not overlap, the built topology has exactly the regions that have at least one outer ring of non-zero area, in input order and each with its own data. "
 "Each such region keeps exactly its non-zero-area outer rings as outer rings and inner rings as inner rings, in input order, and following a ring's edges in their stated directions retraces the input ring point for point (repeated consecutive points excepted), ending where it started. "
 "Building never fails on such input.",
 ["inputs", "histories"], "every sequence of add-region calls with non-overlapping rings, stored as points or as edges",
 "The tests build 9 hand-made inputs of at most three triangles and mostly count edges; they do not retrace rings.",
 ["src/topology/build.rs", "src/geo/mod.rs"], [("edge interning with canonical direction", "TopologyBuilder::build_directed_edge"), ("zero-area filter", "TopologyBuilder::build_ring"), ("id-ordered edge table", "TopologyBuilder::into_topology")],
 ["topogeo::topology::TopologyBuilder", "Topology fields"])

prop("C03", "Every shared boundary is stored once and names exactly its rings",
 "In every topology produced by building or normalizing non-overlapping regions whose common boundaries use common points, each piece of boundary belongs to exactly one edge, whose stored direction is canonical (first point before last; clockwise when closed). "
 "An edge's ring list holds exactly the one or two rings that traverse it - each once per traversal, the second slot empty when there is only one - and no edge is without a ring. "
 "Hence two regions that share a boundary reference the same edge in opposite directions there, also when regions touch themselves or each other at single points.",
 ["inputs"], "every planar map of regions, including holes, enclaves, touching corners and regions given in several adjacent pieces",
 "Tests look at maps of two or three triangles; sharing is lost only when different rings disagree about where edges start, at points where regions touch.",
 ["src/topology/build.rs", "src/topology/types.rs", "src/normalize.rs"], [("HashMap keyed by canonical point list", "TopologyBuilder::build_directed_edge"), ("back-reference filling", "TopologyBuilder::into_topology"), ("joining edges of the same two regions", "normalize::join_related_edges"), ("island rotation", "normalize::rotate_island_edge")],
 ["Topology.edges[*].rings / points", "TopoRing.directed_edges"])

prop("C04", "References inside a topology stay valid through every operation history",
 "After any history of building, normalizing, simplifying and clipping (and moving the resulting topology), every ring refers to the region that contains it, every directed edge refers to an edge of the same topology, and every edge refers exactly to the rings of the same topology that traverse it, once per traversal. "
 "Consecutive directed edges of every ring meet end to end and the last one closes the ring. "
 "This holds whatever addresses the memory allocator chooses, and no operation of such a history fails (normalizing counts as long as simplification or rounding has not made different boundaries coincide).",
 ["histories", "inputs", "configurations"], "every history of normalize / simplify / clip operations from every small map, under an allocator that always moves a block when it is resized",
 "Tests check two pointers of one clipped triangle; whether a reallocation moves the regions after their addresses were taken depends on the allocator and on how many regions survive.",
 ["src/topology/build.rs", "src/clip/topology.rs", "src/simplify/mod.rs", "src/normalize.rs"], [("pointers set after the final placement", "TopologyBuilder::into_topology, clip::topology::Builder::into_topology"), ("edge lookup by address", "clip::topology::Builder::find_old_edge_id")],
 ["TopoRing.region", "DirectedEdge.edge", "TopoEdge.rings"])

prop("C05", "Normalizing never changes what area a region covers or its data",
 "For every topology built from non-overlapping regions, normalizing succeeds and yields the same regions in the same order with the same data, and each region covers exactly the same points of the plane as before. "
 "This includes regions with holes, enclaves, islands in lakes, regions given as many adjacent polygons that together enclose a hole or partly fill one, and regions that touch themselves or each other at single points. "
 "Every corner point of the outline is kept: the outline is the same set of segments, with only boundaries internal to a region removed.",
 ["inputs"], "every planar map of regions and every way of presenting a region as outer and inner rings",
 "Ten hand-made maps of at most three triangles; none merges pieces around a hole, fills a hole partly, or touches at a point.",
 ["src/normalize.rs"], [("removing edges between rings of the same region", "normalize::join_adjacent_rings"), ("re-winding", "normalize::wind_edges"), ("rebuild", "topology::TopologyBuilder")],
 ["topogeo::normalize"])

prop("C06", "Normalized topologies obey the documented normal form",
 "In every normalized topology outer rings are clockwise and inner rings counter-clockwise, and no two rings of a region share an edge. "
 "Edges are as long as possible: two consecutive edges of a ring lie between the same regions only where more than two boundary segments meet; an island or lake that no other boundary touches is a single closed edge. "
 "The first edge of every ring starts at its leftmost (then topmost) node - for such an island, its leftmost (then topmost) point - and rings of a region are ordered by that point.",
 ["inputs"], "every planar map and every presentation of its regions",
 "Tests assert single rules on single examples; rules interact when merging creates new rings and nodes.",
 ["src/normalize.rs"], [("wind_edges / rotate_edges / join_related_edges / sort", "normalize.rs"), ("documented rules", "doc comment of normalize::normalize")],
 ["topogeo::normalize"])

prop("C07", "Normalizing is idempotent and blind to how regions were written down",
 "Normalizing a normalized topology changes nothing. "
 "Starting rings at another point, writing them in the other direction, or listing a region's rings in another order does not change the normalized regions, rings and edges. "
 "Where no boundary touches itself at a single point, giving a region as adjacent pieces or as one outline makes no difference either.",
 ["inputs", "histories"], "every planar map, every rotation, direction and order of its rings, every second application",
 "Tests normalize each example once, from one presentation.",
 ["src/normalize.rs"], [("canonical winding, rotation, order", "normalize::normalize_region_rings")],
 ["topogeo::normalize"])

prop("C08", "Simplification is Visvalingam elimination with the given threshold",
 "Every simplified edge is what Visvalingam's elimination yields: repeatedly drop the intermediate point whose triangle with its current neighbours has the smallest doubled area, as long as that doubled area is at most the threshold, recomputing the neighbours after each removal. "
 "Points whose removal would distort the line by more than the threshold stay, in order, whatever the coordinates (full u32 range) and however many points the edge has. "
 "A closed edge that would keep fewer than four points keeps instead its first and last point and the two intermediate points of greatest weight, in order.",
 ["inputs"], "every edge (open or closed) and every threshold",
 "Six tests with at most five points; the priority queue only has depth worth breaking from seven intermediate points on, and the area formula is right or wrong depending on the absolute position.",
 ["src/simplify/simplify_edge.rs", "src/simplify/mod.rs"], [("triangle area", "simplify_edge::area2"), ("in-place heap with back indices", "PointHeap::{heapify,sift_down,sift_up,swap,pop}"), ("elimination loop and ring fallback", "PointHeap::visvalingam_whyatt")],
 ["topogeo::simplify"])

prop("C09", "Simplification keeps the topology and only drops intermediate points",
 "Simplifying any topology - as built, normalized or clipped - with any threshold keeps all regions, their data, rings, edge order, directions and adjacency as they were. "
 "Each edge keeps its first and last point, its remaining points are a subsequence of the old ones, an edge shared by two regions is still shared, and a closed edge of four or more points keeps at least four. "
 "It never fails, and what happens to one edge does not depend on the other edges.",
 ["inputs", "histories"], "every topology reachable by building, normalizing and clipping, every threshold up to the maximum",
 "The simplify entry point has no test; edge-level tests use one edge at a time.",
 ["src/simplify/mod.rs", "src/simplify/simplify_edge.rs"], [("per-edge replacement of points", "simplify::simplify"), ("end points have maximal weight", "PointHeap::from"), ("ring minimum", "PointHeap::visvalingam_whyatt")],
 ["topogeo::simplify"])

prop("C10", "Clipping a path keeps exactly the part inside the mask",
 "For every path and every single-axis mask, the clipped path consists of all points strictly inside, in order, preceded and followed in each inside stretch by the point where the path crosses or meets the mask line; stretches outside or along the line contribute nothing. "
 "Every resulting point is inside or on the mask line; a crossing point lies exactly on the line, between the two points it separates, and less than one unit from the exact crossing, over the whole u32 range. "
 "A path inside the mask is returned unchanged and one that never gets strictly inside gives the empty path.",
 ["inputs"], "every path of u32 points, all four mask kinds and every mask position",
 "Nine tests with coordinates below 101; the inside/on/outside automaton has many three- and four-step histories and the interpolation overflows only above 2^31.",
 ["src/clip/edge.rs", "src/clip/types.rs"], [("inside / on-edge / outside automaton", "clip::edge::clip_edge"), ("location test and interpolation", "ClipMask::test, ClipMask::intersect")],
 ["topogeo::clip::edge::clip_edge", "topogeo::clip::ClipMask"])

prop("C11", "Clipping a topology yields each region's area inside the mask, nothing else",
 "For every topology of non-overlapping regions and every single-axis mask, clipping keeps exactly the regions that have area inside the mask, in order and with their data, and each covers exactly what it covered inside the mask (up to the rounding of crossing points to integers) and nothing outside. "
 "Holes and enclaves are clipped along with their regions; the input topology is not modified. "
 "Boundaries shared before remain shared inside the mask, so that no gap or overlap appears between neighbours.",
 ["inputs"], "every planar map, all four mask kinds, every mask position relative to its vertices",
 "Three tests, each clipping single triangles; gaps across several edges, re-entry, holes and shared boundaries are not exercised.",
 ["src/clip/topology.rs", "src/clip/edge.rs", "src/clip/types.rs"], [("per-edge clipping, then closing gaps along the mask line", "clip::topology::Builder::clip_ring"), ("zero-area removal", "clip::topology::Builder::clip_ring / add_region"), ("shared new edges", "NewEdgeSet::build_directed_edge")],
 ["topogeo::clip::clip_topology"])

prop("C12", "Clipping by a rectangle is four single-axis clips in any order",
 "Applying the four single-axis masks of a rectangle in any order gives regions that cover exactly the part inside the rectangle, whatever the order, whenever the crossing points are integers. "
 "Applying a mask a second time, or a wider mask after a narrower one, changes no coverage, and normalizing before, between or after the clips changes no coverage either. "
 "A rectangle that contains the whole map changes nothing.",
 ["histories", "inputs"], "every map, every rectangle and every order and interleaving of the clips with normalization",
 "No test clips twice.",
 ["src/clip/topology.rs", "src/normalize.rs"], [("clip_topology output is again a topology", "clip::topology::Builder::into_topology"), ("gap closing", "clip::topology::Builder::clip_ring")],
 ["topogeo::clip::clip_topology", "topogeo::normalize"])

prop("C13", "Reading a .shp file returns exactly the polygons stored in it",
 "For every well-formed polygon .shp file the reader yields, in file order, exactly one item per record with the stored record number and exactly the stored rings and points (bit for bit), exposes the stored bounding box and file length, and then ends. "
 "A header that is not a version-1000 polygon shapefile is rejected on opening. "
 "A record whose type, part indices, counts or length are inconsistent yields an error, never invented or truncated rings, and does not disturb the records after it.",
 ["inputs"], "every sequence of records, every partition of points into rings, every header and every inconsistent record",
 "Two fixture files with one-ring records of four points.",
 ["src/read/shapefile/shp.rs"], [("header validation", "read_shp_header"), ("record parsing", "parse_polygon_record"), ("byte accounting", "ShpReader::next")],
 ["topogeo::read::shapefile::shp::ShpReader"])

prop("C14", "Reading a .dbf file returns exactly the fields and values stored in it",
 "For every well-formed .dbf file the reader exposes exactly the declared fields by name and yields exactly the declared number of records, in order. "
 "A character field reads as its bytes without trailing spaces, decoded in the chosen encoding (the one an open function is named after or given); a numeric field as its number text without padding; an integer field as the unsigned little-endian number - each field from its own bytes only. "
 "Values that are not valid text or not a number, and field types the library cannot read, give an error, never a panic or another value.",
 ["inputs"], "every list of fields, every record content, every supported encoding",
 "Two fixture files with one or two fields.",
 ["src/read/shapefile/dbf.rs"], [("field offsets", "read_dbf_fields"), ("value decoding", "DbfField::read_string, dbf_numeric_to_valid_string"), ("record count", "DbfReader::next")],
 ["topogeo::read::shapefile::dbf::{DbfReader, DbfField, DbfRecord}"])

prop("C15", "Shapes and attributes are joined record by record, mismatches reported",
 "The combined reader yields the n-th shape with the n-th attribute record, for every n, and ends exactly when both files end. "
 "If one file has more records than the other, or a record of either file is unreadable, the affected step yields an error instead of a record, and no later shape is ever paired with another shape's attributes. "
 "Opening fails with an error when either file is missing or has an invalid header.",
 ["inputs", "histories"], "every pair of record counts and every combination of good and bad records in both files",
 "One fixture pair with two good records.",
 ["src/read/shapefile/shapefile.rs", "src/read/shapefile/mod.rs"], [("lock-step iteration", "ShapefileReader::next"), ("open by path", "shapefile::open")],
 ["topogeo::read::shapefile::ShapefileReader", "topogeo::read::shapefile::open*"])

prop("C16", "No file content can crash, hang or exhaust the readers",
 "For every byte content of the .shp and .dbf files - truncated, corrupted or arbitrary - opening, iterating to the end, converting to regions, reading and printing every field either succeeds or returns an error: nothing panics. "
 "Iteration always ends, after at most a number of items proportional to the file sizes, even when errors are skipped. "
 "Memory use stays proportional to the bytes actually present, whatever lengths and counts the headers claim.",
 ["inputs", "fault_sequences"], "every truncation, every single-byte corruption and every combination of boundary values in length, count and type fields",
 "All fixtures are intact.",
 ["src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs", "src/read/shapefile/shapefile.rs", "src/read/shapefile/geo.rs"], [("length checks", "parse_polygon_record, read_dbf_fields, read_string"), ("termination accounting", "ShpReader::next, DbfReader::next")],
 ["ShapefileReader, ShpReader, DbfReader, ShapefileGeoIterator, DbfField::read_string, Display impls"])

prop("C17", "Results do not depend on how the byte source delivers its bytes",
 "Reading from any byte source gives the same header, records and end as reading from memory, however the source splits the bytes over read calls and however often it reports an interruption. "
 "If the source fails at some byte, every record that lies completely before that byte is still delivered unchanged, the next item is an error, and no record is made up from missing bytes.",
 ["fault_sequences", "schedules"], "every split of the byte stream, every interruption point, and a failure or end at every byte",
 "Tests read small files through a buffered reader that always delivers everything.",
 ["src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs"], [("read_exact everywhere", "read_shp_header, read_polygon_record, read_dbf_header, read_dbf_fields, read_dbf_record")],
 ["ShpReader::new/next", "DbfReader::new/next", "ShapefileReader::new/next"])

prop("C18", "Quantizing keeps order, extent, orientation and shared points",
 "Converting shapefile records to regions maps the file's bounding box onto the whole u32 range with y pointing down: the left and top edges go to 0, the right and bottom edges to the maximum, every other coordinate to within one unit of its exact position. "
 "Order along each axis is preserved (never reversed) and equal input points give equal output points, in every ring and record; ring and point counts and order are kept. "
 "Rings that are clockwise on the map become outer rings and counter-clockwise ones inner rings, each region keeping its own record's data.",
 ["inputs"], "every bounding box and every set of rings inside it",
 "No test converts a record to a region.",
 ["src/read/shapefile/geo.rs"], [("affine map to u32", "ShapefileQuantizer::quantize"), ("ring classification by winding", "ShapefileGeoIterator::next")],
 ["topogeo::read::shapefile::ShapefileGeoIterator"])

prop("C19", "The same input always gives the same topology",
 "Building, normalizing, simplifying and clipping are functions of their input: repeating any history of operations on the same regions gives a topology with the same regions, rings and edges, in the same order with the same points and directions, independent of hash seeds, memory addresses and earlier work. "
 "Borrowed inputs (the topology given to normalizing or clipping) are left unchanged.",
 ["histories", "configurations"], "every operation history on every small map, repeated under different hash seeds and memory layouts",
 "Tests run each operation once; an order taken from a hash map shows only now and then.",
 ["src/topology/build.rs", "src/clip/topology.rs", "src/normalize.rs"], [("edges placed by id, not by hash order", "TopologyBuilder::into_topology, NewEdgeSet::into_iter"), ("ordered maps", "normalize::join_adjacent_rings")],
 ["TopologyBuilder, normalize, simplify, clip_topology"])

prop("C20", "From file to clipped map, every region keeps its own attributes and area",
 "Reading a shapefile pair of non-overlapping polygons, building and normalizing the topology and clipping it yields exactly one region per record that has area inside the mask, in record order, carrying that record's attribute values and covering exactly that record's polygon inside the mask (exact when the quantized crossings are integers). "
 "Neighbouring records share edges in the result, and zero-area records disappear without affecting others.",
 ["inputs", "histories"], "every small map written as a shapefile pair, taken through the whole pipeline with every mask",
 "No test runs two stages in a row on file input.",
 ["src/read/shapefile/geo.rs", "src/topology/build.rs", "src/normalize.rs", "src/clip/topology.rs", "src/simplify/mod.rs"], [("stage composition as in examples/shp-to-geo-data.rs", "examples/shp-to-geo-data.rs")],
 ["the public pipeline API"])

prop("C21", "Errors name their cause and the file at fault",
 "When the byte source fails, the reader's error is an I/O error of exactly the source's error kind, with the source's error as its cause and text; when data ends early it is an I/O error of kind UnexpectedEof. "
 "When all bytes were delivered but their content is invalid - header, record, field name or value - it is a parse error with a non-empty description, never an I/O error. "
 "The combined reader and the region iterator pass on the error of the .shp or .dbf file that is at fault, named as such, and report only record counts that differ as a join error; a missing file is an I/O error of kind NotFound of that file.",
 ["inputs", "fault_sequences"], "every failure position and error kind of the byte sources, every corrupted byte, every combination of faults in both files and every state of the files on disk",
 "Tests look at a handful of errors; which variant and kind comes out depends on where among all bytes the fault lies.",
 ["src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs", "src/read/shapefile/shapefile.rs", "src/read/shapefile/geo.rs"], [("I/O errors kept as they are", "read_shp_header, read_polygon_record, read_dbf_header, read_dbf_fields, read_dbf_record"), ("variants of the combined reader", "ShapefileReader::new, ShapefileReader::next, shapefile::open")],
 ["ShpError, DbfError, ShapefileError"])

prop("C22", "Printed forms show exactly the content, in order",
 "Printing shows exactly the content, in order and in one fixed form: a point as (x,y), an edge as Edge(p,p,...), a ring as [..] of its points or edges separated by commas, a region as Region([data], outer:[ring, ring], inner:[...]), a .shp point as (x,y) with numbers that read back bit for bit, a .shp ring as [p,p,...]. "
 "An attribute record prints as {name:value; name:value} with every field in file order and its value as read_string gives it, or as one 'Invalid DBF record' note if any value cannot be read; a shapefile record as ShapefileRecord({...}; rings: ring; ring). No element is ever missing, repeated or merged with its neighbour.",
 ["inputs"], "every number and arrangement of points, edges, rings, fields and values up to the bound",
 "No test prints anything.",
 ["src/geo/mod.rs", "src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs", "src/read/shapefile/shapefile.rs"], [("Display of Point, Edge, Ring, Region", "geo::fmt"), ("Display of records", "DbfRecord::fmt, ShapefileRecord::fmt")],
 ["Display of the public types"])

prop("C23", "Work and memory grow in proportion to the input",
 "Reading, converting, printing, building, normalizing, simplifying and clipping take work and memory in proportion to the size of their input, up to a logarithmic factor: making an input of a thousand or more regions, rings, points, edges, crossings, records or fields eight times as large makes none of them execute more than sixteen times as many instructions, nor hold or copy more than thirty-two times as many bytes. "
 "This holds for every shape of input - many small regions, one region of many pieces, holes, enclaves, islands, nested rings, long shared boundaries, outlines with many neighbours, lines that cross the mask many times, straight or evenly bent lines of many points - except for a single region that touches itself very many times in one and the same point.",
 ["inputs", "configurations"], "every shape of large input, each at several sizes",
 "Tests use inputs of a few points, where any cost goes unnoticed.",
 ["README.md", "src/normalize.rs", "src/topology/build.rs", "src/clip/topology.rs", "src/simplify/simplify_edge.rs", "src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs"], [("operations scale O(n)", "README.md: Features"), ("following edges by point", "normalize::join_adjacent_rings"), ("edges found by hash", "TopologyBuilder::build_directed_edge, NewEdgeSet::build_directed_edge"), ("heap of points", "simplify_edge::PointHeap")],
 ["the public API"])

prop("C24", "Everything is owned once: nothing leaks, nothing is dropped twice",
 "At every moment of every history of building, normalizing, simplifying and clipping, the region data alive is exactly what the topologies, regions and builders at hand hold, each piece once: data of regions that disappear is dropped then, simplifying passes the data on, and normalizing and clipping give each resulting region one copy of its own. "
 "Topologies do not depend on one another: dropping them in any order leaves the others as they were and drops each piece of data once; if copying the data fails (panics) part way, the input is unchanged and nothing is dropped twice. "
 "After everything is dropped no memory stays allocated. The same holds for readers: a byte source is dropped with its reader or when opening fails, no file stays open, and records, regions and fields outlive their reader and can be dropped in any order.",
 ["histories", "inputs", "fault_sequences"], "every history of operations and every order of dropping what it produced, every failing copy, every damaged file",
 "Tests hold one topology of plain numbers each; neither a second drop nor a leak of such data shows.",
 ["src/topology/build.rs", "src/normalize.rs", "src/clip/topology.rs", "src/simplify/mod.rs", "src/simplify/simplify_edge.rs", "src/read/shapefile/shapefile.rs", "src/read/shapefile/dbf.rs"], [("data handed on", "TopologyBuilder::into_topology, simplify::simplify"), ("data copied", "normalize::normalize, clip::topology::Builder::add_region"), ("readers and their sources", "ShapefileReader::new, shapefile::open, DbfRecord")],
 ["the public API"])

prop("C25", "Readers, fields and records do not influence one another",
 "What a reader yields next depends only on its own files and on how many items were taken from it - not on whether they were taken as records or as regions or skipped (nth), on fields being looked up, listed, read or printed or the bounding box being asked for in between, nor on other readers at work in turn with it. The number of items left always lies within size_hint, and count() gives it. "
 "Fields and the bounding box are the same at every moment. Records, copies of them, and fields keep their values after their reader has gone on or is gone; a field reads from any record of its file the same as an equal field looked up at another time or from another reader of that file, and always what the record's bytes are now.",
 ["histories", "schedules"], "every interleaving of steps on two readers over good, damaged and mismatched files",
 "Tests read each file straight through, one at a time.",
 ["src/read/shapefile/shapefile.rs", "src/read/shapefile/geo.rs", "src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs"], [("position in the files", "ShpReader::next, DbfReader::next, ShapefileReader::next"), ("regions from a borrowed reader", "ShapefileGeoIterator::next"), ("values from bytes", "DbfField::read_string, DbfRecord::fmt")],
 ["ShapefileReader, ShapefileGeoIterator, ShpReader, DbfReader, DbfField, DbfRecord"])
prop("C26", "Work at the same time is never mixed up, in threads or call-backs",
 "Any number of threads can build, normalize, simplify, clip, read and print at the same time, each its own regions, topologies and files, and the library can be used from within the code it calls back: byte sources, and the copying, dropping and printing of region data. "
 "Every such call gives exactly what it gives alone, wherever one thread is interrupted in favour of another and in whichever call-back the other call is made; none of them fails because of the other, and none waits for ever.",
 ["schedules"], "every place (allocation, release, copy, fill, call-back) at which one thread is interrupted and another runs, every call-back in which the library is called",
 "Tests run each operation on its own, from data without behaviour.",
 ["src/normalize.rs", "src/clip/topology.rs", "src/simplify/simplify_edge.rs", "src/read/shapefile/dbf.rs", "src/read/shapefile/shp.rs", "src/topology/build.rs"], [("no state outside the arguments", "every public function"), ("call-backs", "Data::clone in normalize and clip_topology, io::Read in the readers")],
 ["TopologyBuilder, normalize, simplify, clip_topology, ShapefileReader, ShapefileGeoIterator, Display"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
