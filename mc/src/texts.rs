//! What each check enumerates (evidence "rule") and what it takes for granted.

const MAPS: &str = "Every labelling of each listed complex of faces (squares or triangles; labels: nothing, region A, its second part a, region B, ...) is one planar map; [turns] are the presentations: 0-2 outlines traced with a different rule where a boundary touches itself, 3 every face a ring of its own, 5-10 mixtures. 'fan' complexes are wedges that meet at the leftmost point (tens of them: every labelling (a k + b) mod m). 'pattern' complexes are larger: all labellings of the form (a i + b j + c i j) mod k and a list of shapes (spirals, combs, nested frames, sieves, a region per cell) instead of all labellings; 190x181 and 300x120 are the shapes alone on that many cells (more than 2^16 edges). ";

pub fn rule(id: &str) -> String {
    let s = match id {
        "C01" => "Every sequence of points over the listed lattices / boundary-value alphabets, closed into a ring; for each: all rotations, both directions, all cuttings into consecutive edges (exhaustively for short rings), compared with an exact i128 shoelace sum. 'long' spaces: patterned rings of every length to 300 and up to 100,000 points.",
        "C02" => "Each map is built with the real TopologyBuilder and retraced ring by ring. 'written' spaces vary rotation, direction, repeated points, storage as edges, added zero-area rings and regions; 'rows' are maps of up to dozens of regions.",
        "C03" => "Each map is built and normalized; every boundary segment of the face complex must occur in exactly one edge with canonical direction, and the ring lists are recomputed from the rings.",
        "C04" => "Every history of operations (normalize, simplify with several thresholds, clip with several masks, move) of the stated depth from every map; each reached topology is checked for structural validity. All memory blocks move on every resize and freed blocks are overwritten.",
        "C05" => "Each map is normalized; the set of directed boundary segments of every region must equal the boundary chain of its labelled faces, so the covered point set is the same.",
        "C06" => "Each map is normalized and the normal form is decided by predicates computed from the face complex (nodes, winding, minimal points, maximal edges, ring order).",
        "C07" => "For each map: second application, and all enumerated presentations (rotations, directions, ring orders, pieces where allowed) must normalize to the identical topology.",
        "C08" => "Every point sequence over the listed alphabets x every threshold that can matter (each weight reached by the model, +-1, 0, max); a state = (remaining points) of the elimination; the explicit-state model explores all tie-breaks and the implementation must end in one of its final states. 'long' spaces: patterned edges of every length to 700 (thorough 3000) and up to 100,000 (400,000) points against a reference elimination, thresholds where a tie decides skipped.",
        "C09" => "Each map, as built, normalized or clipped, is simplified with each threshold of a list that includes 0, every scale and the maximum; edges are compared with simplification of that edge alone.",
        "C10" => "Every path over the listed lattices or boundary-value alphabets x all four mask kinds x all mask positions; compared with an inside/on/outside reference with exact rational crossings. 'long' spaces: ten patterns of every length to 300 to 3000 (as listed) and up to 200,000 points.",
        "C11" => "Each map x each mask (through vertices, between vertices, outside, all four kinds); coverage compared as boundary chains of the faces cut by the mask line, exactly where crossings are integers and by rounding-aware signed-area and segment checks elsewhere.",
        "C12" => "Each map x each rectangle (one case explores the tree of all 24 orders of the four clips), repeated and widened masks, with normalization before, between or after; coverage compared as boundary chains. 'again' spaces include non-integral crossings: the same or a wider mask changes no coverage any more.",
        "C13" => "Every file over record counts x ring partitions x point values from a reference writer, every inconsistent variant of the length/type/part/count fields, every header-word variation, every assignment of telling values (extremes, infinities, no numbers, minimum above maximum) to the header's bounding box, all values of bytes without meaning, very large records.",
        "C14" => "Every list of fields over types and widths x record contents from a reference writer; every byte and every short word over a number/text alphabet in every field type; numbers and texts of every length to 255 with a point at many positions; look-up by every name and by near misses of it; three encodings with reference decoders and seventeen others as the encoding library decodes the trimmed bytes (every two bytes, values and names); every function that opens by path; all header dates, bytes without meaning, bytes after the end-of-fields mark.",
        "C15" => "Every pair of sequences of good/bad records up to the stated length for the .shp and the .dbf side, and every combination of missing/invalid files and kind of path (links among them) for open(); joins of up to 300,001 records whose counts agree or differ by one.",
        "C16" => "Every truncation, every single-byte value at every position, pairs of bytes in the listed ranges, every combination of boundary values in length/count/type words and every short body; tables as wide as the format allows, cut short or with lengths that do not add up; each explored file is opened, iterated past errors, quantized, read and printed under a byte-counting allocator. Non-trivial = the file differs from the intact one and its outcome (items, errors) is new.",
        "C17" => "Small files, files of six 40 kB records, and pairs of sources under the combined reader: every chunk size, every pair (thorough: triple) of split points, every set of interruption points of the listed shapes, and a failure or early end at every byte, for .shp, .dbf and both. Non-trivial = distinct delivered sequences of items.",
        "C18" => "Every combination of listed bounding boxes x coordinates (ends, middles, neighbours in floating point) and every small ring for the orientation part; compared with exact big-integer arithmetic on the doubles; 'many': up to 70,000 records, 65,537 rings, 200,000 points per ring.",
        "C19" => "Every history of the stated depth on every map is executed several times under different hash seeds and forced ascending / descending address layouts; the resulting topologies and borrowed inputs must be identical.",
        "C21" => "Sources failing or ending at every byte x 8 error kinds x chunk sizes, alone and in pairs; every value of every header and record byte (lengths excepted); every field-name byte, every two-byte value; all pairs of record counts and bad records; all file states on disk. The variant, kind, cause and text of every error are compared with the injected fault.",
        "C22" => "Points over boundary values, edges and rings of all small sizes and cuttings, regions of all arrangements of up to 3+3 rings of 6 kinds, records of all field/value lists up to the bound; the text is compared with a reference printer.",
        "C23" => "Every family of inputs (all grids of repeated 1x2, 2x1 - thorough also 2x2, 3x1 - tiles over: nothing, region A, its second piece, a piece of A per cell, a region per cell; listed shapes of grids, lines and files) at a size and at eight times that size x every operation. One execution = one operation on one input; instructions are counted by callgrind, bytes held and moved by the allocator and memcpy; at 8 times the size at most 16 times the instructions and 32 times the bytes. A state = (family, operation, size, peak bytes).",
        "C24" => "Every history of the stated depth on every map, what is borrowed being kept, then every order of dropping the topologies; region data of 4, 8 and 40 bytes registers every copy and drop. 'failing copies': the k-th copy panics, for every k; builders dropped after every number of regions. 'many different inputs': 2700 in a row of which nothing may stay. 'readers': every truncation and nine values of every byte of a pair of files x five ways of dropping records and reader; 'files': every open function x states of the files.",
        "C25" => "Every sequence of the stated number of steps over two readers (next, next region, nth(1) of both, look-ups) for pairs of twelve pairs of files (good, unreadable records, unequal counts, cut short, short records, invalid values); every sequence of nth(0..2) on the single readers.",
        "C26" => "Two threads under the harness's scheduler; every allocation, release, copy, fill (of library code) and call-back is a scheduling point. 'one stop': the first thread stops at each of its points, the second runs through, the first goes on - all pairs of five tasks; 'two stops': the first stops at every point, the second at every point, the first runs to its end, the second goes on; 'call-back': the second task is run inside every call-back of the first. One state = one schedule.",
        "C20" => "Every labelling is written as a .shp/.dbf pair whose quantization is exact, then read, built, normalized, clipped (1-3 masks) and optionally simplified with threshold 0; coverage per record is compared with the labelled faces.",
        _ => "",
    };
    if ["C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C12", "C19", "C20", "C24"].contains(&id) { format!("{}{}", MAPS, s) } else { s.to_string() }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec!["exhaustive only within the listed spaces; nothing is claimed beyond them", "the crate is compiled by the installed stable rustc in release mode with overflow checks and debug assertions on"];
    match id {
        "C02" | "C03" | "C05" | "C06" | "C07" | "C09" => v.push("regions do not overlap and neighbours use common points along common boundaries"),
        "C24" => { v.push("numeric fields are left out where memory is counted (the regex engine keeps caches per thread)"); v.push("what is allocated once and kept is told from a leak by repeating the case"); }
        "C04" | "C19" => { v.push("normalizing is part of a history only while no boundary segment is stored twice (simplification or rounding can make different boundaries coincide)"); v.push("hash seeds are varied (process-random), not enumerated"); }
        "C11" | "C12" | "C20" => v.push("where a crossing is not an integer, coverage is compared up to the documented rounding of crossing points"),
        "C23" => { v.push("costs are compared at the stated sizes; growth that starts beyond them is not seen"); v.push("valgrind's callgrind counts executed instructions"); }
        "C26" => { v.push("threads are interrupted only at allocations, releases, copies and fills done by memcpy, memmove or memset, and call-backs, not between arbitrary instructions"); v.push("schedules in which the thread whose turn it is stands still (a lock) go on without control"); }
        "C16" => v.push("memory is bounded as (constant + factor x bytes present); a case that burns 150 s of CPU counts as a hang"),
        _ => {}
    }
    v
}
