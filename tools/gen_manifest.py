#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "model_checking"; FE = "fault_enumeration"
T = {
 "C01": (MC, "exhaustive enumeration of rings, cuttings, rotations and directions on the real code against exact integer arithmetic", "All rings of up to 6 points on small lattices and up to 4 on boundary-value coordinates of the u32 range; every cutting into edges."),
 "C02": (MC, "exhaustive enumeration of labelled planar maps and their presentations on the real builder, retraced against the input", "All labellings of square and triangle complexes of up to 16 faces with up to 4 regions, in several presentations."),
 "C03": (MC, "exhaustive enumeration of labelled planar maps; edge/ring incidence compared with the face complex", "Same family of maps, as built and as normalized."),
 "C04": (MC, "bounded exploration of all operation histories (build, normalize, simplify, clip, move) on the real code under an always-moving, poisoning allocator", "All histories up to depth 3-4 from all small maps; pointers judged by address against the owning topology."),
 "C05": (MC, "exhaustive enumeration of labelled planar maps; outlines compared with the boundary chain of the labelled faces", "Coverage is decided exactly (as 1-chains), not by sampling points."),
 "C06": (MC, "exhaustive enumeration of labelled planar maps; normal form decided from the face complex", "Every documented normal-form rule on every map."),
 "C07": (MC, "exhaustive enumeration of maps x presentations and repeated application; equality of canonical results", "All rotations, directions (all subsets up to 4 rings), ring orders, and splits into pieces where allowed."),
 "C08": (MC, "explicit-state model of Visvalingam elimination with all tie-breaks; the implementation must end in a model final state, for all enumerated edges and all relevant thresholds", "The model's final-state set is compared with the implementation on every trace; edges up to 14 (patterned: 100) points."),
 "C09": (MC, "exhaustive enumeration of maps (built, normalized, clipped) x thresholds on the real code", "Structure, subsequence, minimum and independence of edges on every case."),
 "C10": (MC, "exhaustive enumeration of paths x masks against a reference automaton with exact rational crossings", "All paths up to 5 points on lattices, up to 3 on boundary values of the u32 range, all mask kinds and positions."),
 "C11": (MC, "exhaustive enumeration of maps x masks; coverage compared as boundary chains of the cut faces", "Exact where crossings are integers, otherwise exact modulo reading the (bounded) rounded crossing points off the result."),
 "C12": (MC, "exhaustive enumeration of maps x rectangles x orders of four clips x interleaved normalizations", "All 24 orders, repeats and widenings, coverage checked after every step."),
 "C13": (MC, "exhaustive enumeration of small .shp files and inconsistent records from a reference writer", "Values compared bit for bit with what was written."),
 "C14": (MC, "exhaustive enumeration of field lists, words and bytes in .dbf files from a reference writer", "Every byte in every field type, all short words over a number alphabet, twenty encodings, every open function."),
 "C15": (MC, "exhaustive enumeration of pairs of good/bad record sequences and of file states for open()", "All pairs of sequences up to the bound; pairing decided by unique payloads."),
 "C16": (FE, "exhaustive fault enumeration on file contents: every truncation, every single-byte value, boundary-value combinations of length fields, under a counting allocator", "No panic, bounded number of items, bounded peak memory on each."),
 "C17": (FE, "exhaustive enumeration of byte-source behaviours: every split, interruption point, failure and end of data", "Sequence of items compared with the undisturbed read."),
 "C18": (MC, "exhaustive enumeration of bounding boxes x coordinates and of small rings against exact arithmetic", "Floating-point results bounded by exact rational positions."),
 "C19": (MC, "bounded exploration of all operation histories, each re-executed under other hash seeds and forced address orders; equality of all intermediate topologies", "Hash seeds are varied, not enumerated; address order is forced both ascending and descending."),
 "C20": (MC, "exhaustive enumeration of labelled maps written as shapefile pairs through the whole pipeline x masks", "Coverage per record decided as boundary chains; attributes by unique payloads."),
 "C21": (FE, "exhaustive fault enumeration: every failure position x error kind of both sources, every corrupted byte, every file state; variant, kind, cause and text of each error compared with the fault", "Error variants are judged against the injected fault; wording is not."),
 "C22": (MC, "exhaustive enumeration of small values of every printable type against a reference printer", "Texts compared exactly; .shp numbers also read back bit for bit."),
 "C23": (MC, "exhaustive enumeration of input shapes (all periodic maps of small tiles, listed shapes) x operations x sizes on the real code, monitored by exact instruction and allocation counts", "Cost = machine instructions counted by callgrind and peak bytes counted by the allocator: deterministic, no clock. Growth is judged between the stated sizes only."),
 "C24": (MC, "bounded exploration of all operation histories x all orders of dropping what they produced x all failing copies, with region data and byte sources that register every copy and drop and an allocator that counts", "Live data and sources compared with what is held after every step; bytes outstanding compared before and after."),
 "C26": (MC, "stateless model checking of the implementation: all schedules of two threads with one or two stops at scheduling points (allocation, release, copy, call-back) under the harness's scheduler, and all call-backs with a nested call", "Each result compared with the same task run alone."),
 "C25": (MC, "exhaustive exploration of all interleavings of steps (next, next region, nth, look-ups) on two readers over good, damaged and mismatched files, against reading each straight through", "Items, fields, kept records and promised counts compared at every step."),
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {k}",
    evidence_file=f"evidence/{k}.json", technique=t, level=l,
    level_note=n + " Bounded: nothing is claimed outside the enumerated spaces listed in the evidence file. Trusts the harness's reference model and the installed rustc.") for k, (l, t, n) in T.items()]
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
    notes="No hooks in /repo: everything the checks need is public. The harness crate mc/ is rebuilt from /repo's working tree by every check.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
