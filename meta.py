#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json:  ./meta.py rewrites them."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
GP = ("Curved inputs are taken in general position: wherever two edges come close they cross at an angle above a fixed bound, "
      "decided from the input alone; the skipped cases are counted in the evidence.")
REAL = "Every case executes the real library code compiled from /repo's working tree; the reference is written without any code of the library."
COORD = "Input coordinates are finite; distinct vertices either coincide up to 1e-10 or lie at least 1e-6 of a unit apart; extents lie between 1e-3 and 1e5."


def prop(id, title, statement, over, text, why, files, mechanism, observe, runs, bound, assumptions, note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files,
                  mechanism=mechanism, observe=observe, runs=runs, bound=bound, assumptions=assumptions, note=note, technique=technique, state=state or []))


VATTI = ["src/src/vatti.cpp", "src/src/vatti.h", "src/src/processor.cpp", "src/src/segment.cpp", "src/src/scan_line.h", "src/src/rmath.cpp"]
EXH = "exhaustive enumeration of bounded input families on the real code (stateless model checking), explicit reference model as oracle"

prop("C01", "Boolean operations on straight-edged paths give the defined region",
     "For every set of subject and clip contours made of straight edges, every operation (intersection, union, difference, xor, none) and every fill rule, the region enclosed by the output is exactly the region that the fill rule and the operation define on the winding numbers of the inputs. This includes self-crossing, nested, touching, overlapping, collinear, horizontal, repeated-vertex and unclosed contours, at any position, rotation and scale.",
     ["inputs"], "all finite families of polygons enumerated below x 5 operations x 4 fill rules",
     "The two existing tests run one example and compare one drawing; the guarantee is over all polygon configurations, and sweep-line defects appear only in particular coincidences (shared edges, horizontals at the same level, three edges through one point).",
     VATTI, [dict(name="Vatti sweep: local minima, active edge list, intersections, horizontals, output rings", where="src/src/vatti.cpp"),
             dict(name="segment/segment intersection and breaking", where="src/src/rmath.cpp, clipper::process_intersect")],
     ["processor::process output"], [dict(harness="c01")],
     "all rectangle pairs on 3x3/4x4 grids, all triangle pairs on the 3x3 grid, all vertex sequences of length 4 (5 and 6 with the first vertex up to symmetry) on the 3x3 grid, rectangle triples, stacks, scalable schemes, skylines, coordinates equal only up to rounding, short edges; see families",
     [REAL, COORD, "Regions are compared on one scan line inside every slab between consecutive critical ordinates, with a tolerance of 1e-6 of the extent."],
     "Exhaustive within the listed families: every case is executed and compared with the winding-number model. Trusts the reference scan (geo.h).", EXH)

prop("C02", "Boolean operations on paths with cubic Bezier edges give the region",
     "For every set of subject and clip contours mixing straight edges and cubic Bezier curves in general position, every operation and every fill rule, the region enclosed by the output is the region that the fill rule and the operation define on the winding numbers of the inputs, up to the numerical precision of curve intersection. Identical and reversed copies of the same curves are included.",
     ["inputs"], "all curved families enumerated below x operations x fill rules",
     "The existing test clips one pair of drawings; curve defects depend on the number and order of crossings, on extrema and on where curves are split.",
     VATTI, [dict(name="y-monotone splitting, curve/curve and curve/line intersection, curved active edges", where="src/src/vatti.cpp, src/src/segment.cpp, src/src/rmath.cpp")],
     ["processor::process output"], [dict(harness="c02")],
     "12 curved shapes in all pairs, offsets, orientations and 11 affine maps; all one-cubic contours and two-cubic contours on the 3x3 grid; cubic pairs; chains, rings, waves, flowers by size (up to 70); extrema 0.0001..0.11 from a curve's end; straight edges written as cubics in all coinciding and touching positions",
     [REAL, COORD, GP, "Tolerance: 1e-6 of the squared extent in area and 2e-5 of the extent on any scan line; intervals shorter than 5e-6 of the extent are not judged."],
     "Exhaustive within the listed families; cases outside general position are counted, not judged (two recorded findings).", EXH)

prop("C03", "Output is a set of closed, connected, finite contours on the input lines",
     "Every result is a sequence of contours that each begin with a move, continue without gaps, end on their first point, contain only finite coordinates and at least one enclosed area's worth of edges, and run only along edges of the input, inside the input's bounding box; no two edges of a result run along each other, so there are no zero-width parts. The callback form and the path-list form deliver the same contours, and the path-list form appends to what the caller's list already holds.",
     ["inputs", "configurations"], "all line and curve families x operations x fill rules x both output forms",
     "Tests compare one rendered picture; protocol errors (missing move, gap, stray edge, clobbered output list) need particular ring topologies.",
     VATTI + ["src/src/path.cpp"], [dict(name="output ring building and traversal", where="src/src/vatti.cpp build_output, src/src/processor.cpp")],
     ["path_traverse_funcs callbacks", "paths output"], [dict(harness="c03")],
     "the families of C01 and C02", [REAL, COORD, GP],
     "Exhaustive within the listed families; both output forms compared element by element.", EXH)

prop("C04", "Output contours wind once and in one direction",
     "In every result the output's own winding number is 0 or 1 everywhere (0 or -1 under the negative fill rule), so outer boundaries run counterclockwise, holes clockwise, and the output gives the same region under every fill rule that keeps its sign. No part is covered twice and no hole is oriented like an outer boundary.",
     ["inputs"], "all line and curve families x operations x fill rules",
     "Tests look at one picture filled with one rule, where a wrongly oriented or doubled ring is invisible.",
     VATTI, [dict(name="ring orientation and edge pairing", where="src/src/vatti.cpp")], ["processor::process output"], [dict(harness="c04")],
     "the families of C01 and C02", [REAL, COORD, GP], "Exhaustive within the listed families.", EXH)

prop("C05", "A processor's result depends only on what was added to it so far",
     "Whatever sequence of adds and processes a processor has gone through, process reports the operation applied to all paths added so far, with their roles, and changes nothing: repeating it gives the same region, later adds extend the inputs, earlier operations or fill rules leave no trace. Two processors used in any interleaving do not influence each other.",
     ["histories"], "all sequences of up to 6 operations (7 thorough) over adds of several shapes to either side and processes with several parameters; all interleavings of two programs",
     "Tests use each processor once: one add of each role, one process.",
     ["src/src/processor.cpp", "src/src/vatti.cpp", "src/src/vatti.h"], [dict(name="clipper reset/initialisation per process, input ownership", where="src/src/processor.cpp, vatti::clipper::process/reset")],
     ["processor API"], [dict(harness="c05")],
     "all operation sequences to depth 6 (7), coinciding shapes to depth 5 (6), all 20 x 20 operation/fill successions over all 3x3-grid triangles and 8 clips, adds after processes, copies of cut curves added one by one, 300 (600) processes and 140 (300) adds on one processor, an exception at every callback, all 70 interleavings of 36 program pairs",
     [REAL], "Explicit-state: the model state is the multiset of added shapes; each history is replayed on the implementation and every process compared.",
     "exhaustive exploration of API histories against an explicit state model", [dict(name="added paths", meaning="the multiset of (contour, role) added so far", where="processor / clipper")])

prop("C06", "The result depends on the curves described, not on how they are written",
     "Rewriting the input without changing the curves it describes does not change the resulting region: starting a contour at another vertex, closing it explicitly, splitting edges at collinear points or curves at a parameter, writing an edge as a straight cubic, reordering contours or add calls, adding zero-length or degenerate contours, or feeding it through another input form. Swapping subject and clip changes nothing for symmetric operations, and reversing every contour changes nothing under even-odd and non-zero.",
     ["inputs", "histories"], "all families x operations x fill rules x 16 rewritings",
     "Tests use one way of writing one input.",
     VATTI + ["src/src/path.cpp", "src/src/river.cpp"], [dict(name="contour reading, implicit closing, vertex merging, local minima detection", where="src/src/vatti.cpp read_moveto/read_lineto/read_cubicto/end_read")],
     ["processor::process output"], [dict(harness="c06")], "the families of C01 and C02 with stated strides x 16 rewritings", [REAL, COORD, GP],
     "Exhaustive within the listed families: both forms are executed and the two result regions compared.", EXH)

prop("C07", "Path text is parsed exactly as the grammar says, for every string",
     "For every input string the parser builds exactly the elements of the longest well-formed command prefix: absolute m, l, c (and the accepted but ignored a) with their numbers read at full precision, in order, with any blanks; nothing is invented after malformed text, and no string makes it fail, hang or touch invalid memory.",
     ["inputs", "programs"], "all strings over small alphabets up to length 7 (8 thorough), all byte pairs in a document, all command sequences up to 6 (7), documents of every size to 3000, number spellings, all single edits",
     "Tests parse one or two literals.",
     ["src/src/river.cpp", "src/src/path.cpp"], [dict(name="boost::spirit grammar and its actions", where="src/src/river.cpp")],
     ["make_path"], [dict(harness="c07")], "all strings of length <= 7 (8) over 9 characters, all number strings of length <= 7 (8), all strings of length 4 (5) over 38 characters in 3 contexts, all byte pairs, all command sequences of length <= 6 (7) out of 12", [REAL, "The spellings inf and nan and numbers outside double's range are not judged."],
     "Exhaustive within the bounds against a hand-written reference parser.", "exhaustive enumeration of input strings against a reference grammar automaton")

prop("C08", "A path records its building calls faithfully and reports them in order",
     "Any sequence of move, line and curve calls on a path is reported by traversal exactly as issued: same elements, same order, bit-identical coordinates, each with the right current point, for every subset of callbacks supplied and with the caller's user pointer. Moving a path, storing paths in a growing list, or traversing repeatedly loses and changes nothing.",
     ["histories"], "all sequences of up to 7 building calls (8 thorough) x all 16 callback subsets",
     "Tests build one or two paths and never traverse with partial callbacks.",
     ["src/src/path.cpp", "src/include/river.h"], [dict(name="segment list and traverse", where="src/src/path.cpp")],
     ["path::traverse"], [dict(harness="c08")], "all sequences of <= 7 (8) building calls out of 9, 16 callback subsets; text documents; paths of every size to 3000 and around powers of two to 2^18", [REAL],
     "Exhaustive within the bounds against a list model.", "exhaustive exploration of API histories against an explicit state model")

prop("C09", "Segment/segment intersection is complete, unique and on both segments",
     "For every two segments the intersection query reports a point if and only if they cross or touch (for collinear overlaps: exactly the end points lying strictly inside the other), each once, with the point on both segments and both parameters in range and matching it. The answer does not depend on argument order or direction.",
     ["inputs"], "all segment pairs on the 6x6 grid under 10 affine maps, skewed far-apart configurations, all pairs of pieces of one line cut at points on it up to rounding",
     "No existing test calls it directly.",
     ["src/src/rmath.cpp"], [dict(name="intersect(vec2,vec2,vec2,vec2)", where="src/src/rmath.cpp")], ["rmath::intersect"], [dict(harness="c09")],
     "1679616 segment pairs x 10 maps; 2097152 skewed pairs; 531441 pairs of pieces of one line", [REAL], "Exhaustive within the bounds against exact integer arithmetic.", EXH)

prop("C10", "Segment/cubic intersection is complete, unique and on both",
     "For every segment and every cubic curve, every transversal crossing is reported exactly once (end points of either one lying on the other included), at most three in all, and every reported point lies on both with parameters in [0,1] that match it. It holds at any position, rotation, scale and direction.",
     ["inputs"], "all cubics on the 3x3/4x4 grids x all grid segments, oblique and axis-parallel segments, affine maps",
     "No existing test calls it directly.",
     ["src/src/rmath.cpp"], [dict(name="intersect(line, bezier_cubic) and the cubic solver", where="src/src/rmath.cpp")], ["rmath::intersect"], [dict(harness="c10")],
     "472392 grid cases x 4 maps, up to 3932160 oblique x 3, 59778 axis-parallel x 3", [REAL, "Tangential and nearly tangential contacts may be reported or not."],
     "Exhaustive within the bounds against roots isolated in extended precision.", EXH)

prop("C11", "Cubic/cubic intersection is complete, unique and on both curves",
     "For every two cubic curves whose contacts are all transversal and apart, every crossing in their interiors is reported exactly once (up to nine; twice where one curve passes the same point twice), and every reported point lies on both curves with parameters in [0,1] that match it. The answer does not depend on the argument order.",
     ["inputs"], "all cubics on the 3x3 grid against skewed cubics, S curves at all angles and offsets, curves through the other's node, chained curves, both argument orders",
     "No existing test calls it directly.",
     ["src/src/rmath.cpp"], [dict(name="subdivision with bounding boxes, merging, polishing", where="src/src/rmath.cpp intersect(bezier_cubic, bezier_cubic)")], ["rmath::intersect"], [dict(harness="c11")],
     "grid pairs (4782969 thorough), S curves, Chebyshev graphs with up to nine crossings, curves through or beside the other's node, chained pairs, both orders; counts in the evidence", [REAL, "Pairs that touch, overlap or cross at less than 0.04 rad, or whose crossings agree to 1e-3 in one parameter and to 0.02 in the other, are counted and not judged."],
     "Exhaustive within the bounds against crossings isolated by subdivision and Newton iteration.", EXH)

prop("C12", "Bezier evaluation, splitting, extrema and bounds agree with the curve",
     "For every cubic curve, evaluation, splitting at one or several parameters, the vertical-extremum parameters, the bounding box, the parameters at a height and the circle approximation all agree with the curve's definition: pieces retrace the curve and join exactly, extrema are ascending, inside (0,1) and cut the curve into monotone pieces, the box contains the curve and is tight, and every height inside, the start's included, is found.",
     ["inputs"], "all cubics on 3x3 grids under 10 affine maps, on the 4x4 grid, all quadruples of 13 ordinates; all split sets up to 4 parameters",
     "No existing test calls these directly.",
     ["src/src/rmath.cpp", "src/include/rmath.h"], [dict(name="bezier_cubic members", where="src/src/rmath.cpp")], ["rmath::bezier_cubic"], [dict(harness="c12")],
     "6561 cubics x 10 maps, all cubics on the 4x4 (6x6) grid from a corner or edge, 28561 x 2, 588 circles; 98 split sets, 19 heights, 21 parameters each", [REAL], "Exhaustive within the bounds against extended-precision evaluation.", EXH)

prop("C13", "The equation solvers return every real root once and nothing else",
     "For every quadratic and cubic equation with coefficients of ordinary size, degenerate leading coefficients included, the solvers return each well-separated real root exactly once, accurate to about 1e-7, at most degree many, and never a value that is not a root. Double and triple roots of exactly represented polynomials are returned once.",
     ["inputs"], "all integer coefficient and integer root combinations in the stated ranges, spread coefficients",
     "No existing test calls them directly.",
     ["src/src/rmath.cpp"], [dict(name="resolv_quad_equa, resolv_cubic_equa", where="src/src/rmath.cpp")], ["rmath::resolv_quad_equa", "rmath::resolv_cubic_equa"], [dict(harness="c13")],
     "50625 (194481) + 226981 coefficient tuples, 93750 (413526) + 242406 root tuples x leading coefficients, 93750 one-real-root, 50625 spread, 35937 unit", [REAL],
     "Exhaustive within the bounds against exact roots and extended-precision isolation.", EXH)

prop("C16", "Geometric helpers compute what their descriptions say",
     "Rectangles, vectors, arcs, angle clamping, point-line distance, projection tests and the general line form return the exact geometric value for every argument, degenerate ones included: bounding rectangles are tight and their overlap test is symmetric and closed, clamped angles lie in [0, 2 pi), distances are to the infinite line, projections respect both ends, and reversing an arc swaps its ends and negates its sweep.",
     ["inputs"], "all argument tuples on small integer grids under affine maps",
     "No existing test calls these directly.",
     ["src/include/rmath.h", "src/src/rmath.cpp"], [dict(name="rect, vec2, arc, line, clamp_0_2pi, dist2_point_line, point_project_in_segment", where="src/include/rmath.h, src/src/rmath.cpp")], ["rmath API"], [dict(harness="c16")],
     "65536 point quadruples, 10000 rectangle pairs, 4096 point/line triples x 10 maps, 24006 angles, 2401 vector pairs, 39000 arcs", [REAL], "Exhaustive within the bounds against exact arithmetic.", EXH)

exec(open(os.path.join(V, "meta_more.py")).read()) if os.path.exists(os.path.join(V, "meta_more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in P:
        o.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
json.dump({p["id"]: dict(runs=p["runs"], bound=p["bound"], assumptions=p["assumptions"]) for p in P}, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "checks": [dict(property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P],
           "not_applicable": NA if "NA" in globals() else [],
           "notes": "No hooks: the harnesses use the public headers only and compile /repo's sources themselves (build.sh). Generated by meta.py."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
