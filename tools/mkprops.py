#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
I='include/poly_ops/'
p('C01','Boolean operations produce exactly the requested region',
 "For every set of subject and clip polygons, a point that lies on no input edge is inside the result of a union, intersection, exclusive-or, difference or normalize exactly when the documented combination of the two inputs' winding numbers says so. When every pairwise edge crossing falls on integer coordinates (and products of coordinate differences fit the mantissa of the real type) the result is exact; otherwise it may deviate only near input edges, by the rounding of crossing points to integers. The answer does not depend on the order in which loops, or points within a loop (rotation), were supplied.",
 ['inputs'],'all integer polygons (any number of loops, overlapping, touching, collinear, self-intersecting), all five operations',
 'The bitmap tests use a handful of pictures and misc_tests a few shapes; coincident edges, shared vertices, vertical edges and touching loops occur in combinations no sample covers.',
 [I+'clip.hpp'],[('line_balance::result decides which lines are kept',I+'clip.hpp'),('self_intersection splits lines',I+'clip.hpp'),('follow_balance / do_op rejoin the kept lines',I+'clip.hpp')],
 ['boolean_op()/union_op()/normalize_op() return value'])
p('C02','Output lines never cross',
 "No two line segments of a result cross: they may share end points or overlap completely, but otherwise the interior of one output segment never contains a point of another output segment, be it an end point or a point of its interior. This holds even though crossing points are rounded to integers, and however each of those roundings goes.",
 ['inputs','schedules'],'all integer polygons, all operations, every sequence of rounding decisions of the intersection coordinates',
 'The white-box test samples random shapes with the default seed; a crossing created by rounding needs a specific near-degenerate arrangement together with a specific rounding choice.',
 [I+'clip.hpp'],[('modified Bentley-Ottmann sweep re-checks segments after every split, with backtracking of the event queue',I+'clip.hpp'),('intersects() rounds randomly and reports rounded points',I+'clip.hpp')],
 ['output loops of execute()'])
p('C03','Output loops are well formed and correctly oriented',
 "Every loop of a result has at least three points, no two consecutive points are equal, and its iterator yields exactly the number of points its size reports. Following the documented orientation, loops that bound the filled area from outside are clockwise and loops that bound holes are counter-clockwise, so that the winding number of the result is zero or one everywhere.",
 ['inputs'],'all integer polygons and operations',
 'Tests compare a few expected loops; zero-length lines and two-point loops appear only for touching, collinear or duplicated geometry.',
 [I+'clip.hpp'],[('greatest clockwise turn when rejoining lines',I+'clip.hpp'),('find_loops collects loops and their sizes',I+'clip.hpp'),('keep_rev reversal',I+'clip.hpp')],
 ['loop proxies of execute() output: size(), begin()/end()'])
p('C04','Tree output nests loops correctly and fills the same region',
 "When the result is requested as a hierarchy, every loop appears exactly once, each top-level loop is an outer boundary, the children of a loop are exactly the loops immediately enclosed by it (so levels alternate between boundary and hole, and loops of the same parent do not overlap), and the region described is that of the flat output of the same input.",
 ['inputs'],'all integer polygons and operations, any nesting depth and any loop order',
 'One nesting test with fixed squares; the hierarchy depends on which loops happen to lie above each sampled point.',
 [I+'clip.hpp'],[('loop_hierarchy / arrange_loops',I+'clip.hpp'),('anchor points keep sampled lines identifiable',I+'clip.hpp')],
 ['execute<true>() output and inner_loops()'])
p('C05','Redundant and degenerate input never changes the result',
 "Repeating a point any number of times in a row anywhere in a loop (including across its end), repeating the first point at the end, or adding loops with fewer than three distinct consecutive points leaves the result of every operation unchanged, and each loop is interpreted independently of the loops added before and after it.",
 ['inputs','histories'],'all input loops, positions and counts of repetitions, loops of zero, one or two distinct points, added before, between or after other loops through ranges or a point sink',
 'No test feeds repeated points or degenerate loops.',
 [I+'clip.hpp'],[('point_sink drops consecutive duplicates and short loops',I+'clip.hpp')],
 ['clipper::add_loop / add_loops, then execute'])
p('C06','A reused clipper behaves like a new one',
 "After any history of added loops, executed operations and resets, adding polygons to the same clipper object and executing gives the same result as doing so with a newly constructed one; results of an earlier operation never leak into a later one.",
 ['histories'],'all sequences of add, execute (any operation, flat or tree) and reset on one object',
 'Each existing test uses a clipper once or twice in one fixed order.',
 [I+'clip.hpp'],[('clipper::reset and the ran flag',I+'clip.hpp'),('do_op clears per-operation state',I+'clip.hpp')],
 ['clipper::execute output after reuse'],
 [('ran','an operation has consumed the input',I+'clip.hpp')])
p('C07','Point tracking reports every output point\'s true origins',
 "The tracking callbacks describe the points of an operation completely and in a usable order: every index mentioned was created before, points created between two existing points lie on the line joining them (up to rounding), merged points and output points are existing points and a point that was merged away is not used again, and every output point is either an input point at its input location or was created as an intersection. Points of ignored loops and repeated points are not reported and each reported original index is the index the caller gave that point.",
 ['inputs','histories'],'all input polygons and operations, default or caller-chosen original indices',
 'Tests only check a few offset shapes for original indices.',
 [I+'clip.hpp',I+'offset.hpp'],[('i_point_tracker calls in point_sink, split_segment, follow_balance',I+'clip.hpp')],
 ['i_point_tracker implementations passed by the user'])
p('C08','Winding direction and orientation are exact',
 "The winding direction of a polygon has the sign of its exact signed area (positive when clockwise in the documented axis convention, zero when the area is zero), whichever point the list starts from, and the orientation of a triangle is its exact cross product: for a triangle whose coordinate differences are representable, and for a polygon whose coordinates use at most a quarter of the type's range, no intermediate result overflows.",
 ['inputs'],'all coordinates of the supported range for the 16-, 32- and 64-bit coordinate types, all polygons and starting points',
 'Overflow needs coordinates far larger than any test uses.',
 [I+'base.hpp'],[('winding_dir / winding_dir_sink / triangle_winding computing in the doubled-width type',I+'base.hpp')],
 ['return values of winding_dir() and triangle_winding()'])
p('C09','Segment intersection decisions are exact and rounding stays within one unit',
 "Two segments are reported as intersecting exactly when they share a point that is not just a common vertex of adjacent lines (two collinear segments count only when they overlap in more than an end point), for any coordinates whose differences are representable; the reported location is the true shared end point when there is one, and otherwise each coordinate is the exact crossing rounded down or up to a neighbouring integer (for coordinates whose products fit the mantissa of the real type; beyond that, within the rounding error of the real type). End-of-segment flags agree with the reported location and swapping the two segments or their directions does not change whether they intersect.",
 ['inputs'],'all pairs of non-degenerate segments including parallel, coincident, touching and adjacent ones, both rounding decisions per axis',
 'Predicates are only exercised through small shapes; wrong signs show up only in rare degenerate classes or at large magnitudes.',
 [I+'clip.hpp'],[('intersects / intersects_parallel',I+'clip.hpp')],
 ['segment intersection test used by the sweep'])
p('C10','Upward-ray counting crosses each boundary exactly once',
 "The ray test that decides how many lines lie above a line counts a boundary exactly once wherever it passes above the chosen line, including when the ray runs through vertices, along vertical lines, or through coincident lines (for which the two lines of a pair are always ordered consistently, never both above or both below each other). The combined test of two lines from one point gives the same answers as two separate tests.",
 ['inputs'],'all segments and ray origins with coordinates whose differences are representable, all neighbouring-line directions and tie-breaking orders',
 'Vertex hits, vertical lines and coincident lines are a measure-zero set of inputs that tests meet by accident only.',
 [I+'clip.hpp'],[('line_segment_up_ray_intersection, lower_angle, vert_overlap',I+'clip.hpp'),('dual_line_segment_up_ray_intersection',I+'clip.hpp')],
 ['line balance computed for a line'])
p('C11','Sweep and event orders are consistent total orders',
 "The order of sweep events is a strict total order by position, then kind, then identity. For any set of segments that simultaneously meet a vertical sweep position without crossing before it, the vertical order of segments is a strict total order (irreflexive, asymmetric, transitive, never undecided for different segments) that agrees with their geometric position.",
 ['inputs'],'all event pairs and triples; all pairs and triples of pairwise non-crossing segments with a common x range whose coordinates differ by representable amounts',
 'An inconsistent comparison only misplaces a segment when particular triples meet in the tree.',
 [I+'clip.hpp'],[('sweep_cmp',I+'clip.hpp'),('event_cmp',I+'clip.hpp')],
 ['ordering functors'])
p('C12','The event queue delivers every event once, in order, with exact backtracking',
 "The sweep event queue always holds its events sorted, including events added during the sweep. When new events sort before the current position the queue first walks back over exactly the events after the insertion point, in reverse order, before moving forward again, so that a consumer that undoes on backward steps and redoes on forward steps sees every live event applied exactly once in sorted order.",
 ['histories','inputs'],'all initial event sets and all sequences of additions during the sweep',
 'The queue is only exercised through whole clip operations; a wrong insertion index needs several new events landing at particular positions.',
 [I+'clip.hpp'],[('events_t::next / incorporate_new',I+'clip.hpp')],
 ['sequence of values returned while iterating'])
p('C13','The sweep tree stays a sorted, balanced, complete set',
 "After any sequence of insertions and removals the sweep set contains exactly the inserted, not yet removed elements; iterating forwards or backwards visits them in order; lookups, neighbours, and the results of insert and erase agree with a sorted list; and the red-black balancing rules hold so that operations stay logarithmic.",
 ['histories'],'all sequences of insert, erase (by index, value, iterator), find, unique and clear, all key orders',
 'No unit test targets the set; rebalancing bugs need deletion sequences that small clips do not generate.',
 [I+'sweep_set.hpp',I+'rbtree_algorithms.hpp'],[('rbtree_algorithms insert/erase rebalancing with the root in element 0',I+'rbtree_algorithms.hpp'),('sweep_set wrappers',I+'sweep_set.hpp')],
 ['sweep_set public interface'],[('index-based nodes','left/right/parent/colour packed in node',I+'sweep_set.hpp')])
p('C14','Small flat sets behave as sets in every size regime',
 "The compact sets used to record original point indices behave as mathematical sets: after any sequence of inserting, merging, copying, moving and assigning, a set contains exactly the values put in, each once, in order, its size matches, and after merging, the source is still a valid set that holds no foreign values, whichever internal representation the size implies. Collections of such sets keep them independent of each other.",
 ['histories','inputs'],'all sequences of operations and all values',
 'Only sets of the sizes that a few offset tests produce are ever built; the transitions between representations are not tested.',
 [I+'mini_flat_set.hpp'],[('inline value for size one, heap array with capacity otherwise',I+'mini_flat_set.hpp')],
 ['mini_flat_set public interface'])
p('C15','Large integer addition, subtraction, negation and comparison are exact',
 "For multi-word signed and unsigned integers of every word count, addition, subtraction, negation, absolute value and increments give the mathematically exact result modulo the width with carries and borrows propagated through every word, and comparisons and equality agree with the mathematical order for mixed word counts, signedness and built-in operands. The results are the same with and without compiler extensions.",
 ['inputs','configurations'],'all operand values of one to four words (full 64-bit words), signed/unsigned/mixed sizes, built-in operands, all compile-time configurations',
 'The tests use fixed values and 1000 uniformly random pairs, which practically never hit carry chains through all-ones words.',
 [I+'large_ints.hpp'],[('add/sub carry chains, _addcarry/_subborrow',I+'large_ints.hpp'),('compare / eq',I+'large_ints.hpp')],
 ['operators of compound_int and large_ints::add/sub/cmp'])
p('C16','Large integer multiplication is exact',
 "The product of any two signed or unsigned one- to several-word integers is the exact mathematical product modulo the width of the result type, whichever of the operands is wider, negative, minimal or built-in, in every compile-time configuration.",
 ['inputs','configurations'],'all operand values; word counts 1 to 3; extension and no-extension builds',
 'Random uniform operands rarely exercise partial-product carries; fixed cases are few.',
 [I+'large_ints.hpp'],[('mul / mul1x1 / multi_mul',I+'large_ints.hpp')],
 ['large_ints::mul and operator*'])
p('C17','Large integer division satisfies the division identity',
 "Dividing any one- to several-word integer by any non-zero integer yields quotient and remainder with dividend = quotient*divisor + remainder and a remainder smaller in magnitude than the divisor: truncated division gives the remainder the sign of the dividend, and the flooring variant gives the largest integer not above the exact quotient and, as remainder, the distance of quotient*divisor from the dividend, which is zero exactly when the division is exact. The combined multiply-then-divide operation gives the same as multiplying exactly and dividing.",
 ['inputs','configurations'],'all dividends and non-zero divisors whose quotient is representable, mixed word counts and signs, all compile-time configurations',
 'Exact divisions with operands of different sign, quotient digits that need correction and single-word divisors are rare under random sampling, and flooring division is tested on four value pairs.',
 [I+'large_ints.hpp'],[('divmod, unmul, quot_rem with sign handling',I+'large_ints.hpp')],
 ['large_ints::divmod / divmod_euclid / unmul / unmul_euclid, operators / and %'])
p('C18','Large integer shifts, bit operations and conversions are exact',
 "Shifting a multi-word integer by any amount smaller than its width equals multiplying or floor-dividing by the power of two; conversions to and from built-in integers of any width preserve the value (modulo the width when narrowing, sign-extended when widening); and conversion to floating point is the nearest value up to rounding, with the right sign. Truth value, sign tests and leading-bit queries agree with the value.",
 ['inputs','configurations'],'all operand values and shift amounts below the width, word counts 1 to 4, signed and unsigned, all compile-time configurations',
 'Fixed shift amounts and a few values; conversions of three-word and 128-bit values are never exercised.',
 [I+'large_ints.hpp'],[('shift_left / shift_right, detail::cast, to_float, constructors',I+'large_ints.hpp')],
 ['operators <<, >>, conversion operators'])
p('C19','Offsetting moves every boundary by exactly the requested distance',
 "Outsetting or insetting moves each straight edge along its normal by the given magnitude, with corners covered by arcs whose points all lie at that distance (to within rounding) from the original corner and never further apart than the arc step allows, so that the result of offsetting axis-aligned shapes is the exact expanded or shrunk shape apart from corner rounding; a shape too small to be inset vanishes. Open lines, closed loops and lone points are covered alike, and no input, however degenerate, yields invalid points.",
 ['inputs'],'all closed and open polylines with any number of points (zero, one, two, repeated or collinear), all magnitudes of either sign, all arc step sizes',
 'misc_tests checks a handful of shapes and magnitudes.',
 [I+'offset.hpp',I+'base.hpp'],[('add_offset_loop, offset_join, add_offset_point, add_fill arcs, offset_lone_point',I+'offset.hpp')],
 ['add_offset(), clipper output'])
p('C20','Offset points keep the original indices of the points they came from',
 "When offsetting with origin tracking, every generated point is attributed to the index of the input point(s) whose edge or corner produced it, indices count every input point as given including repeated ones, and after a loop is added the next index continues after its last point; the resulting origin sets contain no other indices.",
 ['inputs','histories'],'all closed and open polylines, repeated points at any position, several loops in sequence',
 'Only loops without repeated points are tested and never the continuation across loops.',
 [I+'offset.hpp',I+'mini_flat_set.hpp'],[('orig indices threaded through add_offset_loop and origin_point_tracker',I+'offset.hpp')],
 ['origin indices of output points'])
p('C21','Strided views address exactly the described elements',
 "A strided iterator or range over a buffer visits exactly the elements at the given byte strides: increments, decrements, arithmetic, differences, comparisons, indexing, distance and size agree with ordinary pointer arithmetic on the sequence of elements, for every non-zero stride and for forward and random access use.",
 ['inputs','histories'],'all strides (including negative and larger than the element), offsets and lengths',
 'No C++ test uses it; the Python layer only exercises contiguous arrays.',
 [I+'strided_itr.hpp'],[('strided_itr, strided_range',I+'strided_itr.hpp')],
 ['iterator and range operators'])
p('C22','Rasterised spans cover exactly the pixels inside the polygon',
 "Rasterising polygons yields, for every scan line, spans in increasing x order whose winding numbers equal the winding number of the polygons at those positions, clipped to the image width and height; applying a fill rule selects exactly the pixels the rule defines, and geometry outside the image never affects pixels it does not cover.",
 ['inputs'],'all integer polygons, including horizontal and vertical lines, shared vertices, crossing lines, negative coordinates and geometry outside the image; all fill rules and image sizes',
 'Used only as a helper of the bitmap tests on shapes inside the image.',
 [I+'polydraw.hpp'],[('rasterizer scan_line_sweep_state',I+'polydraw.hpp'),('x_intercept / intersects / fraction arithmetic',I+'polydraw.hpp')],
 ['draw() spans passed to the caller'])
p('C23','Clipping terminates and is memory safe for every input',
 "For every supported input, adding polygons, executing any operation and reading any form of the output terminates, reads no uninitialised or out-of-bounds memory, and triggers no undefined arithmetic or internal inconsistency.",
 ['inputs','histories'],'all integer polygons whose coordinate differences are representable, all operations, every rounding decision',
 'The sanitiser-free test builds would not notice, and degenerate inputs are not tested.',
 [I+'clip.hpp',I+'offset.hpp',I+'sweep_set.hpp'],[('assertions on internal consistency',I+'clip.hpp'),('backtracking event loop',I+'clip.hpp')],
 ['process state during clipper use'])
p('C24','Python binding returns the same results as the C++ library',
 "The Python functions return for every supported input (lists, arrays, any integer dtype and stride) the polygons the C++ library computes, report conversion errors as exceptions and keep returned arrays valid as long as they are referenced.",
 ['inputs','histories'],'all Python inputs accepted by the buffer protocol and array interface',
 'Unit tests cover a few shapes and one dtype.',
 ['py/_polyops.pyx'],[('Cython wrappers',"py/_polyops.pyx")],['Python API'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
