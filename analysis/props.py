"""The properties: statement, quantifier, anchors, and how each is decided."""
C = 'workspace/boostvoronoi_core/src/'
X = 'workspace/boostvoronoi_ext/src/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})
    if na:
        d['na'] = na
    else:
        d['technique'] = technique
        d['level_note'] = note
    PROPS.append(d)


GVN = 'static analysis: global value numbering over rustc MIR (gated joins, callees inlined) compared with a specification in the same value-number domain'
EFF = 'static analysis: effect analysis over the call graph of the type-checked program'
NOTE = 'decided for every input from the MIR of the current tree; no execution. Library calls have transfer functions; floating-point operations are identified with their real formulas; code the engine cannot summarise is reported as undecided in the evidence, not as a violation'

P('C07', 'Lookups by id are total: unknown ids give an error, never a panic',
  'Every public operation of a diagram or its thread-safe form that takes an edge, vertex or cell id (plain or optional) never panics; given an id the diagram does not contain it reports an error or none and changes nothing. Given a contained id, element getters return the element stored under that id, and the element counts equal the number of stored elements.',
  ['inputs', 'histories'], 'every diagram, every id value (in range or not), every public id-taking method',
  'Tests only use ids that the diagram itself handed out; the claim is about all other ids and all diagrams.',
  [C + 'diagram.rs', C + 'sync_diagram.rs'],
  [('bounds-checked lookups', 'diagram.rs: get_edge/get_cell/vertex_get and the *_ helpers'), ('id to slot mapping', 'sync_diagram.rs: edge_get/vertex_get/cell_get')],
  GVN + '; satisfiability of panic guards', NOTE)

P('C10', 'Navigation queries are the defined compositions of stored links',
  'On a diagram and its thread-safe form alike, the far end of an edge is the near end of its twin, the counter-clockwise neighbour around the start vertex is the twin of the previous edge, the clockwise one is the next edge of the twin, and an edge is finite exactly when both its ends exist (infinite otherwise). The twin, next, previous, cell and start-vertex queries return the link stored in the edge itself.',
  ['inputs', 'histories'], 'every link structure (any diagram), every edge id',
  'Tests compare a handful of diagrams; the definitions must hold on every link structure, including edges with missing links.',
  [C + 'diagram.rs', C + 'sync_diagram.rs'],
  [('edge queries', 'diagram.rs: edge_get_*, edge_rot_*, edge_is_finite/infinite'), ('edge queries', 'sync_diagram.rs: edge_get_*, edge_rot_*, edge_is_finite/infinite')],
  GVN, NOTE)

P('C09', 'Colours keep to their own bits and to their own element',
  'Edges and vertices hold a user colour of 27 bits above five internal bits. Setting a colour stores its low 27 bits, or-ing adds them, reading gives them back; the internal bits and all other fields stay. Linear/curved, primary/secondary and site-point answers depend on one internal bit each, curved and secondary are the negations of linear and primary. A cell with internal bits 0, 1, 2, 8 or 9 reports the category single point, segment start, segment end, segment, segment, agrees with its contains_* queries, and is degenerate exactly if it has no incident edge. The colour functions of a diagram change the element with the given id only. color_exterior_edges starts at every edge lacking one of its vertices, at no other, and only if the colour has a storable bit. At each edge reached: if the edge already has a bit of the colour nothing happens; otherwise the edge gets the colour; if it has a start but no end vertex it stops; otherwise its twin gets the colour; if the edge is primary and its end vertex is not a site, that vertex is set to the colour and every edge around it is reached.',
  ['inputs', 'histories'], 'every stored word, every colour value, every diagram whose edges have a known twin other than themselves',
  'There are 2^32 colours and as many stored words, and colouring is a recursion over any diagram; tests use colour 1 or 2 on a few diagrams.',
  [C + 'diagram.rs'],
  [('colour bits', 'diagram.rs: ColorBits, Edge/Vertex get_color/set_color/or_color'), ('categories', 'diagram.rs: Cell::source_category, contains_*'), ('exterior colouring', 'diagram.rs: color_exterior_edges')],
  GVN + '; words are compared bit by bit', NOTE)

P('C13', 'The result is a function of the input alone',
  'Building a diagram, querying it and converting it involves no source of nondeterminism: no clock, randomness, environment, thread, address or hash-seed dependent value can reach the code that public operations run. Two runs on the same input therefore produce the same diagram.',
  ['inputs', 'schedules', 'configurations'], 'every input, every process and environment, every public entry point',
  'Each test runs once in one process; nondeterminism shows only across runs and environments.',
  [C + 'builder.rs', C + 'circle_event.rs', C + 'beach_line.rs', C + 'visual_utils.rs', C + 'diagram.rs'],
  [('deterministic containers', 'builder.rs: Vec, BinaryHeap and the beach-line list'), ('total order of circle events', 'circle_event.rs: Ord for CircleEvent')],
  EFF, 'effects are decided by a deny list of standard-library entry points over an over-approximated call graph; dependencies other than std are trusted')

P('C14', 'Building and querying is silent and self-contained',
  'No public operation other than reading an input file performs console, file, network, process or thread operations, or reads or changes state outside the values it is given. Building diagrams on several threads at the same time therefore cannot interfere.',
  ['inputs', 'schedules', 'configurations'], 'every public operation of the library, every input',
  'Test harnesses capture output and run in one environment; no test observes console output or global state.',
  [C + 'builder.rs', C + 'beach_line.rs', C + 'diagram.rs', C + 'file_reader.rs'],
  [('no output in release paths', 'lib.rs: t!/tln! macros compile to nothing')],
  EFF, 'effects are decided by a deny list of standard-library entry points and statics over an over-approximated call graph; dependencies other than std are trusted')

P('C01', 'Point sites go in before segment sites',
  'A builder accepts points, in any number of calls, until segments have been added. Once segments were added, even an empty list of them, adding points is refused with the vertices-go-first error, whatever the points are. Adding segments is never refused by the builder. Neither call panics.',
  ['inputs', 'histories'], 'every sequence of builder calls, every list of points and segments',
  'The guarantee is about all call histories, including empty lists and repeated calls; tests try one refused order at most.',
  [C + 'builder.rs'], [('input methods', 'builder.rs: with_vertices, with_segments')],
  GVN + '; the refusal guard is evaluated on the summaries of the preceding operations', NOTE)

P('C02', 'Every input object is recorded once, numbered in input order',
  'Each accepted point adds exactly one site, a single point at its coordinates. Each accepted segment with distinct ends adds exactly three sites: its start point, its end point and the segment itself, stored from its lexicographically smaller end and marked as the forward or reversed orientation of the input; a segment whose ends coincide adds exactly one single segment-start point. All sites of one object carry the number of that object; the numbers count all objects from zero in the order they were given, across calls.',
  ['inputs', 'histories'], 'every input list of every length and every builder history, every pair of segment ends',
  'Tests use small fixed inputs; the statement is about each object of arbitrary lists, including degenerate and reversed segments.',
  [C + 'builder.rs', C + 'site_event.rs'], [('insertion loops', 'builder.rs: with_vertices, with_segments')],
  GVN + '; the insertion loops are decided by their per-iteration summaries', NOTE)

P('C11', 'Edge iterators follow one link from the start edge and stop on return',
  'An edge iterator yields its start edge first and then, for each edge, the edge one link further: the next edge of the same cell for cell iterators, the next counter-clockwise or clockwise edge around the same vertex for rotation iterators, on diagrams and on their thread-safe form. It ends when the link is missing or leads back to the start edge, and stays ended. A cell iterator starts at the incident edge of the cell and is empty if there is none; a rotation iterator of no edge is empty.',
  ['inputs', 'histories'], 'every link structure, every start edge or cell id, any number of calls',
  'Tests walk a few rings of valid diagrams; the law is about every link structure and every number of calls.',
  [C + 'diagram.rs', C + 'sync_diagram.rs'],
  [('iterators', 'diagram.rs: EdgeNextIterator, EdgeRotNextIterator, EdgeRotPrevIterator'), ('iterator', 'sync_diagram.rs: EdgeRotNextIterator')],
  GVN + '; induction over calls by the one-step summary on an arbitrary iterator state', NOTE)

P('C22', 'Geometry conversions keep every coordinate in its place',
  'Converting between the own point, line and vertex types and arrays or the geo, cgmath, mint, glam and nalgebra types keeps every coordinate: x stays x, y stays y, the start of a line stays the start and the end the end, four-element arrays are start x, start y, end x, end y. Constructors and casts to another number type do the same.',
  ['inputs', 'configurations'], 'every conversion implementation, every coordinate value',
  'There are some fifty conversions behind optional features; few are exercised and none for all values.',
  [C + 'geometry.rs'], [('From implementations', 'geometry.rs')], GVN, NOTE)

P('C23', 'A bounding box is the exact hull of what was added',
  'A default box is empty; adding a coordinate pair, point or line extends the box to the smallest one containing the old box and the added points, so its low and high corners are the component-wise minimum and maximum of everything added. A box contains a point exactly when the point lies within the corners, boundary included, and a line exactly when it contains both its ends; an empty box gives no answer. Growing a box by a non-negative percentage moves every side out by that percentage of its larger dimension.',
  ['inputs', 'histories'], 'every sequence of updates, all finite coordinates',
  'Min/max logic is sampled by a few tests; the hull property is about every update history.',
  [C + 'visual_utils.rs'], [('Aabb2', 'visual_utils.rs: Aabb2')], GVN + '; linear order reasoning over comparison outcomes', NOTE)

P('C24', 'Affine maps agree with each other and with their inverse',
  'All forward transforms of an affine map (per coordinate, integer, float, array or point) compute the same per-axis map of scaling and offset. The map made from two non-empty boxes takes the centre of the source box to the centre of the destination box and scales both axes by the smaller destination dimension divided by the larger source dimension, every dimension counted as at least ten; it is an error if a box is empty. The default map is the identity, zooming multiplies the scale of both axes, and the reverse transform of a transformed coordinate is that coordinate rounded to the integer type. to_segments_offset makes of each [x1, y1, x2, y2], in order, the segment whose coordinates are these, multiplied as floats by the scale of the axis, truncated and then shifted by the offset of the axis.',
  ['inputs'], 'all maps, all coordinates (real arithmetic)',
  'Tests evaluate a few maps at a few points; these are algebraic identities over all of them.',
  [C + 'visual_utils.rs'], [('SimpleAffine', 'visual_utils.rs: SimpleAffine')], GVN, NOTE)

P('C25', 'A curved edge is drawn along its curve, from its first to its last point',
  'Discretizing the edge between a point and a segment (the point not on the segment\'s line), given a list of its two end points in output coordinates: equal end points are left as they are; otherwise the list starts with the first end point and ends with the last, and the points in between lie, in order, on the parabola of the transformed point and segment line. Going from the position of the first end point (its projection onto the segment\'s line) to that of the last, a chord of the parabola is taken as it is exactly if no point of its arc is farther from it than the allowed distance (which is positive), otherwise it is split at a position strictly between its ends and the nearer half is treated first; the point computed for the last position is replaced by the given last end point. Nothing panics on the way, and an edge too small to subdivide keeps both end points. point_projection is the dot product of segment direction and point minus segment start, divided by the squared segment length, all in output coordinates.',
  ['inputs'], 'all positions of end points, stack and list contents and allowed distances, for five segments, points and affine maps (real arithmetic)',
  'Tests draw a handful of arcs; the subdivision is wrong only for certain slopes, scales or distances.',
  [C + 'visual_utils.rs'], [('subdivision', 'visual_utils.rs: VoronoiVisualUtils::discretize, parabola_y'), ('projection', 'visual_utils.rs: VoronoiVisualUtils::point_projection')],
  'per-iteration value numbering of the subdivision loop; random interpretation of the value numbers', NOTE)

P('C12', 'The thread-safe form holds exactly the diagram\'s elements',
  'Converting a diagram into its thread-safe form keeps every cell, vertex and edge, unchanged and in the same order, so every id means the same in both. Building the thread-safe form from lists stores those lists, and its list accessors return them. The thread-safe form holds plain data only, so it may be shared between threads, and with serialisation enabled every stored field is written and none is filled by default when reading.',
  ['inputs', 'schedules', 'configurations'], 'every diagram of every size, every list',
  'Tests convert one small diagram; the claim is about element lists of any length and content.',
  [C + 'sync_diagram.rs', C + 'diagram.rs'], [('conversion', 'sync_diagram.rs: From<Diagram> for SyncDiagram, SyncDiagram::new')],
  GVN + '; loop decided by its one-iteration summary, plain-data by recursion over field types', NOTE)

P('C19', 'Robust numbers carry the plain value and their error rule',
  'Every operator of the two error-tracking number types computes the plain real value: the value of a sum, difference, product, quotient, square root or negation of robust numbers (also in place, and with plain floats) is that operation on the values, and conversions and new numbers hold the given value. The error of a sum of same-signed numbers is the larger of the operands\' errors plus one rounding; of a cancelling sum a+b it is |(a*ea - b*eb)/(a+b)| plus one (a difference a-b likewise); of a product or quotient the sum of the errors plus one; of a root half the error plus one. For the type that keeps two sums, the positive minus the negative sum is the value, dif() returns it as the robust difference of the two sums, error included; the sums of such a sum or difference are sums of the operands\' sums by the sum rule; and both sums stay non-negative when the operands\' sums are. Sign tests decide on the value.',
  ['inputs'], 'all operand values and errors (real arithmetic), all sign combinations',
  'Unit tests of these types cover a few positive operands; sign combinations and error terms are quadratic in number and only show up as rare wrong circle events.',
  [X + 'robust_fpt.rs'], [('RobustFpt operators', 'robust_fpt.rs: impl Add/Sub/Mul/Div/Neg (and *Assign) for RobustFpt'), ('RobustDif operators', 'robust_fpt.rs: impl Add/Sub/Mul/Div/Neg (and *Assign) for RobustDif')], GVN + '; sign analysis of polynomial terms', NOTE)

P('C29', 'Orientation and distance predicates compute the stated geometry',
  'Orientation of three points (or two vectors, or a determinant) is left, right or collinear exactly by the sign of the cross product. The distance predicate, which decides which of two neighbouring arcs a horizontal line through a new point meets first, equals the comparison of the two horizontal arc distances ((dx^2+dy^2)/2dx for a point site; for a segment site the focus-line distance, or half the x difference when it is vertical) in all four combinations of point and segment sites, together with its defined tie rules (points with equal x by the mean y; equal-sorted-index segments by the side of the new point; the fast pre-check by the side of the segment). Site accessors return the endpoints, kind and index the site was made with, and inverting a site swaps its endpoints and nothing else, twice restoring it.',
  ['inputs'], 'all sites and points, every site-kind combination (real arithmetic)',
  'The tests run whole diagrams: a wrong comparison at one degenerate combination of sites changes the topology only for inputs nobody listed.',
  [C + 'predicate.rs', C + 'site_event.rs'],
  [('orientation', 'predicate.rs: orientation_predicate::eval_p/eval_i/eval_f'), ('distance', 'predicate.rs: distance_predicate::distance_predicate'), ('sites', 'site_event.rs: SiteEvent')], GVN, NOTE)

P('C26', 'The orders that drive the sweep are the defined ones',
  'Points are ordered by x, then y. Sites are ordered by the x of their first end point; at equal x points come by y and before non-vertical segments, a point and a vertical segment by y (the point first on a tie), vertical segments before others and by y, and other segments by y and then by the side of the other end. Circle events are ordered by lower x, then centre y, then the newest id first, and are equal when centre and lower x are. A site precedes a circle event when its x is less than the lower x by more than 64 ulps, counted on the bit patterns with the two zeros equal. Beach-line keys compare by the arc distance at the newer of the two newest sites, or, when those start at the same x, by the defined rule on y and side; the key order is less, greater or equal accordingly. Before the sweep the sites are sorted by the site order, freed of duplicates (same point, or same segment), and then numbered 0, 1, 2, ... with nothing else changed.',
  ['inputs'], 'all pairs of points, sites, circle events and keys',
  'Each order has a dozen tie cases; tests reach a few of them, and only through complete diagrams.',
  [C + 'predicate.rs', C + 'circle_event.rs', C + 'beach_line.rs', C + 'end_point.rs', C + 'ctypes.rs', C + 'builder.rs', C + 'site_event.rs'],
  [('site order', 'predicate.rs: event_comparison_bii'), ('key order', 'predicate.rs: node_comparison'), ('circle order', 'circle_event.rs: Ord for CircleEvent'), ('queue', 'builder.rs: init_sites_queue')], GVN, NOTE)

P('C16', 'A circle event is made exactly for the site triples that have one',
  'For three neighbouring sites a circle event is computed only if it can exist. Three points: they turn right. Two points p, q and a segment s that comes first or third: with o0 and o1 saying that p, q and the first, respectively second, end of s turn right, o0 is needed if s comes first and p.x >= q.x, o1 if s comes third and q.x >= p.x, otherwise one of them and, with x the cross product of q - p and the direction of s (point0 to point1), also x > 0 if s comes first and is not inverse, x < 0 if it comes third and is inverse. Segment in the middle: it must not run from p to q. One point and two segments: the segments differ (by sorted index) and, with the point in the middle, unless the first segment is inverse and the second not, both have the same direction flag and first start, point, second end turn right. Three segments: both neighbours of the middle one differ from it. Then the circle computation for that kind is called with the sites in this order, their position and a fresh event of the given beach-line node; its result is returned, except that it is dropped when for some vertical segment site the centre lies more than 64 ulps below its lower or above its upper end.',
  ['inputs'], 'all triples of sites, all eight kinds, every result of the circle computation',
  'The existence conditions have some twenty degenerate branches (inverse segments, shared ends, equal x); a wrong one loses or invents a vertex only for rare inputs.',
  [C + 'predicate.rs', C + 'predicate/circle_existence.rs'],
  [('dispatch', 'predicate.rs: circle_predicate::circle_formation, lies_outside_vertical_segment'), ('existence', 'circle_existence.rs: ppp, pps, pss, sss')], GVN, NOTE)

P('C17', 'The circle of a site triple touches its sites',
  'For three points turning right, two points and a segment with the points on its right or at its ends, one point and two segments, and three segments, the circle computation returns the event of the circle through the points and tangent to the lines of the segments: centre x and y, and as lower x the centre x plus the radius (over the reals; of the two such circles it is the one belonging to the position of the segment, or of the point, among the three sites). A point ending both segments is itself the centre, with lower x its x, and the event is marked as site point. With two points and a segment, no two of the points and ends equal, there is no event when the centre projects outside the segment. Each coordinate, and only that, is recomputed exactly if its tracked error exceeds 64 ulps. The exact computation gives the same circle for each coordinate it is asked for and leaves another one alone or sets it to the same circle too. No addition of robust or extended numbers on the way cancels.',
  ['inputs'], 'all four kinds of site triples, all positions, parallel, crossing and end-sharing segments (real arithmetic)',
  'Four functions of hundreds of terms, each with degenerate branches and a second, exact version reached only by near-degenerate input: tests sample a few circles.',
  [C + 'predicate/lazy_circle_formation.rs', C + 'predicate/exact_circle_formation.rs', C + 'circle_event.rs'],
  [('fast circles', 'lazy_circle_formation.rs: ppp, pps, pss, sss'), ('exact circles', 'exact_circle_formation.rs: ppp, pps, pss, sss')],
  'global value numbering with the robust number types read as reals; random interpretation of the value numbers per region', NOTE)

P('C18', 'Sums of square roots are evaluated exactly and without cancellation',
  'The square-root evaluators over big integers compute, over the reals, A0*sqrt(B0) + ... for one to four terms (B >= 0), the four-term form whose B2 is 1 and B3 is B0*B1, and A3 + A0*sqrt(B0) + A1*sqrt(B1) + A2*sqrt(B3*(sqrt(B0*B1) + B2)), for all signs and zeros of the factors. No addition of two extended floats of opposite sign and no subtraction of two of equal sign takes place on the way, so that no precision is lost by cancellation.',
  ['inputs'], 'all factors and radicands, all sign patterns',
  'Each evaluator has a conjugate branch per sign pattern, reached only by near-degenerate circles; tests evaluate a handful of sums.',
  [C + 'robust_sqrt_expr.rs'], [('evaluators', 'robust_sqrt_expr.rs: eval1..eval4, sqrt_expr_evaluator_pss3, sqrt_expr_evaluator_pss4')],
  'global value numbering with the number types read as reals; random interpretation of the value numbers', NOTE)

P('C21', 'Extended-exponent floats compute with the number val * 2^exp',
  'An ExtendedExponentFpt<f64> stands for val()*2^exp(). For all operands (any sign, zero with any exponent, any finite distance of the exponents): +, -, *, / (also by an f64, and in place), negation and sqrt of a non-negative value give the real result of the operation to within one part in 2^53, apart from the rounding of the f64 operation itself; new(v, n) is v*2^n, conversion from f64, d() and conversion into f64 keep the number; is_pos, is_neg and is_zero tell its sign. Every result is normalised: val is 0 or 1/2 <= |val| < 1, and no intermediate value leaves the range of f64.',
  ['inputs'], 'all values and exponents',
  'The behaviour changes with the distance of two exponents, with their parity, and with zeros of arbitrary exponent; tests use a few numbers of ordinary size.',
  [X + 'extended_exp_fpt.rs'], [('operations', 'extended_exp_fpt.rs: ExtendedExponentFpt and its operators')],
  'global value numbering with defined frexp and ldexp; random interpretation of the value numbers over exact rationals', NOTE)

P('C20', 'Big integers compute exact integer arithmetic',
  'For all operands of up to four 32-bit words and both signs (all patterns of carries, borrows and equal leading words, zero included): +, -, * in every owned and borrowed form (also by an i32), negation, and conversion from every i64 (i64::MIN included) give exactly the integer result; size() of a result is the number of 32-bit words of its magnitude; is_pos, is_neg and is_zero tell its sign; zero, default and one are 0, 0 and 1. d() and p() (p.0 * 2^p.1) are the number to within one part in 2^53, for up to eight words. None of them panics or overflows.',
  ['inputs'], 'all operands of up to four words',
  'Carries, borrows and cancelled leading words depend on the exact words of both operands; tests use a few hand-written sums.',
  [X + 'extended_int.rs'], [('operations', 'extended_int.rs: ExtendedInt and its operators')],
  'global value numbering of the unrolled loops with explicit modular arithmetic; random interpretation of the value numbers over integers', NOTE)

P('C32', 'Signed integer arithmetic on i32 coordinates never overflows',
  'For a Builder<i32, _> with coordinates anywhere in the range of i32, no signed integer addition, subtraction, multiplication or negation made while the diagram is built leaves the range of its type: site and key comparisons, orientation and distance predicates, cross products, the existence conditions and the integer parts of the circle computations.',
  ['inputs'], 'all i32 coordinates',
  'Overflow needs coordinates billions apart; tests stay small, and a release build wraps silently into a wrong diagram.',
  [C + 'predicate.rs', C + 'predicate/lazy_circle_formation.rs', C + 'predicate/exact_circle_formation.rs', C + 'site_event.rs', C + 'beach_line.rs'],
  [('cross product', 'predicate.rs: robust_cross_product'), ('distance', 'predicate.rs: distance_predicate'), ('circles', 'lazy_circle_formation.rs, exact_circle_formation.rs')],
  'call graph; value numbering with every signed operation kept; interval arithmetic over the coordinates', NOTE)

P('C15', 'A circle event merges two arcs of the beach line',
  'When an active circle event is handled, its beach line node (B,C) and the node (A,B) before it give way to one node: (A,B) gets the key (A,C), with C taken in its opposite direction if A is a point, C is a segment and A lies at the end C starts from; its data becomes the new edge which the diagram returns for A, C, the event and the edges of (A,B) and (B,C), in this order; (B,C) is removed; the event leaves the queue; a circle event of (A,B) is cancelled. If a node precedes (A,B), a circle event of its left site, A and C is sought at (A,C); if a node follows, the event of that node is cancelled and one of A, C and its right site is sought at that node. A triple that has a circle event puts one event into the queue and its id into its node; no other key, data or event changes.',
  ['histories'], 'every beach line, queue and diagram (kept symbolic), every pair of neighbours',
  'The state is a linked beach line with events that refer to its nodes; tests see only the final diagram, and a stale or missing event shows up for few arrangements.',
  [C + 'builder.rs', C + 'beach_line.rs', C + 'circle_event.rs'],
  [('event', 'builder.rs: process_circle_event, activate_circle_event, deactivate_circle_event'), ('nodes', 'beach_line.rs: BeachLineNodeKey, BeachLineNodeData')], GVN, NOTE)

P('C05', 'A site event enters the beach line at the arc above it',
  'Handling a site event takes every temporary bisector whose end point is the site off the heap and off the beach line; treats the run of segments that start at the same point together and consumes exactly that run; and inserts each of them at the position found by the key of the site: before the first node (left site of that node on the right), behind the last node (right site of the last), or between two nodes, where the arc of the node before is split and the circle event of the node at the position is cancelled. An insertion makes the node (arc, site), for a segment the temporary node (site, opposite site), whose end point is noted on the heap, and for a split the node (site, arc), with the two edges of the diagram between arc and site; and seeks circle events for the new neighbours left and right.',
  ['histories'], 'every beach line, queue, heap and diagram (kept symbolic), every run of sites',
  'Which insertion case applies, and which neighbours need events, depends on the whole beach line; tests reach some combinations and see only the final diagram.',
  [C + 'builder.rs', C + 'beach_line.rs', C + 'end_point.rs'],
  [('event', 'builder.rs: process_site_event, insert_new_arc, insert_temporary_bisector'), ('nodes', 'beach_line.rs: BeachLineNodeKey, BeachLineNodeData')], GVN, NOTE)

P('C28', 'The sweep takes events in order and skips cancelled ones',
  'The circle event queue gives each event a new id, keeps the cancelled ones marked, has as top the least event in its order, drops cancelled events at its top when cleaned, and is empty when no event is left. Building starts the beach line with no site, with one site (one cell), or with the leading two sites or the leading run of collinear, vertical ones, each neighbouring pair with its bisector; then as long as sites or events remain it handles the next site unless the queue has an event that comes first (its lower x before the site), cleans the queue after every round, and at the end finishes the diagram.',
  ['histories'], 'every queue content and every list of sites (kept symbolic)',
  'The choice between site and circle event and the treatment of cancelled events depend on the history of the sweep; tests see only the final diagram.',
  [C + 'circle_event.rs', C + 'builder.rs'],
  [('queue', 'circle_event.rs: CircleEventQueue'), ('main loop', 'builder.rs: build'), ('start', 'builder.rs: init_beach_line, init_beach_line_default, init_beach_line_collinear_sites')], GVN, NOTE)

P('C03', 'Neighbouring sites get one bisector and one cell each',
  'When two sites become neighbours the diagram gains two half-edges with consecutive ids: the first belongs to the cell of the first site, the second to that of the second; they are twins, have no vertex and no neighbours yet, and carry the linear and primary flags of the pair: an edge between a point and a segment is primary exactly if the point is not an end of the segment, any other edge is primary; it is linear exactly if it is not primary or joins sites of the same kind. The second site, and before it the first one if there is no cell yet, get a cell with the number of the site, its input index, its category and no incident edge, behind the cells there are; gaps are filled with cells no site has. A single site gets its cell and no edge. Everything else stays as it is.',
  ['inputs', 'histories'], 'every diagram (kept symbolic), all pairs of sites',
  'The flags and the numbering of cells depend on the kinds and the order of the sites; tests check some diagrams as a whole.',
  [C + 'diagram.rs', C + 'site_event.rs'],
  [('insertion', 'diagram.rs: insert_new_edge_2_, make_new_cell_with_category_, process_single_site_'), ('flags', 'site_event.rs: is_primary_edge, is_linear_edge')], GVN, NOTE)

P('C04', 'A Voronoi vertex joins its three edges consistently',
  'When a circle event of the sites A, B, C is turned into a vertex, the diagram gains one vertex, with the next id, at the centre of the circle, marked as a site point exactly if the event is, and two half-edges with consecutive ids: twins, the first in the cell of A, the second in the cell of C, with the linear and primary flags of A and C. The given edges of (A,B) and (B,C) and the second new edge start at the vertex. Around it the edges follow each other: the first new edge comes before (A,B), the twin of (A,B) before (B,C), and the twin of (B,C) before the second new edge, by next and by prev alike. Everything else stays as it is.',
  ['inputs', 'histories'], 'every diagram with four different, known half-edges (A,B), (B,C) and twins (kept symbolic), all circle events and pairs of sites',
  'Nine links are written per vertex; a wrong one shows only where that link is followed, for some vertices.',
  [C + 'diagram.rs', C + 'site_event.rs'],
  [('insertion', 'diagram.rs: insert_new_edge_5_, vertex_new_2_, create_and_insert_edge'), ('flags', 'site_event.rs: is_primary_edge, is_linear_edge')], GVN, NOTE)

P('C06', 'Finishing joins coinciding vertices and closes the cells',
  'At the end of a build: (1) each pair of half-edges, in order, whose two vertices coincide (x and y each equal within 128 units in the last place) goes: the other edges around the vertex of the second half-edge get the vertex of the first, and both half-edges are taken out of the next/prev order of their neighbours; every other pair moves down to the first free place, its id, its twins and the links of its neighbours with it; the places behind are dropped. (2) Each cell then gets as incident edge the first edge that lies in it, each vertex the last edge that starts at it. (3) Vertices without incident edge are dropped, the others move down in order, their ids and the edges that start at them with them. (4) Without any vertex the first and the last half-edge follow themselves, and between them the edges 2k-1 and 2k follow each other. (5) Otherwise, in each cell whose edges do not form a ring, the last edge is followed by the first, by next and by prev.',
  ['inputs', 'histories'], 'every diagram before the last step (kept symbolic), with involutive twins and inverse next and prev, whose edges named by different terms are different',
  'Vertices coincide and cells stay open only for some inputs; a wrong link of the compaction shows only there, and only where that link is followed.',
  [C + 'diagram.rs', C + 'ctypes.rs'],
  [('last step', 'diagram.rs: Diagram::finish, remove_edge_, edge_copy_, vertex_copy_'), ('coinciding', 'diagram.rs: vertex_equality_predicate_eq; ctypes.rs: ulp_comparison')], GVN, NOTE)

P('C08', 'A failing operation makes its caller fail, up to the caller of build',
  'Where a function calls something that returns a Result with an error of this library, of the beach-line container or of reading and writing, a failure is not lost: on every path after it the function returns an error too (or the Result itself, with the error converted or not). No such Result is dropped, replaced by a value, skipped over or turned into a panic. An error anywhere in building, reading a file or drawing therefore reaches the caller of the public function.',
  ['inputs', 'fault_sequences'], 'all calls that can fail and all paths after them',
  'These errors stand for broken invariants and failing readers, which tests do not produce.',
  [C + 'builder.rs', C + 'diagram.rs', C + 'beach_line.rs', C + 'sync_diagram.rs', C + 'file_reader.rs', C + 'predicate.rs', X + 'visual_utils.rs', X + 'sample_utils.rs'],
  [('propagation', 'every function that sees a Result')],
  'static analysis: typestate of Result values over rustc MIR, path-sensitive in their outcome', NOTE)

P('C27', 'The input reader returns the listed points and segments in order',
  'read_boost_input_buffer reads line by line: a number n of points, n lines "x y", a number m of segments and m lines "x1 y1 x2 y2"; fields are separated by single spaces, coordinates are 32-bit integers. It returns the points and the segments (start x1 y1, end x2 y2) in the order of the lines, all that precede the first line that does not fit its place, or up to the last announced segment. An I/O error before that is returned. read_boost_input_file does the same with the file at the path and fails if there is none or it cannot be opened.',
  ['inputs', 'fault_sequences'], 'every sequence of lines, every I/O error',
  'Tests read well-formed files; the phases, the counts and the treatment of bad lines depend on the whole sequence of lines.',
  [C + 'file_reader.rs'],
  [('line', 'file_reader.rs: line_to_data'), ('loop', 'file_reader.rs: read_boost_input_buffer'), ('file', 'file_reader.rs: read_boost_input_file')], GVN, NOTE)

P('C34', 'Serialised values read back field by field',
  'Each public type that can be serialised (CellIndex, EdgeIndex, VertexIndex, SourceCategory, Cell, Vertex, Edge, Point, Line, SyncDiagram) can also be read back; serialize writes every field exactly once, under a name of its own (a kind: under its own name and number), and deserialize puts what was written for a field back into that same field, whether the format hands the fields over in order or by name; a duplicate or missing field is an error.',
  ['inputs', 'histories'], 'all values and data formats (their calls opaque)',
  'A swapped pair of fields of one type, a renamed or skipped field compiles; the tests serialise nothing.',
  [C + 'diagram.rs', C + 'geometry.rs', C + 'sync_diagram.rs', C + 'ctypes.rs'],
  [('types', 'diagram.rs: Cell, Vertex, Edge, SourceCategory, CellIndex, EdgeIndex, VertexIndex; geometry.rs: Point, Line; sync_diagram.rs: SyncDiagram')], GVN, NOTE)

P('C35', 'Values copy, compare and hash by their contents',
  'A copy (clone) of a value equals the original in every field. Two values are equal exactly if all their fields are (keys of the beach line: if both pairs of sites lie at the same places; circle events, end points and site events have orders of their own and are not meant here). Where a type has both forms of an order, the partial order is Some of the total one, and Points are ordered by x, then by y. The hash of a Point, a Line or an index takes in its fields and nothing else, so equal values hash alike.',
  ['inputs'], 'all values of all types that copy, compare or hash',
  'The laws relate all pairs of values, including values that differ in one field only; tests compare a few.',
  [C + 'geometry.rs', C + 'diagram.rs', C + 'beach_line.rs', C + 'site_event.rs', X + 'extended_int.rs', X + 'extended_exp_fpt.rs', X + 'robust_fpt.rs'],
  [('public', 'geometry.rs: Point, Line; diagram.rs: CellIndex, EdgeIndex, VertexIndex, Cell, Vertex, Edge'), ('internal', 'beach_line.rs: BeachLineNodeKey')], GVN, NOTE)

P('C36', 'The lists of a diagram are its elements from first to last',
  'cell_iter, vertex_iter and edge_iter run over all cells, vertices and edges from the first to the last; num_cells, num_vertices and num_edges are the lengths of these lists; a new or default diagram, and a diagram after clear, has none of them. vertices_get_aabb is the empty box grown by the (x, y) of every vertex.',
  ['inputs', 'histories'], 'all diagrams',
  'Holds for every length of the lists, the empty ones and those after clear included.',
  [C + 'diagram.rs', C + 'visual_utils.rs'],
  [('lists', 'diagram.rs: cell_iter, vertex_iter, edge_iter, num_*, clear, new, default, vertices_get_aabb')], GVN, NOTE)

P('C30', 'The diagram is the Voronoi diagram of the input',
  'Every point of an edge is equally far from its two sites and no other site is nearer; cells do not overlap and cover the plane; the embedding is planar.',
  ['inputs'], 'all sets of points and non-crossing segments',
  'It is a statement about all inputs of any size.',
  [C + 'builder.rs', C + 'diagram.rs'], [('sweep', 'builder.rs: build')],
  na='A global invariant of the sweep over arbitrarily many events and rounded coordinates; it needs an inductive geometric proof, not a property of program text. Its ingredients are decided instead: orders (C26), predicates (C16, C29), circles (C17), beach-line steps (C05, C15), the sweep loop (C28) and the bookkeeping of the diagram (C03, C04, C06).')

P('C31', 'Building ends without panic, in O(n log n) steps',
  'For every set of points and segments that do not cross, building ends, needs no more than O(n log n) steps and does not fail.',
  ['inputs'], 'all valid inputs',
  'Tests cannot sample all inputs.',
  [C + 'builder.rs'], [('sweep', 'builder.rs: build')],
  na='Termination and cost rest on the number of circle events, a potential argument over the geometry of the beach line; the index and id accesses that could panic rest on the same invariant. Local parts are decided: total lookups (C07), propagation of errors (C08), integer overflow (C32), bounded navigation (C10, C11).')

P('C33', 'Vertices are as accurate as promised',
  'The computed circle centres are within the stated number of ulps of the true ones, and falling back to exact arithmetic happens whenever the error bound of the fast path is exceeded.',
  ['inputs'], 'all site triples',
  'Needs the worst case over all coordinates.',
  [C + 'predicate/lazy_circle_formation.rs', C + 'predicate/exact_circle_formation.rs'], [('lazy formation', 'lazy_circle_formation.rs')],
  na='Whether the error constants of the fast path really bound the rounding error is a numerical analysis of runtime quantities no static argument in reach can bound. That the error rule is applied, and that the formulas are the right ones in exact arithmetic, is decided in C19, C17 and C18.')
