"""Writes properties.jsonl (kept as code so that the statements stay diffable)."""
import json, os
PL='hypothesis_geometry/planar.py'; B='hypothesis_geometry/_core/base.py'; F='hypothesis_geometry/_core/factories.py'
C='hypothesis_geometry/_core/contracts.py'; U='hypothesis_geometry/_core/utils.py'; S='hypothesis_geometry/_core/subdivisional.py'; T='hypothesis_geometry/_core/triangular.py'
K='hypothesis_geometry/_core/constants.py'
ALLT=("The tests draw a handful of examples per strategy, with Fraction coordinates in one fixed pool, sizes at most 10 and a fixed seed; "
      "the statement ranges over ")
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=None)))
p('C01','Size arguments are validated, warned about and clamped uniformly',
  "For every factory that takes size arguments and every (minimum, maximum) pair it accepts, the call raises ValueError exactly when a maximum is given that is below the geometry's intrinsic minimum, or below the requested minimum, or the requested minimum is negative while a maximum is given (for mixes also when fewer than two of the three kinds of component are allowed), and otherwise returns a strategy. "
  "It emits a HypothesisWarning exactly for each accepted pair whose requested minimum is below the intrinsic minimum (one point for multipoints, two elements for multisegments, multicontours and multipolygons, three vertices for contours and borders and holes, four for concave contours, zero for counts of holes and mix components). "
  "A requested minimum below the intrinsic one then behaves exactly as if the intrinsic minimum had been requested.",
  ['inputs','configurations'],'all factories, all integer minima (negative included) and all maxima or their absence, in every combination',
  ALLT+"all integer argument combinations; only a few invalid pairs per factory are tested, and no test draws with a clamped negative minimum of every parameter.",
  [PL,K],[('size validation helper',PL+':_validate_sizes'),('clamping before delegation',PL+': every factory'),('mix component count check',PL+':mixes')],obs=['public factories of planar'])
p('C02','Flat collections honour their size bounds',
  "Every multipoint, multisegment, contour (general, convex, concave and star-shaped) and multicontour drawn has at least the requested minimum (or the intrinsic minimum if that is larger) and, when a maximum was given, at most the requested maximum number of points, segments, vertices or contours; every contour of a multicontour honours the contour size bounds likewise.",
  ['inputs','configurations'],'all valid size arguments, all coordinate strategies, all sequences of random choices',
  ALLT+"all sizes, all coordinate strategies and every sequence of draws.",
  [PL,B,C],[('final size filters',B+': .filter(has_valid_size ...)'),('size predicates',C+':has_valid_size, multicontour_has_valid_sizes'),('list bounds passed to Hypothesis',B),('sub-sequence cut',B+':to_sub_sequence_strategy')],obs=['drawn geometries'])
p('C03','Polygons and multipolygons honour every nested size bound',
  "Every polygon drawn, alone or as part of a multipolygon, has a border, a number of holes and holes each within the requested size bounds, and every multipolygon has a number of polygons within its bounds.",
  ['inputs','configurations'],'all valid size arguments (holes included), all coordinate strategies, all sequences of random choices, both splitting axes',
  ALLT+"all size combinations and every split of the coordinates between polygons.",
  [PL,B,C,F],[('final filter of polygons',B+':to_polygon_strategy.has_valid_sizes'),('splitting loop',B+':to_multipolygon_strategy.xs_to_polygons, ys_to_polygons'),('hole-less alternative',B+':multicontour_to_polygons')],obs=['drawn geometries'])
p('C04','Mixes honour component bounds and have two non-empty components',
  "Every mix drawn has at least two non-empty components, and its numbers of points, segments and polygons, the sizes of the polygons' borders and holes and the numbers of holes are all within the requested bounds. "
  "A component with one segment or polygon is that segment or polygon itself, with several it is a multisegment or multipolygon, and with none it is the empty geometry.",
  ['inputs','configurations'],'all valid size arguments, all coordinate strategies, all sequences of random choices, every permutation of the parts',
  ALLT+"all size combinations, every partition into groups and every permutation of them.",
  [PL,B],[('counting',B+':to_mix_strategy.to_point_counts, partition'),('parts',B+':draw_points, draw_segments, draw_polygon'),('unpacking',B+':unpack_points, unpack_segments, unpack_polygons'),('alternatives forcing two components',PL+':mixes')],obs=['drawn mixes'])
p('C05','Coordinates come from the strategy of their own axis',
  "Every x coordinate (y coordinate) of every point of every drawn geometry lies between the smallest and the largest value that the x strategy (y strategy) produced for that geometry, and is itself one of the values produced, except for vertices of convex contours, which may lie strictly between them (these occur in contours, convex contours, multisegments and the linear component of mixes). "
  "When no y strategy is given, the x strategy serves both axes.",
  ['inputs','configurations'],'all coordinate strategies (including disjoint domains for the two axes), all sizes, all sequences of random choices',
  ALLT+"all pairs of domains; tests check types and global ranges only, never that a coordinate was produced by the strategy of its axis.",
  [PL,B,F],[('per-axis forwarding',PL+', '+B),('sampled sub-strategies',B+': st.sampled_from(xs[...])'),('clamping to the range',F+':to_convex_vertex_sequence'),('vertex selection',F+':to_vertex_sequence, to_star_contour_vertices')],obs=['drawn geometries'])
p('C06','Drawing from an accepted configuration never raises',
  "For every configuration a factory accepts and exact-arithmetic coordinate strategies with unboundedly many values, drawing either yields a geometry or rejects the attempt the way Hypothesis filters do; it never raises an assertion error, an index error, an invalid-argument error or any other exception, and always terminates.",
  ['inputs','configurations'],'all valid size arguments, all coordinate strategies, all sequences of random choices',
  ALLT+"all configurations; every derived bound (of lists, integers, samples) has to be well formed for all of them.",
  [PL,B,F,U,S,T],[('derived bounds',B+': min_point_count, size_upper_bound, grid sizes ...'),('primes',U+':to_next_prime, to_prior_prime'),('general position grid',B+':are_index_sequence_pair_sparse'),('boundary bookkeeping',T+':Triangulation.delete, to_boundary_edges')],obs=['draws'])
p('C07','Elementary geometries are non-degenerate, unique and oriented',
  "Every box has min_x < max_x and min_y < max_y; every segment has distinct endpoints; the points of a multipoint are pairwise distinct; every triangular contour has three non-collinear vertices in counterclockwise order; every rectangular contour lists the corners of an axis-aligned rectangle of non-zero area counterclockwise from its lower left corner.",
  ['inputs'],'all coordinate strategies (with repeated values too), all sequences of random choices',
  ALLT+"all coordinate values, including collinear and coincident ones.",
  [PL,B,C,U],[('unique lists and sorted pairs',B+':to_box_strategy, '+U+':sort_pair'),('degeneracy filter',B+':to_segment_strategy'),('strictness filter and reversal',B+':to_triangular_vertex_sequence_strategy'),('corner order',B+':to_rectangular_vertex_sequence_strategy')],obs=['drawn geometries'])
p('C08','Convex contours are convex, concave contours are not',
  "Every convex contour drawn turns strictly left at every vertex and winds once; every concave contour drawn has at least one vertex at which it turns right.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices',
  ALLT+"all point layouts and random choices of the vector construction.",
  [PL,B,F,C],[('hull of the vector chain',F+':to_convex_vertex_sequence'),('triangle and rectangle alternatives',B+':to_convex_vertex_sequence_strategy'),('non-convexity filter',C+':are_vertices_non_convex')],obs=['drawn contours'])
p('C09','Contours are simple, strict and counterclockwise',
  "Every contour drawn, of any kind, and every contour of a drawn multicontour has pairwise distinct vertices, no three consecutive vertices collinear, no two edges meeting other than consecutive ones at their common vertex, and positive signed area.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies (dense collinear grids included), all sequences of random choices',
  ALLT+"all point layouts, in particular highly collinear ones, sizes near the point count, and ties.",
  [PL,B,F,S,T],[('Delaunay triangulation',T+':Triangulation.delaunay'),('digging and ear removal',F+':_to_vertex_sequence'),('boundary walk',T+':to_boundary_edges'),('collinear vertex removal',F+':compress_contour'),('edge structure',S+':QuadEdge')],
  state=[('left_from_start / rotated links','planar subdivision; rings of edges around a vertex or a face',S)],obs=['drawn contours'])
p('C10','Star contours are visible from their centroid',
  "Every star-shaped contour drawn is simple, strict and counterclockwise, and its centroid sees every vertex: no edge has the centroid strictly on its right side.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices',
  ALLT+"all point layouts, including collinear points with equal angles.",
  [PL,B,F,C],[('angular sorting and pruning loop',F+':to_star_contour_vertices'),('angle predicate',C+':angle_contains_point'),('collinear vertex removal',F+':compress_contour')],obs=['drawn contours'])
p('C11','Segments of multisegments neither cross nor overlap',
  "Any two segments of a drawn multisegment are disjoint or share only a single point that is an endpoint of at least one of them, no segment is degenerate, and no segment occurs twice.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices and all alternatives of construction',
  ALLT+"all coordinates and all four alternative constructions.",
  [PL,B,F,C,U],[('collinear chains',B+':to_vertical_multisegment, to_horizontal_multisegment'),('edges of a contour',F+':contour_vertices_to_edges'),('sweep-line filter',C+':are_segments_non_crossing_non_overlapping')],obs=['drawn multisegments'])
p('C12','Contours of multicontours are mutually separated',
  "Any two contours of a drawn multicontour have disjoint interiors, and no edge of one crosses or overlaps an edge of the other.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices, every order of sorting axes',
  ALLT+"all point layouts and all sequences of axis choices.",
  [PL,B,F,C],[('sorted splitting with a shared point at most',F+':to_multicontour'),('touch predicates',C+':has_vertical_leftmost_segment, has_horizontal_lowermost_segment')],obs=['drawn multicontours'])
p('C13','Polygon holes are valid, inside the border and separated',
  "In every drawn polygon the border is a simple, strict, counterclockwise contour; every hole is a simple, strict, clockwise contour lying in the closed region bounded by the border; holes have pairwise disjoint interiors; and no edge of a hole crosses or overlaps an edge of the border or of another hole.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices',
  ALLT+"all point layouts, borders dug around holes, and axis choices.",
  [PL,B,F,C,S,T],[('hole carving',F+':to_polygon (hole loop)'),('border digging guarded against holes',F+':to_polygon.is_mouth, to_cross_or_overlap_segment_detector'),('orientation reversal',F+':_reverse_vertices')],obs=['drawn polygons'])
p('C14','Polygons of multipolygons are mutually separated',
  "Any two polygons of a drawn multipolygon have disjoint interiors, and no edge of one crosses or overlaps an edge of the other.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices, both splitting axes',
  ALLT+"all splits of the coordinates, in particular those where neighbouring polygons share a coordinate.",
  [PL,B,C],[('coordinate splitting with a shared coordinate at most',B+':to_multipolygon_strategy.xs_to_polygons, ys_to_polygons'),('touch predicates',C+':has_vertical_leftmost_segment, has_horizontal_lowermost_segment')],obs=['drawn multipolygons'])
p('C15','Components of mixes are mutually separated',
  "In every drawn mix, the points are pairwise distinct and lie on no segment and in no polygon of the mix; the segments neither cross nor overlap each other or polygon edges and none runs through a polygon's interior; and the polygons have pairwise disjoint interiors with edges that neither cross nor overlap.",
  ['inputs','configurations'],'all valid size arguments, all exact coordinate strategies, all sequences of random choices, every permutation of the parts',
  ALLT+"all splits, permutations and shared coordinates between neighbouring parts.",
  [PL,B,C],[('coordinate splitting',B+':to_mix_strategy.xs_to_mix, ys_to_mix'),('touch predicates',C+':has_vertical_leftmost_segment, has_horizontal_lowermost_segment')],obs=['drawn mixes'])
p('C16','Geometries are built by the given context only',
  "Every drawn geometry and every part nested in it (points, segments, contours, polygons, empty geometries) is an instance of the matching class of the context passed to the factory, whatever that context is, and all constructions and predicates used are those of that context.",
  ['inputs','configurations'],'all contexts (also ones with custom geometry classes), all factories, all sequences of random choices',
  ALLT+"all contexts; the tests use a single context, so a factory that silently used another one would pass.",
  [PL,B,F,S,T],[('context forwarding',PL+', '+B),('class lookups',B+': context.point_cls ...'),('context carried by edges and triangulations',S+', '+T)],obs=['types of drawn geometries'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for q in props: f.write(json.dumps(q)+'\n')
