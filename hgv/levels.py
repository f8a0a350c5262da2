"""Assurance levels, notes and techniques per property (for MANIFEST.json)."""

DEDUCTIVE = ('contract-based deductive verification of the real functions '
             '(sidecar contracts and loop invariants, obligations from the '
             'current sources discharged by z3)')
PARTLY = DEDUCTIVE + ('; functions whose contracts are trusted stand behind '
                      'a bounded exact-oracle check')

COMMON = (' Trusted: z3, the symbolic values and instrumentation, the models '
          'of Hypothesis strategies and of the context, coordinates as an '
          'ordered field.')

LEVELS = {
    'C01': 'proof', 'C02': 'proof', 'C03': 'proof', 'C04': 'proof', 'C05': 'proof',
    'C06': 'other', 'C07': 'proof', 'C08': 'proof', 'C09': 'other',
    'C10': 'proof', 'C11': 'other', 'C12': 'proof', 'C13': 'other',
    'C14': 'proof', 'C15': 'other', 'C16': 'proof',
}
TECH = {k: DEDUCTIVE if v == 'proof' else PARTLY for k, v in LEVELS.items()}
NOTES = {
    'C01': 'Refusals, warnings, and equality of the strategy with that of '
           'the clamped sizes (self-composition) proved for every public '
           'factory and all sizes.' + COMMON,
    'C02': 'Size postconditions of every strategy proved for all inputs; a '
           'wrong number of vertices is rejected by filters whose '
           'predicates are themselves executed.' + COMMON,
    'C03': 'Size postconditions proved for to_polygon_strategy and '
           'to_multipolygon_strategy, whose filters over what '
           'factories.to_polygon returns are executed symbolically.' + COMMON,
    'C04': 'Component counts and kinds proved for to_mix_strategy and '
           'planar.mixes for all inputs; sizes of borders and holes by the '
           'postcondition of to_polygon_strategy.' + COMMON,
    'C05': 'Range and membership of every coordinate proved for every '
           'strategy, star contours and compressed contours included; that '
           'picked vertices are among the given points is trusted for '
           'to_vertex_sequence and a Delaunay triangulation.' + COMMON,
    'C06': 'Preconditions at every call, indices, assertions and arguments '
           'of Hypothesis strategies proved for every function under '
           'contract; trusted functions by bounded driving; termination '
           'only of the functions with variants.' + COMMON,
    'C07': 'Proved for all inputs; multiset uniqueness through the model '
           'of st.lists(unique_by).' + COMMON,
    'C08': 'Turn predicates of convex and concave contours proved through '
           'the filters and the hull model; winding once is a consequence '
           'of the hull being a hull (trusted).' + COMMON,
    'C09': 'Every strategy is proved to return vertices of a function '
           'whose contract promises a simple strict contour; that of the '
           'star is proved up to a lemma on points sorted by direction, '
           'that of the triangulation is trusted and bounded.' + COMMON,
    'C10': 'Proved for to_star_contour_vertices and everything above it: '
           'distinct given points in the order of their directions from '
           'their own mean, no straight corner, every angle containing the '
           'centroid. Trusted: the lemma that such points bound a simple '
           'counterclockwise contour, atan2 as an exact angle, centroids '
           'as ground computes them.' + COMMON,
    'C11': 'Proved for every alternative of construction on the relation '
           '"neither cross nor overlap"; edges of contours and general '
           'position rest on C09 and bentley_ottmann.' + COMMON,
    'C12': 'Loop invariant of to_multicontour: contours are separated by '
           'the order of their points; the geometry behind (two point '
           'sets ordered lexicographically have convex hulls meeting in '
           'at most a point) is a trusted lemma.' + COMMON,
    'C13': 'factories.to_polygon verified with loop contracts over an '
           'abstract triangulation: border never crosses or overlaps holes, '
           'holes precede one another along an axis. Trusted: facts about '
           'Delaunay triangulations, nearest segments and the compressed '
           'boundary (DESIGN section 5), chi-algorithm holes.' + COMMON,
    'C14': 'Loop invariants of both splitting functions: polygons are '
           'separated along the axis, touching only if the shared edge '
           'line holds at most one edge.' + COMMON,
    'C15': 'Loop invariants of to_mix_strategy for both axes and every '
           'permutation of the parts: separation of every two components; '
           'pairs of parts inside a multisegment or multipolygon through '
           'their contracts.' + COMMON,
    'C16': 'Every constructed object is tagged with its context; proved '
           'for every strategy.' + COMMON,
}
