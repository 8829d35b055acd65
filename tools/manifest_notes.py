"""Per property: level, technique and notes for MANIFEST.json and DESIGN.md (proved: discharged for all inputs; bounded: only the executable contracts decide it)."""
P = 'contracts on the MIR of the real code discharged by z3 (mirvc), bounded executable contracts for the rest'
D = {
 'C01': ('proof', 'the whole query path: `CDEngine::poly_collides` ⇔ not inside the box or an edge meets a border of a relevant hazard or a containment, over `QTNode::collides` (recursive, any depth), `QTHazardVec`, `QTHazard::constrict` and `register_hazard/deregister/activate/deactivate/new`, which preserve the tree invariant (every node lists every hazard whose region meets it, Entire only if it covers it, Partial with all edges that meet it, strongest first, children exactly refine). Depth, order and start vertex do not occur in the postcondition, hence independence.',
         'f32 rounding; that parity of ray crossings is geometric inclusion (assumed)'),
 'C02': ('proof', '`QTNode::collect_collisions`, `CDEngine::collect_poly_collisions`, `collect_surrogate_collisions`, `hazards_within`: set equality with the relevant hazards met, no duplicates, old content kept; on the same tree invariant as C01', 'f32 rounding'),
 'C03': ('proof', '`surrogate_collides`, `collect_surrogate_collisions` (sound and complete for the transformed poles and piers), `surrogate_or_poly_collides` = surrogate or polygon query, rigid motion of the surrogate (C15); the generators: `POINode::{new, split}`, `generate_next_pole`, `generate_additional_surrogate_poles`, `calculate_poi`, `SPSurrogate::new`, `generate_surrogate` (every pole has its centre inside the shape and no edge closer than its radius), `clip`, `piers::generate`, `Edge::scale` (every pier is the trimmed piece of a ray between two successive points of the border whose middle lies inside)', 'that such discs and segments lie inside as sets (Jordan, assumed); f32 rounding'),
 'C04': ('proof', '`point_definitely_collides_with`, `edge_definitely_collides`, `circle_definitely_collides` over `QTNode::definitely_collides(_with)`: True ⇒ the entity meets a relevant hazard or leaves the box, False ⇒ it meets none', 'that deep trees decide far positions (a progress statement)'),
 'C05': ('proof', 'the engine invariant (tree registered ⇔ static ∪ dynamic ∪ pending-inactive) is established by `CDEngine::new` and preserved by register, deregister (both modes), commit, create_snapshot, restore; `Layout::{new, place_item, remove_item, create_snapshot, restore, change_bin}` keep placed items ⇔ hazards. With C01–C04 stated over that invariant only, answers depend on the content alone', 'clone independence (derived Clone is assumed a deep copy), rayon'),
 'C06': ('proof', '`BPProblem/SPProblem::{create_solution, restore_to_solution}` with `Layout::{create_snapshot, restore, from_snapshot, clone_with_id}`: layouts, items, missing/placed/bin quantities after restoring equal those recorded, for the most recent solution and any older one (precondition: same layout id → same bin)', 'HPG inside restored layouts (C09)'),
 'C07': ('proof', 'the ledger invariants (missing + placed = demand; stock + open = initial) over place_item, remove_item, register/deregister layout and bin, restore, new; `usage`, `used_bin_cost`, `placed_item_qtys`, `n_items_placed`, `is_complete` equal recursively defined sums; fresh layout ids', 'ratio rounding'),
 'C08': ('proof', '`modify_strip` (kept ⇔ still collision-free with the new bin, others deregistered and demand returned), `modify_strip_in_back/at_front/centered`, `fit_strip`, `occupied_range/width`, `strip_width/height`', 'the collision test inside is the C01 query used through its contract'),
 'C09': ('proof', '`HPGCell::{new, register_hazard, register_hazard_pole, deregister_hazards, register_hazards, hazard_proximity}` keep each cell at the exact minimum with its source; `HazardProximityGrid::{deregister_hazard, flush_deregisters, restore, is_dirty}` cell-wise over the grid', 'that the boundary fill of `register_hazard` visits every cell that has to change (boundary_fill.rs)'),
 'C10': ('proof', '`HPGCell::could_accommodate_item` over the exact proximities of C09: a cell is refused only if the pole cannot fit at any point of the cell', 'f32 rounding'),
 'C11': ('proof', '`Grid::{to_index, to_row_col, calculate_index, get_neighbors, rows_in_range, cols_in_range}` with integer overflow as obligations', 'grid_generator.rs and `Grid::new` (sparse elements, generated cells)'),
 'C12': ('proof', 'every pairwise `CollidesWith`/`AlmostCollidesWith` of points, segments, rectangles, circles ⇔ the sets share a point (witness point/separating direction), `collides_at`; polygon–point: parity of crossings', 'f32 rounding; Jordan'),
 'C13': ('proof', 'all `DistanceFrom` implementations: not larger than the distance to any point of the set and attained by one; squared variants; side of the border', 'f32 rounding'),
 'C14': ('proof', 'relation_to, almost_relation_to, quadrants, corners, edges, intersection, bounding rectangle, inflate_to_square, scale, measures', 'f32 rounding'),
 'C15': ('proof', 'rotate/translate/compose/inverse/decompose of `Transformation` and `DTransformation`; transform and transform_from of point, edge, circle, polygon, surrogate', 'f32 rounding, trigonometric functions (axiomatised)'),
 'C16': ('proof', 'signed area = shoelace sum, centroid = moments / area, bounding box tight, `center_around_centroid`; `SimplePolygon::new` (at least three vertices, none twice, an area; the given cyclic order or its reverse if clockwise; exact positive area, box, diameter, pole inside), `get_edge`, `calculate_diameter` (the largest distance between two vertices of the hull)', 'that the largest distance of a set is attained on its hull (assumed)'),
 'C17': ('proof', '`cross`, `grow_convex_hull`, `convex_hull_from_points` (vertices among the points, every point on or left of every edge, strict left turns unless only two vertices), `convex_hull_indices`, `Edge::{extend_at_front, extend_at_back}`, `Circle::{new, bounding_circle}` (contains every circle)', 'hull of several shapes; f32 rounding'),
 'C18': ('proof', '`simplify_shape` (every step executes a valid candidate made of a concave, a collinear or two successive convex corners of the current outline, on the left for inflation and on the right for deflation; no more vertices, never fewer than three; area within the budget), `candidate_is_valid`, `execute_candidate`, `calculate_area_delta`, `replacing_vertex_convex_convex_candidate`, `calculate_intersection_in_front`, `CornerType::from`', 'that such steps contain, or are contained in, the outline as regions and keep it simple (a geometric argument outside the contracts; checked on integer and jagged outlines); `disabled` in the parser'),
 'C19': ('exploration', '`PlacedItem::new`, `PlacingOption::from_placed_item`, `center_around_centroid`, `Bin::new`, `Item::new`, `InferiorQualityZone::new` carry what they are given; `internal_to_absolute_transform`, `absolute_to_internal_transform` (each, and written-then-read), `json_simple_poly_to_points`, `convert_json_simple_poly`, `centering_transformation`, `pretransform_item`, `pretransform_bin`, `Parser::parse_item`, `Parser::parse_bin`, `compose_json_solution`', '`Parser::parse` itself (rayon), `build_*_solution`, serde and the file formats'),
 'C20': ('proof', 'the lbf crate: rotation distributions and samplers only draw rotations the item allows; `sample_layout` returns only a placement in the layout asked for whose collision query (ignoring only hazards irrelevant for the item) said no, at exactly the transformation returned; `find_lbf_placement` only in existing layouts or templates with stock; `LBFOptimizer::solve` places only missing items at such placements, and after a strip packing run nothing is missing', 'that a solution as a whole is feasible against an independent oracle, reproducibility from the seed, termination, f32 rounding'),
 'C21': ('proof', 'all four filters, `generate_irrelevant_hazards`, `HazardEntity::{is_universal, is_dynamic, position}`, `PlacedItem::new`, `generate_bin_hazards` (exactly the exterior, the holes and the zones, each with its shape), `Bin::new`, `Item::new`, `InferiorQualityZone::new`', '—'),
}
T = {
}
N = {k: dict(level=l, technique=T.get(k, P), level_note=f'Proved over the reals, partial correctness: {p} Bounded only: {b}.') for k, (l, p, b) in D.items()}
