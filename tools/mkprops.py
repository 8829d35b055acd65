#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the file itself is committed)."""
import json
L='jagua-rs/src/'
CD=L+'collision_detection/'; G=L+'geometry/'; PR=G+'primitives/'; EN=L+'entities/'
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'observe_at':obs} if obs else {}))))
p('C01','Polygon collision queries are exact',
 "A collision query for a simple polygon answers true exactly when the polygon is not entirely inside the engine's bounding square, or when its closed region shares a point with the region of some registered hazard that is not in the caller's ignore list (for the bin exterior: when the polygon is not strictly inside the bin outline). The answer does not depend on the quadtree depth, on the order in which hazards were registered, or on which vertex the polygon starts with.",
 ['inputs','configurations'],'every bin outline, set of hazards, ignore list, query polygon and quadtree depth',
 'The tests run an optimiser on eleven instances and re-check with the same engine; a missed or invented collision for a particular containment, touching or node-boundary situation is never compared with an independent answer.',
 [CD+'cd_engine.rs',CD+'quadtree/qt_node.rs',CD+'quadtree/qt_hazard.rs',CD+'quadtree/qt_hazard_vec.rs',CD+'quadtree/qt_partial_hazard.rs'],
 [('engine polygon query',CD+'cd_engine.rs CDEngine::poly_collides'),('node descent',CD+'quadtree/qt_node.rs QTNode::collides'),('hazard constriction per node',CD+'quadtree/qt_hazard.rs QTHazard::constrict')])
p('C02','Collected collisions are exactly the colliding hazards',
 "Collecting the collisions of a polygon adds to the caller's list exactly the registered hazards, outside the ignore list, whose region the polygon meets: none missing, none extra, none twice, and what was already in the list is kept. Collecting the hazards within a rectangle, circle or segment likewise reports every relevant hazard whose border it meets and only hazards whose region it meets.",
 ['inputs','configurations'],'every set of hazards, ignore list, list content beforehand, query and quadtree depth',
 'Collection results are only used by debug assertions in the tests; a hazard missed because another one shadows it in a node does not change any tested outcome.',
 [CD+'cd_engine.rs',CD+'quadtree/qt_node.rs',CD+'quadtree/qt_hazard_vec.rs'],
 [('collection over the tree',CD+'quadtree/qt_node.rs QTNode::collect_collisions'),('engine collection',CD+'cd_engine.rs CDEngine::collect_poly_collisions')])
p('C03','The fail-fast surrogate is conservative',
 "Every pole of a shape's surrogate is a disc inside the shape and every pier a segment inside it, wherever the shape lies, and the surrogate moves rigidly with the shape. Hence a collision reported for a transformed surrogate implies that the transformed shape itself collides with a hazard that is not ignored, and the combined surrogate-or-polygon query equals the polygon query.",
 ['inputs','configurations'],'every shape, surrogate configuration, transformation and set of hazards',
 'A surrogate that sticks out of its shape makes the optimiser reject valid positions silently; all tests still pass.',
 [G+'fail_fast/sp_surrogate.rs',G+'fail_fast/piers.rs',G+'fail_fast/poi.rs',CD+'cd_engine.rs'],
 [('pole generation',G+'fail_fast/poi.rs generate_additional_surrogate_poles'),('pier generation',G+'fail_fast/piers.rs generate'),('surrogate query',CD+'cd_engine.rs CDEngine::surrogate_collides')])
p('C04','Definite answers of tri-state queries are never wrong',
 "The quick point, segment and disc queries may answer 'undecided', but a definite yes is only given when the point, segment or disc meets a relevant hazard (or leaves the engine's box), and a definite no only when it meets none. On a sufficiently deep tree they do decide positions far from every border.",
 ['inputs','configurations'],'every set of hazards, ignore list, probe and quadtree depth',
 'A wrong definite answer is masked in the tests because the exact query runs afterwards.',
 [CD+'cd_engine.rs',CD+'quadtree/qt_node.rs'],
 [('definite collision at a node',CD+'quadtree/qt_node.rs QTNode::definitely_collides'),('engine queries',CD+'cd_engine.rs CDEngine::edge_definitely_collides')])
p('C05','Collision answers depend only on the current content',
 "After any sequence of placing items, removing them (immediately or deferred), re-placing removed items, flushing, taking snapshots, restoring snapshots and cloning, every collision query on a layout answers as on a layout built from scratch with the items it now contains. Restoring a snapshot brings back exactly the items of the moment it was taken and never alters other snapshots or clones.",
 ['histories'],'every history of placements, removals, flushes, snapshots, restores and clones',
 'The tests only ever add items to a layout; deferred removal, recovery of removed items and snapshot restore run along histories no test samples.',
 [CD+'cd_engine.rs',EN+'layout.rs',CD+'quadtree/qt_node.rs'],
 [('deferred deregistration and recovery',CD+'cd_engine.rs CDEngine::register_hazard / deregister_hazard / commit_deregisters'),('snapshot restore',CD+'cd_engine.rs CDEngine::restore_from_snapshot; '+EN+'layout.rs Layout::restore')])
p('C06','Restoring a solution restores the whole problem',
 "Restoring a problem (bin packing or strip packing) to any solution it created earlier, the most recent one or not, brings back the same layouts, placed items and positions, the same missing and placed quantities, the same used bins and stock, and the same usage, whatever was done in between, also when more copies than demanded had been placed. Restoring and immediately creating a solution reproduces the same solution.",
 ['histories'],'every history of placements, removals, strip changes, solution creations and restores',
 'No test restores a solution.',
 [EN+'problems/bin_packing.rs',EN+'problems/strip_packing.rs',EN+'problems/problem_generic.rs'],
 [('bin packing restore',EN+'problems/bin_packing.rs BPProblem::restore_to_solution'),('strip packing restore',EN+'problems/strip_packing.rs SPProblem::restore_to_solution')])
p('C07','Demand, stock, cost and usage are conserved',
 "After every placement, removal, layout creation and closing: for each item type missing plus placed copies equals the demand, for each bin type remaining stock plus open layouts equals the initial stock, and the reported counts, bin cost and usage equal the values recomputed from the layouts. Layouts opened for a placement contain that item, emptied layouts are closed, and ids of layouts are never reused.",
 ['histories'],'every history of operations on a problem',
 'The tests end with one solution and never compare the counters with the layouts after removals.',
 [EN+'problems/bin_packing.rs',EN+'problems/strip_packing.rs',EN+'problems/problem_generic.rs',EN+'layout.rs',EN+'solution.rs'],
 [('placing and removing',EN+'problems/bin_packing.rs BPProblem::place_item / remove_item'),('registering included items',EN+'problems/bin_packing.rs register_included_item / deregister_included_item')])
p('C08','Resizing a strip keeps what fits and accounts for the rest',
 "Resizing the strip at the back, at the front or around its centre changes the requested side(s) to give the requested width and keeps the height; every placed item that still lies inside stays where it was, every other item is removed and its demand becomes missing again. Fitting the strip to a feasible, non-empty layout keeps all items and makes the strip as wide as the items' horizontal extent, up to one per cent.",
 ['histories','inputs'],'every strip layout, history and requested width',
 'The tests only widen the strip at the back and fit it once at the end.',
 [EN+'problems/strip_packing.rs'],
 [('strip modification',EN+'problems/strip_packing.rs SPProblem::modify_strip_in_back / modify_strip_in_front / modify_strip_centered'),('fitting',EN+'problems/strip_packing.rs SPProblem::fit_strip')])
p('C09','Proximity grid values are exact after any history',
 "After any history of placements, immediate or deferred removals, flushes, snapshots and restores (items respecting the bin's exterior and holes), every cell of the hazard proximity grid holds the exact distances: to the bin's static hazards, to each quality zone, and to the nearest pole of any placed item, with the correct source. Access to the grid is refused only while deferred removals are pending.",
 ['histories'],'every history of layout operations on every bin and grid resolution',
 'Stale or missing proximity values only make the sampler blind or wasteful; the optimiser in the tests still finds some layout.',
 [CD+'hpg/hazard_proximity_grid.rs',CD+'hpg/hpg_cell.rs',CD+'hpg/boundary_fill.rs'],
 [('cell registration',CD+'hpg/hpg_cell.rs HPGCell::register_hazard / register_hazard_pole'),('boundary fill',CD+'hpg/boundary_fill.rs'),('deregistration',CD+'hpg/hazard_proximity_grid.rs HazardProximityGrid::deregister_hazard')])
p('C10','The proximity grid never discards a feasible position',
 "Whenever an item can be placed without collision such that its pole of inaccessibility is centred somewhere in a grid cell, in some orientation, the cell is reported as able to accommodate the item. Quality zones only count against items whose required quality exceeds that of the zone.",
 ['inputs','histories'],'every bin, content, item, position and orientation',
 'Feasible cells that are discarded never show up in a test: the optimiser just places the item elsewhere.',
 [CD+'hpg/hpg_cell.rs',CD+'hpg/hazard_proximity_grid.rs'],
 [('accommodation test',CD+'hpg/hpg_cell.rs HPGCell::could_accommodate_item')])
p('C11','Grid addressing and range cover are exact',
 "In a grid every element is found at its own row and column and only there, positions outside report none, and the neighbours of a cell are exactly the up to eight surrounding positions. The rows and columns returned for a coordinate range cover every grid line in that range, and generated grid cells are equal squares tiling the box except where no hazard-free point exists.",
 ['inputs'],'every grid shape, element set, index and coordinate range',
 'Off-by-one mistakes on the last row or column or for points on grid lines affect few cells and no tested outcome.',
 [CD+'hpg/grid.rs',CD+'hpg/grid_generator.rs'],
 [('index arithmetic',CD+'hpg/grid.rs Grid::to_index / neighbors'),('range cover',CD+'hpg/grid.rs Grid::rows_in_range / cols_in_range')])
p('C12','Primitive collision predicates agree with geometry',
 "For points, segments, axis-aligned rectangles, circles and simple polygons the pairwise collision tests answer true exactly when the two closed sets share a point (two parallel segments: never; points on a polygon's border: either), independent of the order and direction in which the operands are given. The tolerant variants never miss a true contact and never report sets that are clearly apart.",
 ['inputs'],'every pair of primitives',
 'Grazing, degenerate and axis-parallel cases are a vanishing part of what the optimiser tests execute.',
 [PR+'edge.rs',PR+'aa_rectangle.rs',PR+'circle.rs',PR+'simple_polygon.rs'],
 [('segment intersection',PR+'edge.rs edge_intersection'),('rectangle-segment test',PR+'aa_rectangle.rs'),('circle tests',PR+'circle.rs')])
p('C13','Distances are true Euclidean distances',
 "Distance queries between points, and from points to segments, rectangles, circles and polygons (and from circles and segments to circles), return the Euclidean distance between the closed sets, zero when they meet; distances to a border also say on which side the point lies. Squared variants return exactly the square of the distance.",
 ['inputs'],'every pair of primitives',
 'The distances steer search and grid values only; a wrong branch for one region of the plane changes no tested result.',
 [PR+'point.rs',PR+'edge.rs',PR+'aa_rectangle.rs',PR+'circle.rs',PR+'simple_polygon.rs'],
 [('distance implementations',PR+'edge.rs; '+PR+'aa_rectangle.rs; '+PR+'circle.rs (DistanceFrom)')])
p('C14','Rectangle algebra is exact',
 "The relation of two axis-aligned rectangles (disjoint, intersecting, enclosed, surrounding) is the relation of the sets; the four quadrants tile a rectangle in Cartesian order meeting at its centre; the intersection and the bounding rectangle of two rectangles are exactly those sets. Inflating to a square keeps the centre and the longer side and contains the original, and the corner, edge and quadrant-neighbour numberings agree.",
 ['inputs'],'every pair of rectangles with x_min<x_max and y_min<y_max',
 'The quadtree in the tests exercises only the rectangles that occur there; shared borders and containment limits are not sampled.',
 [PR+'aa_rectangle.rs',G+'geo_enums.rs'],
 [('relation',PR+'aa_rectangle.rs AARectangle::relation_to / almost_relation_to'),('quadrants',PR+'aa_rectangle.rs AARectangle::quadrants'),('square inflation',PR+'aa_rectangle.rs AARectangle::inflate_to_square')])
p('C15','Transformations compose, invert and decompose as rigid motions',
 "A transformation built by any chain of rotations, translations and compositions moves every point as applying the steps in order; its inverse undoes it, and decomposing it into rotation and translation and composing again gives the same motion. Moving points, segments, circles, polygons and surrogates, in place, as a copy or from a reference, yields the same moved set and updates area, bounding box, pole and surrogate consistently.",
 ['inputs','programs'],'every chain of transformation steps and every shape',
 'Tests use one composition order for each item and never the inverse except through file output that is not compared.',
 [G+'transformation.rs',G+'d_transformation.rs',PR+'simple_polygon.rs',G+'fail_fast/sp_surrogate.rs'],
 [('matrix algebra',G+'transformation.rs Transformation::rotate_translate / transform / inverse / decompose'),('polygon transform',PR+'simple_polygon.rs transform / transform_from')])
p('C16','Constructed polygons carry correct derived data',
 "A polygon constructed from a valid vertex list has the same vertices in counter-clockwise cyclic order, the exact area, the tight bounding box, the diameter, and a pole inside it, whichever orientation and starting vertex was given; its signed area, centroid and perimeter formulas are exact. Centring moves it rigidly so that the centroid lies at the origin; fewer than three vertices, repeated vertices and zero area are rejected.",
 ['inputs'],'every vertex list of a simple polygon',
 'The shapes in the test instances are given in one orientation and are never compared with independent values.',
 [PR+'simple_polygon.rs',G+'fail_fast/poi.rs'],
 [('construction',PR+'simple_polygon.rs SimplePolygon::new'),('area',PR+'simple_polygon.rs SimplePolygon::calculate_area'),('centroid',PR+'simple_polygon.rs centroid')])
p('C17','Convex hulls and bounding circles contain everything tightly',
 "The convex hull of any set of points, repeated and collinear ones included, is the smallest convex polygon containing all of them, in counter-clockwise order without superfluous vertices, and the hull of several shapes is that of all their vertices. The bounding circle of any set of circles contains all of them, also when one contains another or when they are concentric.",
 ['inputs'],'every point set and every list of circles',
 'Ties, collinear runs and nested circles do not occur in the tested instances.',
 [G+'convex_hull.rs',PR+'circle.rs'],
 [('hull',G+'convex_hull.rs convex_hull_from_points'),('bounding circle',PR+'circle.rs Circle::bounding_circle')])
p('C18','Simplification stays on the safe side within its budget',
 "Simplifying an outline yields a simple polygon with no more vertices that contains the original when asked to inflate and is contained in it when asked to deflate, and whose area differs from the original's by at most the given fraction. Disabling it, or allowing no deviation, changes the region not at all.",
 ['inputs'],'every simple outline, mode and tolerance',
 'A simplification that cuts off a corner of an item produces overlapping real pieces although every internal check, done on the simplified shapes, passes.',
 [L+'util/polygon_simplification.rs'],
 [('simplification',L+'util/polygon_simplification.rs simplify_shape')])
p('C19','Instances are parsed faithfully and solutions round-trip',
 "Parsing an instance represents every item, bin, hole, quality zone, demand, stock, allowed orientation, value, quality and strip height of the file, the recorded pre-transformations mapping file coordinates to internal ones. Writing a solution and reading it back reproduces the same items, bins, positions and usage, and each written transformation, applied to the item as given in the file, yields its position in the bin as given in the file.",
 ['inputs'],'every well-formed instance and every solution of it',
 'The tests never read a written solution back and never compare positions in file coordinates.',
 [L+'io/parser.rs',L+'io/json_instance.rs',L+'io/json_solution.rs'],
 [('parsing',L+'io/parser.rs Parser::parse'),('solution writing',L+'io/parser.rs compose_json_solution'),('coordinate conversion',L+'io/parser.rs internal_to_absolute_transform / absolute_to_internal_transform')])
p('C20','Every optimiser solution is feasible and reproducible',
 "Every solution produced by the left-bottom-fill optimiser has no two items overlapping, no item outside its container or over a hole or over a quality zone below its required quality, only allowed rotations, and no item type above its demand or bin type above its stock; in strip packing the whole demand is placed. Equal instance, configuration and seed give the same solution, and continuing after removals keeps all of this.",
 ['inputs','configurations','histories'],'every instance, configuration, seed and partial solution',
 'The eleven test instances with one seed each check with the engine itself that produced the layouts.',
 ['lbf/src/lbf_optimizer.rs','lbf/src/samplers/hpg_sampler.rs','lbf/src/samplers/ls_sampler.rs','lbf/src/samplers/rotation_distr.rs'],
 [('placement search','lbf/src/lbf_optimizer.rs sample_layout / find_lbf_placement'),('solve loop','lbf/src/lbf_optimizer.rs LBFOptimizer::solve')])
p('C21','Hazard relevance follows quality and filter rules',
 "A bin offers exactly its exterior, holes and quality zones as hazards, and a layout adds exactly its placed items; an item with a required quality ignores exactly the zones of at least that quality, an item without one ignores none. Filters by entity, by bin and combined filters ignore exactly the hazards they name.",
 ['inputs'],'every bin, quality, filter and set of hazards',
 'The tested instances have no quality zones.',
 [CD+'hazard_filter.rs',CD+'hazard.rs',EN+'bin.rs',EN+'item.rs',EN+'quality_zone.rs'],
 [('filters',CD+'hazard_filter.rs'),('bin hazards',EN+'bin.rs generate_hazards_from_bin')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
