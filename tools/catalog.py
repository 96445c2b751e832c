"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py).

Each entry: id, title, statement, over, qtext, why, files, mechanism, observe, technique, note.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe, technique, note,
      level='exploration'):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, observe=observe, technique=technique, note=note,
                      level=level))


T_HYP = 'property-based testing (Hypothesis): '
GEN = 'Bounded random search; meshes up to a few hundred faces; never establishes absence.'

P('C01', 'Grid files survive load and store without loss',
  'Loading a valid surface-grid file and storing it back preserves the title, the zones with their names and order, the per-cell variables with their names, order and exact floating-point values, the order of cells inside every zone, and the exact coordinates of every cell\'s three corners in their original cyclic order. Storing is a fixed point: loading the stored file and storing it again reproduces it byte for byte, and the stored file declares counts that match its contents. The result of a load depends on the file alone, never on what the grid object held before. Data given to some cells only are stored, with zeros for the other cells.',
  ['inputs', 'histories'],
  'All valid FETRIANGLE BLOCK files: any number of zones (including repeated zone names), cells, variables, finite values of any magnitude, names with spaces or punctuation; any sequence of loads into one object.',
  'Tests load three fixed sample grids and compare counts only; nobody compares values, orientation, names, or re-uses an object with different content.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py'],
  [('full-precision text output', 'Zone.get_nodes_coord_slice_str / get_faces_data_slice_str'), ('line-oriented reader', 'Grid.load'), ('reset before load', 'Grid.clear')],
  ['Grid.load', 'Grid.store'],
  T_HYP + 'round trip against an independent parser and model of the file', GEN)

P('C02', 'Loaded grids have a complete and consistent incidence structure',
  'After a load every node, edge, cell and zone is linked in both directions: a cell has three distinct corners, three edges joining exactly those corners and one zone; there is exactly one edge per unordered pair of corners used by some cell, with one or two adjacent cells; and a zone lists exactly the nodes and edges of its own cells, once each. Every object\'s global identifier equals its position in the grid. A file in which three cells share one edge is refused, and duplicated or unreferenced nodes never create extra edges or cells.',
  ['inputs'],
  'All conforming triangulations (manifold with or without border, several components, any zone assignment and any local numbering), with merging of coincident nodes on or off.',
  'Tests check totals (nodes, edges, cells) on fixed files; the relation must hold per object for every topology and zone layout.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/node.py', 'crysgsu/gsu/zone.py'],
  [('edge creation and linking', 'Grid.complex_link_face_node_node_edge, Grid.find_edge'), ('two-cell limit', 'Grid.link_edge_face'), ('zone relinking', 'Grid.link_nodes_and_edges_to_zones')],
  ['Grid.Nodes', 'Grid.Edges', 'Grid.Faces', 'Grid.Zones'],
  T_HYP + 'structural invariants and a from-scratch incidence model of the generated mesh', GEN)

P('C03', 'Coincident nodes of different zones are merged exactly',
  'With merging on, two node records become one node exactly when all three coordinates agree after rounding to ten decimals, and the merged node keeps the position of the first record read; distinct positions are never merged however close zones lie to each other. With merging off, every zone keeps its own copies, so the node total is the sum over zones and no edge connects two zones. Cutting a grid into zones, storing it and loading it again with merging on gives back the same number of nodes, edges and cells and the same adjacency.',
  ['inputs'],
  'All grids and zone cuts, with coordinate perturbations below, at and above the rounding unit, at any magnitude and sign (including -0.0).',
  'Tests use sample grids whose shared nodes are bit-identical; near-coincident coordinates never occur there.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/node.py', 'crysgsu/geom/vect.py'],
  [('rounded coordinate bag', 'Grid.find_near_node, Grid.RoundedCoordsBag'), ('rounded key', 'Node.RoundedCoords'), ('merge switch', 'Grid.add_node')],
  ['Grid.nodes_count', 'Grid.edges_count', 'Grid.Nodes'],
  T_HYP + 'reference dictionary keyed by rounded coordinates; differential merge on/off', GEN)

P('C04', 'Malformed grid files are refused, never half-loaded as valid',
  'A grid file that is structurally damaged (a record line missing or repeated, a wrong or missing zone header, a declared count larger than the data present, a corner number outside the zone\'s nodes including zero and negative numbers, a cell with other than three corners, a number that is not a number, or a file cut inside a zone) makes the load raise an error. Comment lines between records are ignored and never change the loaded grid. After a refused load the same object can load a valid file and obtains exactly that file\'s content.',
  ['inputs', 'fault_sequences'],
  'All single structural mutations of all valid files, followed by a valid load.',
  'No existing test feeds a damaged file; the space of damages is unbounded.',
  ['crysgsu/gsu/grid.py'],
  [('header validation', 'Grid.load'), ('corner count check', 'Grid.load'), ('unexpected line rejection', 'Grid.load')],
  ['Grid.load'],
  'mutation fuzzing (Hypothesis-driven structured mutations of generated valid files), must-reject / must-accept oracle', 'Only damages whose rejection is implied by the format are asserted; values that merely differ are not.')

P('C05', 'Every decomposition is a partition and changes nothing but zones',
  'After any sequence of decompositions (single zone, random, linear, hierarchical, breadth-first) every cell belongs to exactly one zone of the grid, each zone lists exactly the cells, nodes and edges that belong to it, and no zone holds a cell twice. Node positions, cells, their corners, their data, their order and all global identifiers are the same as before. The grid can still be stored and loaded back to the same cells and zones.',
  ['inputs', 'histories'],
  'All grids (flat, closed, disconnected, with any coordinates) and all sequences of decomposition calls and parameters.',
  'Tests run each algorithm once on a loaded bunny and check the sum of cells; sequences and degenerate geometry are not covered.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py'],
  [('exclusive membership', 'Zone.add_face / Face.unlink_from_zone'), ('relink after decomposition', 'Grid.post_decompose'), ('trial split roll-back', 'Grid.split_zone_metric')],
  ['Grid.Zones', 'Face.Zone', 'Grid.store'],
  'stateful property-based testing (Hypothesis histories of decompositions) with partition invariant and snapshot comparison', GEN)

P('C06', 'Decompositions produce the promised number and size of zones',
  'Linear and breadth-first decomposition into n zones produce exactly n zones whose sizes differ by at most one cell and sum to all cells, linear zones being contiguous runs in cell order; single-zone decomposition gives one zone, random decomposition exactly n zones, all of them equally likely for every cell. Hierarchical decomposition with L levels yields 2^(L-1) non-empty zones whenever every zone can be cut, never yields an empty zone from a non-empty set of cells to distribute, and at each cut puts the cells strictly below the median of the chosen sign function on one side. The cut chosen is one with the smallest number of separated neighbours among the available sign functions. Breadth-first zones grow along edges from a seed: each takes whole remaining pieces of the surface and, of at most one more, the part nearest to the seed. Without a given number there are 32 zones or six levels.',
  ['inputs', 'configurations'],
  'All grids, zone counts (smaller than, equal to and larger than the number of cells) and level counts, including custom sign functions.',
  'Tests check one size per algorithm on one grid.',
  ['crysgsu/gsu/grid.py'],
  [('remainder distribution', 'Grid.decompose_linear, Grid.decompose_farhat'), ('median cut with metric', 'Grid.split_zone, Grid.split_zone_metric')],
  ['Grid.Zones'],
  T_HYP + 'arithmetic oracle for sizes and an independent recursive median-cut reference model', GEN)

P('C07', 'Fixed zones survive decomposition untouched',
  'When zones are declared fixed, hierarchical and breadth-first decomposition leave each of them as a zone with the same name and exactly the same cells, and only the remaining cells are redistributed, into the requested number of additional zones. No newly created zone contains a cell of a fixed zone. Which zones are fixed is decided by each call alone, so a zone fixed earlier is redistributed by a later call that does not list it.',
  ['inputs', 'histories', 'configurations'],
  'All grids, all subsets of zone names (including repeated names and all zones), any sequence of decompositions.',
  'Tests use two fixed zones of one grid, once per algorithm, checking totals only.',
  ['crysgsu/gsu/grid.py'],
  [('fixed flag', 'Zone.IsFixed'), ('selective unlink', 'Grid.unlink_faces_from_zones'), ('skip in splitting', 'Grid.split_zone')],
  ['Grid.decompose_hierarchical', 'Grid.decompose_farhat'],
  'stateful property-based testing with before/after comparison of fixed zones', GEN)

P('C08', 'The split tool honours strategy, fixed zones and recovery factor',
  'Splitting with strategy n<k> yields k zones counting the fixed ones, and with h<k> yields 2^k zones besides the fixed ones when every zone can be cut (a single zone when one domain and no fixed zone is asked for), while the cells and their data are those of the input. Every cell gets the given recovery factor exactly when the grid does not carry one, and the parameters are taken from the JSON file with documented defaults (n1, no fixed zones, 1.0) and overridden by the command line. Missing files, wrong extensions, unknown zones, unknown strategies and impossible counts raise an error, and results go to exactly the requested place, named after the grid with a twelve-digit timestamp (zeros when the name has none).',
  ['inputs', 'configurations'],
  'All grids, strategies, fixed-zone lists, JSON files and output modes, through the function and the command line.',
  'The tests do not exercise the tool at all except through one sample run.',
  ['crysgsu/split.py', 'crysgsu/utils.py', 'crysgsu/gsu/grid.py'],
  [('strategy parsing and checks', 'split.split'), ('defaults', 'split.extract_*_from_json'), ('recovery factor', 'split.split')],
  ['split.split', 'split.py command line'],
  T_HYP + 'model of the tool contract over generated grids, strategies and JSON files', GEN)

P('C09', 'Each .cry file is a faithful, self-consistent piece of the grid',
  'For every zone there is exactly one .cry file, whose declared numbers of nodes, edges, cells and cross-zone edges match its contents, and whose cells carry the global identifiers, node coordinates (bit-exact), fixed variable list values and corner order of the zone\'s cells in the zone\'s order. Cell-to-node, cell-to-edge and edge-to-node tables use valid zero-based local numbers and agree with one another: the three edges listed for a cell join exactly its three corners. Together the files contain every cell of the grid exactly once.',
  ['inputs', 'configurations'],
  'All grids and decompositions, including zones that are empty, isolated, or touch several others, and grids lacking some of the fixed variables (written as zero).',
  'Tests never look inside a .cry file.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
  [('local numbering tables', 'Grid.store_mpi'), ('zone membership of nodes/edges', 'Grid.link_nodes_and_edges_to_zones')],
  ['*.cry files'],
  T_HYP + 'independent .cry parser compared with the generated mesh model', GEN)

P('C10', 'MPI borders of neighbouring .cry files match pairwise',
  'If the file of zone i lists a border with zone j then the file of zone j lists a border with zone i of the same length, the k-th edge of both lists is the same geometric edge, and every listed edge lies between one cell of i and one cell of j. The border lists of a file contain each of its cross-zone edges exactly once and no other edge, their number equals the declared number of borders, and their total length equals the declared number of cross-zone edges.',
  ['inputs', 'configurations'],
  'All grids and all decompositions, including zones sharing several disjoint borders and random decompositions where every cell is a border cell.',
  'Exchange between processes relies on the order of the two lists; no test reads them.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
  [('common edge order', 'Grid.store_mpi walks zone edges in global order'), ('border detection', 'Edge.is_connect_zones')],
  ['MPI-BORDERS sections of *.cry files'],
  T_HYP + 'pairwise consistency of parsed border lists against geometry and the mesh model', GEN)

P('C11', 'Splitting, calculating and merging puts every result on its own cell',
  'If every zone\'s calculation file lists new values under the global identifiers of its cells, merging produces for each timestamp present one grid file in which every cell holds exactly the values computed for it at that timestamp, and geometry, zones and cell order equal the original grid. Files that do not belong to the grid or lack a process number or timestamp are ignored, each timestamp starts from the original grid (nothing leaks between timestamps), and a cell absent from the files keeps its original data. Balance tables of the processes are summed column by column with the time column kept, for any number of rows including one. A line of results with a wrong identifier or number of values and tables of different sizes are errors.',
  ['inputs', 'histories'],
  'All grids, decompositions, sets of timestamps, orders and interleavings of files, missing zones and unrelated files in the directory.',
  'Tests have no merge run; the mapping must hold for every decomposition and directory content.',
  ['crysgsu/merge.py', 'crysgsu/utils.py', 'crysgsu/gsu/grid.py', 'crysgsu/gsu/face.py'],
  [('data by global id', 'Grid.load_faces_calc_data'), ('grouping by timestamp', 'utils.group_txt_files_by_timestamps'), ('reload per timestamp', 'merge.merge')],
  ['<name>_r_<timestamp>.dat', '<name>.csv'],
  T_HYP + 'end-to-end pipeline with a model solver and an expected value per cell and timestamp', GEN)

P('C12', 'Edge statistics and zone adjacency counts are exact',
  'The zone adjacency matrix is symmetric, its diagonal counts the edges inside each zone, its off-diagonal entries count the edges between each pair of zones, its last column counts border edges of each zone, and border, inner and cross counts sum to the number of edges with percentages summing to 100. Edge predicates (border, inner, outer, cross, connecting, adjacent) and per-zone totals agree with the cells around the edge. The textual report prints these same numbers for any grid.',
  ['inputs', 'configurations'],
  'All grids and decompositions, including empty zones, a single zone, closed and open surfaces.',
  'Tests check totals on one grid; the report is not executed by any test.',
  ['crysgsu/gsu/zones_adjacency_matrix.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/grid.py'],
  [('edge classification', 'ZonesAdjacencyMatrix.__init__'), ('report', 'Grid.print_info')],
  ['ZonesAdjacencyMatrix', 'Grid.print_info'],
  T_HYP + 'brute-force recount from cells; parsing of the printed report', GEN)

P('C13', 'Subdividing cells and edges keeps a valid mesh of the same surface',
  'Dividing a cell by an inner point and splitting an inner or border edge by one or two points yields the documented number of cells, edges and nodes, keeps all objects linked in both directions with identifiers forming 0..n-1, and leaves every other cell untouched; each divided cell passes its identifier on to one of its own parts. The new cells cover exactly the old ones (same total area and border), keep their orientation, data and zone, and an operation not applicable to the edge reports so and changes nothing. This remains true after any sequence of such operations, and the result can be stored, loaded and decomposed.',
  ['inputs', 'histories'],
  'All grids and all sequences of subdivision operations at interior points of cells and edges, including edges between different zones.',
  'Tests perform each operation once on one tiny grid and check counts.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/node.py'],
  [('divide_face, cut_edge, cut_single_edge, cut_edge_with_two_nodes', 'Grid')],
  ['Grid.divide_face', 'Grid.cut_edge', 'Grid.cut_single_edge', 'Grid.cut_edge_with_two_nodes'],
  'stateful property-based testing (Hypothesis operation histories) with mesh invariants, area and orientation model', GEN)

P('C14', 'Collapsing an edge and flipping a diagonal keep a valid mesh',
  'Collapsing an inner edge removes that edge, its two cells and one end point, moves the other end to the edge\'s middle and keeps every other cell with its data, zone and orientation; flipping replaces the longest edge of a cell, when it is inner, by the other diagonal of the two cells around it, and these keep their two sets of identifier, data and zone. Surviving objects keep their identifiers unless these are out of range. Afterwards all objects are linked in both directions, identifiers form 0..n-1 and the grid can be stored and loaded. On a border edge (flipping: when the longest edge is a border one) both report failure and change nothing.',
  ['inputs', 'histories'],
  'All grids, all edges satisfying the usual link condition (collapse) or whose two cells form a convex quadrilateral (flip), in any sequence together with subdivisions.',
  'Tests perform each once on a tiny grid and check counts.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/node.py'],
  [('collapse', 'Grid.collapse_edge, Node.replacing_node, Grid.del_node'), ('flip', 'Grid.collapse_face')],
  ['Grid.collapse_edge', 'Grid.collapse_face'],
  'stateful property-based testing (operation histories) with mesh invariants and a simplicial reference model', GEN)

P('C15', 'Triangle intersections agree with exact geometry',
  'A segment and a triangle in general position are reported to intersect exactly when they do, the reported point lying on both within rounding; a segment parallel to the plane and off it never intersects, and a segment lying in the plane yields the ends of its overlap with the triangle when it has one. Two triangles in general position are reported to intersect exactly when they share a point, all reported points lie on both triangles, none is reported twice, and the answer is the same whichever triangle asks; two triangles of one plane intersect exactly when their common part is not empty, and all of its corners are reported. Answers do not depend on the size of the objects, on the order or cyclic choice of corners or on the direction of the segment.',
  ['inputs'],
  'All non-degenerate triangles and segments at scales from 1e-4 to 1e4 whose exact configuration is decided by a margin, plus coplanar configurations with integer coordinates in coordinate planes and in turned planes.',
  'Tests contain two dozen hand-made configurations at unit scale.',
  ['crysgsu/geom/triangle.py', 'crysgsu/geom/vect.py', 'crysgsu/geom/segment.py'],
  [('linear system', 'Triangle.intersection_with_segment'), ('edge tests and deduplication', 'Triangle.intersection_with_triangle')],
  ['Triangle.intersection_with_segment', 'Triangle.intersection_with_triangle'],
  T_HYP + 'differential against exact rational arithmetic; metamorphic permutations and scaling', 'Near-degenerate configurations (inside the margin) are skipped and counted.')

P('C16', 'The triangle cloud finds exactly what brute force finds',
  'For any list of triangles and any segment the spatial tree returns some triangle hit by the segment exactly when at least one triangle of the list is hit, and the returned triangle is indeed hit and belongs to the list. Intersecting two clouds reports exactly the intersecting pairs that testing all pairs would report, each with its points for both triangles. Building the tree keeps every triangle exactly once and inside the box of its branch, terminates for any input including identical triangles, and a segment outside the overall box is never hit.',
  ['inputs'],
  'All lists of triangles (clustered, identical, flat, large), all segments.',
  'Tests run it on three fixed triangles.',
  ['crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/box.py', 'crysgsu/geom/triangle.py'],
  [('median separation', 'TrianglesCloud.__init__'), ('box rejection', 'Box.is_intersect_with_segment, Box.is_potential_intersect_with_box')],
  ['TrianglesCloud.first_intersection_with_segment', 'TrianglesCloud.intersection_with_triangles_cloud'],
  T_HYP + 'differential against brute force over all triangles', GEN)

P('C17', 'Geometric measures equal their mathematical definitions',
  'Areas, normals, centroids, sides, angles, boxes, tetrahedron and displaced-triangle volumes, prism coefficients and vector operations equal their definitions within rounding for any non-degenerate input: they are invariant under rotation, translation and corner permutation (up to the sign of the normal) and scale with the proper power of the size. For a triangle displaced by any small parallel shift the displaced volume equals area times height. Angle and quality predicates agree with the angles computed independently.',
  ['inputs'],
  'All non-degenerate triangles, vectors and point sets from 1e-6 to 1e6.',
  'Tests contain a handful of unit triangles.',
  ['crysgsu/geom/triangle.py', 'crysgsu/geom/vect.py', 'crysgsu/geom/box.py', 'crysgsu/geom/utils.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py'],
  [('vector algebra', 'geom.Vect'), ('volumes', 'geom.utils')],
  ['geom.Triangle', 'geom.Vect', 'geom.Box', 'geom.utils'],
  T_HYP + 'differential against numpy / rational definitions; metamorphic rigid motions', GEN)

P('C18', 'Droplet flights obey their step rule and end with the right diagnosis',
  'A simulated droplet path starts at the given point, and every next point follows from the previous one by the drag step with the air velocity of the nearest data point (position advanced by current velocity, velocity by drag acceleration directed towards the air velocity). It ends at the first event: crossing a surface (with a cell really hit by the last segment and no earlier segment hitting any cell), leaving the box of the air data, standing still, or exceeding the step limit; and the reported diagnosis names that event. No input with positive diameter and time step makes the simulation fail.',
  ['inputs', 'histories'],
  'All air clouds, droplet diameters, velocities (including equal to the air velocity), time steps, step limits and obstacle surfaces.',
  'Tests never run a flight.',
  ['crysgsu/drops.py', 'crysgsu/geom/trajectory.py', 'crysgsu/geom/box.py', 'crysgsu/geom/triangles_cloud.py'],
  [('flight loop', 'drops.Space.fly'), ('drag step', 'drops.Space.fly_step'), ('nearest data', 'drops.Space.find_nearest')],
  ['drops.Space.fly'],
  T_HYP + 'replay of the trajectory against an independent step model and brute-force intersection', GEN)

P('C19', 'The droplet tool writes a complete checkpoint grid and trajectory file',
  'For every cell whose stall value exceeds the threshold (and for no other) the trajectory file gets one path named after the cell, starting at the cell centre lifted along its normal by the given distance; where such a path hits a cell, the output holds on that cell the secondary impingement of the last droplet that hit it, namely its stall value divided by the hit cell\'s area. All other data, zones and geometry of the output equal the input, except that the stall fields are removed and temperature, water and ice are zeroed. The air file is read the same way whatever non-air zones surround the air zone, and parameters left out on the command line take their documented defaults (1e-4, 1e-5, 1e-6, 200).',
  ['inputs', 'configurations'],
  'All stall grids, air files with brick and other zones in any order, distances, thresholds and limits.',
  'Tests never look at what the tool writes.',
  ['crysgsu/drops.py', 'crysgsu/gsu/grid.py', 'crysgsu/geom/trajectory.py'],
  [('tool loop', 'drops.drops'), ('field clean-up', 'Grid.convert_grid_stall_to_check_point, Grid.clean_t_hw_hi'), ('air reader', 'drops.read_vel_field_from_file')],
  ['output grid file', 'trajectory file'],
  T_HYP + 'end-to-end run compared with an independent model of the whole tool', GEN)

P('C20', 'Remeshing moves nodes only, grows ice outwards and clears it',
  'Remeshing never changes topology, zones, identifiers or any cell variable other than the ice height, which is zero everywhere afterwards. Without ice no node moves; where no cell around a node carries ice that node stays (each pass of height smoothing lets ice reach one further ring of cells); and a uniform ice height on a flat plate raises every node by exactly that height along the normal whatever the number of steps. A single step without smoothing moves every node along the normalised sum of the unit normals of its cells, by the mean over these cells of the height h that solves area * h + b * h^2 = planned volume of the cell (area times ice height), b being the quadratic coefficient of the volume swept by the cell along those directions. The number of steps stays between the configured bounds, contradictory bounds raise an error, and options absent from the parameter file keep their documented defaults.',
  ['inputs', 'configurations'],
  'All smooth grids (node direction within 75 degrees of the normals of its cells, ice thinner than 0.15 of the shortest side), ice fields and option combinations (steps, normal and height smoothing, redistribution, null-space smoothing with steps up to 0.2 when border nodes are free).',
  'Tests never look at what the remesher computes.',
  ['crysgsu/remeshing.py', 'crysgsu/geom/utils.py', 'crysgsu/remesh.py'],
  [('step loop', 'TongRemesher.__call__'), ('step count', 'TongRemesher.calculate_nsteps'), ('shifts', 'TongRemesher.define_ice_shifts, move_nodes')],
  ['Grid after remeshing'],
  T_HYP + 'invariants, fixed points and analytic plate solution', GEN)

P('C21', 'Remeshing commutes with rigid motions and ignores numbering and zones',
  'Rotating and shifting a grid and then remeshing gives the same surface, within rounding, as remeshing and then rotating and shifting; scaling lengths and ice heights together scales the result. The result per node does not depend on how cells are ordered, numbered or distributed between zones, nor, in a single step or without redistribution, on the cyclic choice of the first corner of a cell. Disconnected components remesh independently of each other unless heights are smoothed.',
  ['inputs', 'configurations'],
  'All smooth grids, ice fields, rotations, shifts, scales from 1e-4 to 1e3, permutations and zone layouts, with the step count fixed.',
  'A metamorphic relation over pairs of runs; tests never run the remesher.',
  ['crysgsu/remeshing.py', 'crysgsu/geom/utils.py', 'crysgsu/geom/vect.py'],
  [('geometry-only formulas', 'TongRemesher')],
  ['Grid after remeshing'],
  T_HYP + 'metamorphic relations (rigid motion, permutation, re-zoning, component independence)', GEN)

P('C22', 'The accreted volume approaches the planned ice volume',
  'On a smooth convex or flat surface with smoothly varying ice, the volume swept by remeshing equals the planned volume (sum of area times height) up to the discretisation error (which vanishes for a single step of uniform ice on a regular plate), with and without redistribution of the missing volume, and for any number of steps; redistributing the missing volume over N steps does not make that error larger. Redistribution never plans negative ice, and height smoothing only moves planned ice between neighbouring cells without changing its total. The relative error of uniform ice in a single step does not grow with its thickness (by more than a tenth of thickness over curvature radius). More ice never yields less swept volume in total.',
  ['inputs', 'configurations'],
  'All sphere-like and flat grids with ice thin relative to curvature, all step counts and options other than smoothing of normals.',
  'Tests never look at what the remesher computes.',
  ['crysgsu/remeshing.py', 'crysgsu/geom/utils.py'],
  [('volume chunks', 'TongRemesher.calc_ice_chunks'), ('rest volume', 'TongRemesher.move_nodes'), ('height smoothing', 'TongRemesher.heights_smoothing')],
  ['Grid after remeshing'],
  T_HYP + 'volume balance oracle with tolerance derived from discretisation', 'Tolerance documented in DESIGN.md.')

P('C23', 'Mesh smoothing keeps boundaries, flat surfaces and columns',
  'Null-space smoothing with fixed borders leaves every border node in place, keeps every node of a flat patch in its plane, converges to no motion on a regular flat grid and never changes topology or data; when asked, it stores the grid after each iteration under the number of the iteration; every free node is shifted by the safety factor times the projection onto the null space of its normals (directions whose eigenvalue is small relative to the largest) of the vector to the mean of its cells\' centroids. In pseudo-two-dimensional mode the nodes of one column keep their own height coordinate and share their two other coordinates after every step, and a grid that is not made of equal columns of at least two nodes is refused.',
  ['inputs', 'configurations'],
  'All flat and curved grids, smoothing parameters and extruded grids.',
  'Tests never run the smoothing or the pseudo-2D mode.',
  ['crysgsu/smoothing.py', 'crysgsu/remeshing.py'],
  [('null-space projection', 'NullSpaceSmoothing'), ('border fixing', 'Grid.mark_all_fixed_nodes'), ('column correction', 'TongRemesher.correct_coords_for_pseudo_2d_oz')],
  ['Grid after smoothing'],
  T_HYP + 'invariants of flat patches, borders and extruded columns', GEN)

P('C24', 'Field transfer takes values from the nearest source cell',
  'Interpolating temperature and water (or adding the collection field from another grid) gives every target cell the values of a source cell whose centre is nearest to the target cell\'s centre, and changes nothing else in the target. Transferring between identical grids reproduces the fields exactly, and every transferred value occurs in the source. The tool writes the result to the requested file or to the documented default name and leaves its inputs alone.',
  ['inputs', 'configurations'],
  'All pairs of grids, shifted, rescaled or re-zoned, through functions and command lines.',
  'No test covers these tools.',
  ['crysgsu/convert/interpolate.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py'],
  [('k-d tree query', 'interpolate.face_centered_interpolation'), ('argmin search', 'lazurit_add_beta_from_ansys')],
  ['result grid files'],
  T_HYP + 'brute-force nearest-centre oracle with ties accepted', GEN)

P('C25', 'Conversion from Lazurit blocks keeps geometry and cell data',
  'Converting pairs of structured-block files gives one zone per block, named after it, with the block\'s nodes and two triangles per quadrilateral that cover it without overlap, all with the normal along the j direction times the i direction. Both triangles of a quadrilateral carry that quadrilateral\'s values, with the three shear components negated, for any block dimensions and any line layout of the numbers. Mismatched, missing or odd file sets are refused.',
  ['inputs', 'configurations'],
  'All sets of blocks of any dimensions (2 x 2 and up, non-square), any wrapping of numbers over lines.',
  'No test covers the converter; the sample blocks are not compared with anything.',
  ['crysgsu/convert/lazurit_to_crystal.py'],
  [('link generation and data doubling', 'lazurit_to_crystal main')],
  ['converted grid file'],
  T_HYP + 'generated structured blocks with a per-quadrilateral expected value', GEN)

P('C26', 'Conversion from ANSYS files keeps selected zones, values and orientation',
  'Converting the three solution files keeps exactly the requested zones in file order and the requested variables whatever their position, and turns each quadrilateral into two triangles and each degenerate one into one triangle with original or reversed orientation as asked. Heat-transfer and recovery coefficients follow their formulas from the flux, surface temperature and adiabatic temperature, and cell values are means of the corner values, all within the six decimals of the intermediate format. Coordinates that cannot be read as numbers count as zero. Files of the same base name only are read; a missing one is an error, and so is one where a requested zone has fewer lines than it declares; intermediate phases never alter the inputs.',
  ['inputs', 'configurations'],
  'All triples of files listing the kept zones in one order, with any other zones, variable orders, element shapes and free-stream parameters; surface and adiabatic temperatures differ.',
  'No test covers the converter.',
  ['crysgsu/convert/ansys_to_crystal.py', 'crysgsu/convert/gsu_converter.py'],
  [('phases', 'ansys_to_crystal'), ('triangulation', 'gsu_converter.Grid.LoadNodesData')],
  ['converted grid file'],
  T_HYP + 'generated triples of files with an independent model of the conversion', 'Six-decimal intermediate text bounds the tolerance.')

P('C27', 'Ghost exchange and gathering deliver each value to its own cell',
  'When all processes exchange a field, every cell on the other side of a border of a zone receives, on that zone\'s process, the value its owner had, and no other cell of the process changes; this holds for any assignment of cells to processes and any message completion order. Gathering ice heights on the root gives each cell of every zone the value computed by its process, for zones of any, also unequal, sizes, before the remeshed grid is stored.',
  ['schedules', 'inputs', 'configurations'],
  'All grids and numbers of processes, all message orders allowed by the non-blocking calls.',
  'No test runs more than one process.',
  ['crysgsu/crys.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
  [('super-buffers', 'crys.get_mpi_borders, put_to_superbuffer, start_exchanges, get_from_superbuffer'), ('gather', 'crys.remesh')],
  ['cell data after exchange', 'stored remeshed grid'],
  'property-based testing with a simulated MPI communicator whose delivery order is generated', 'The communicator is a model: real MPI progress is not exercised.')

P('C28', 'Result-file naming is parsed unambiguously',
  'A name built from a stem, a five-digit process number and a twelve-digit timestamp is split back into exactly these parts for any stem, including stems with digits, dots and underscores; a trailing twelve-digit timestamp is recognised exactly when present and separated from the rest, with a zero timestamp otherwise. A file is accepted as a result of a grid exactly when its stem equals the grid\'s name and number and timestamp are digits and the extension fits. Grouping by timestamp is a partition of the files in their order, and flattening nested lists keeps all elements in order.',
  ['inputs'],
  'All stems, numbers, timestamps, foreign file names and nested lists.',
  'Tests cover three names.',
  ['crysgsu/utils.py'],
  [('fixed-width slicing', 'utils.dummy_split_filename'), ('timestamp pattern', 'utils.has_filename_timestamp'), ('grouping', 'utils.group_txt_files_by_timestamps')],
  ['utils functions'],
  T_HYP + 'construct-then-parse round trip and recogniser equivalence', GEN)

P('C29', 'The native kernel updates each array in place and stays inside it',
  'The native kernel adds its fixed increments (one to temperature, two to ice, three to water) to every element of the three given double arrays, exactly once and in place, for any length including zero. It never reads or writes outside the arrays, also when their lengths differ, and wrong element types or non-contiguous arrays are refused with an error instead of being corrupted.',
  ['inputs'],
  'All lengths (equal and unequal), offsets into larger buffers, dtypes and strides.',
  'Tests never call the extension.',
  ['crysgsu/cpp/src/swim.cpp', 'crysgsu/cpp/src/swim.i', 'crysgsu/cpp/src/numpy.i'],
  [('element loop', 'swim.cpp hi'), ('array typemaps', 'swim.i')],
  ['swim.hi'],
  'property-based testing of the rebuilt extension with guard zones, plus an address-sanitized native driver over generated lengths', GEN)

P('C30', 'Explosion shifts zones rigidly and array views match the objects',
  'Exploding a grid loaded without merging shifts every zone rigidly by the given fraction of the vector from the grid\'s mean point to the zone\'s mean point, leaving shapes, cells and data unchanged; factor zero moves nothing. Array views of coordinates, variables, single fields and connectivity hold, row by row, exactly the values of the zone\'s nodes and cells in order. Lists of triangles correspond one to one to cells with a link back.',
  ['inputs', 'configurations'],
  'All grids, decompositions and factors.',
  'Tests never call these.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py'],
  [('mean-point shift', 'Grid.move_from_mean_point'), ('views', 'Zone.coords_np_array, variables_np_array, connectivity_list_faces_nodes, get_variable')],
  ['Zone arrays', 'node positions'],
  T_HYP + 'independent recomputation', GEN)

P('C31', 'Physical laws interpolate and fit their tables',
  'A linear law reproduces every table point and between neighbouring table points takes the linearly interpolated value; a constant law returns its constant everywhere; a fitted law reproduces exactly (within rounding) data generated by a function of the fitted family and otherwise is no worse in least squares than nearby parameter choices. Linear and fitted laws accept arrays and return the element-wise result, and the built-in tables (viscosity and heat capacity of water, ice and air, heats of vaporization and sublimation) have increasing arguments and agree with published correlations within a few per cent; capacities of water, viscosity and heats fall and the capacity of ice rises with temperature.',
  ['inputs'],
  'All tables with increasing arguments, all query points inside the range, scalar or array.',
  'No test covers the laws.',
  ['crysgsu/phys/laws.py'],
  [('spline of degree one', 'LinearLaw'), ('least squares', 'FuncLaw')],
  ['law calls'],
  T_HYP + 'differential against numpy.interp and least-squares optimality', GEN)

P('C32', 'The refine tool inserts intersection points without losing surface',
  'Refining a grid whose cells meet only along shared edges and corners leaves it as it is: geometry, data and zones. Where cells touch or pierce each other, the result covers the same surface cell by cell: every part of a divided cell lies in it, keeps its orientation, data and zone, and together the parts fill it; all old nodes are present and the result is a valid grid file. A cell touched at exactly one point inside it or on an edge, or at two points of one edge, gets nodes at these points. Two runs give the same file, the input file is never modified and a missing file raises an error.',
  ['inputs'],
  'All grids without cells overlapping in one plane and without lines where three sheets meet.',
  'No test covers the tool; its imports were broken.',
  ['crysgsu/refine.py', 'crysgsu/gsu/grid.py', 'crysgsu/geom/triangles_cloud.py'],
  [('intersection collection and dispatch', 'refine.refine_grid')],
  ['output grid file'],
  T_HYP + 'cell-by-cell coverage invariants and expected divisions on generated contact configurations', GEN)

P('C33', 'Point classification in a triangle agrees with exact geometry',
  'A point of the triangle\'s plane is classified as corner, edge, interior or outside exactly as its exact barycentric coordinates say, whenever these decide by a margin, and a point off the plane is outside. The class does not depend on the order of corners, on position or on the size of the triangle. Point-on-segment tests agree with exact distances in the same way, and a point or a triangle is said to lie in the plane of a triangle exactly when it does, whatever the slope of the plane.',
  ['inputs'],
  'All non-degenerate triangles from 1e-4 to 1e4 in size and all points given by barycentric coordinates.',
  'Tests contain a few unit-size points.',
  ['crysgsu/geom/triangle.py', 'crysgsu/geom/vect.py'],
  [('area sums', 'Triangle.point_in_triangle'), ('distance sums', 'Vect.point_on_vector'), ('volume', 'Triangle.point_in_one_plane')],
  ['Triangle.point_in_triangle', 'Vect.point_on_vector'],
  T_HYP + 'classification by construction from barycentric coordinates', GEN)

P('C34', 'The remesh tool processes every grid it is given',
  'Given one grid or a directory, the tool writes into the output directory one grid per input grid file, named like the input with the result marker removed, and each equals what remeshing that grid in memory with the same parameters gives. The verbosity does not change the result; intermediate grids and the report it asks for are written into the output directory too. Other files in the directory are ignored, one grid never influences the result of another, inputs are left unmodified, and a missing parameter file or grid raises an error and creates no file.',
  ['inputs', 'configurations'],
  'All sets of grids, parameter files and invocations.',
  'No test looks at what the tool writes.',
  ['crysgsu/remesh.py', 'crysgsu/remeshing.py'],
  [('command line loop', 'remesh.py main')],
  ['output directory'],
  T_HYP + 'differential: command line versus in-memory remeshing of each grid alone', GEN)

P('C35', 'Remeshing follows the documented accretion scheme in every step',
  'Every remeshing step puts every node where the documented scheme puts it: the direction of a node is the unit mean of its cells\' normals, smoothed the given number of passes with the given weights; the chunk of a cell is its rest volume divided by the steps left; the height of a cell solves the quadratic volume equation of its frustum, heights are evened out between neighbours by the given limits, and a node rises by the mean height of its cells. Volume not accreted is carried to the following steps when redistribution is on, null-space smoothing follows with its options and scales the rest volumes by the change of cell areas, and columns of a pseudo-2D grid follow their middle node. The number of steps is the largest need of a cell among the ignorable ones that the maximum allows, otherwise the maximum, and not less than the minimum; the printed planned and missed volumes are those of the run.',
  ['inputs', 'configurations'],
  'All well-shaped oriented meshes with non-negative ice, all parameter files and all intermediate steps.',
  'Tests run remeshing once on a large grid without looking at positions; every option changes the path of every node in every step.',
  ['crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/geom/utils.py'],
  [('step', 'TongRemesher.remesh_step'), ('directions', 'TongRemesher.init_ice_dirs, normals_smoothing'), ('heights', 'TongRemesher.define_ice_shifts, heights_smoothing'), ('volumes', 'TongRemesher.move_nodes, correction_by_area'), ('count', 'TongRemesher.calculate_nsteps')],
  ['node positions after every step', 'printed report'],
  T_HYP + 'differential testing against an independent implementation of the scheme, step by step', GEN)

P('C36', 'The converters\' grid keeps cells and values through imports, edits, exports',
  'Importing a standard grid file into the converters\' grid adds one zone per zone of the file, with its name, its nodes in order at their exact coordinates, its cells with their corners and the exact values of heat transfer, catch and shear stress; a file whose rows do not hold the declared numbers of values is refused. Reading a file with data in nodes and quadrilaterals adds one zone per zone of the file with every node; an unreadable coordinate becomes zero, a quadrilateral with a repeated corner becomes one triangle, any other one two triangles of the same orientation along one of its diagonals, and all orientations are reversed on request. Replacing a node changes exactly its occurrences in the zone, deleting extra nodes removes exactly the unused ones and keeps the order, restoring makes identifiers positions, a copy of a node is equal and independent, and cell values converted from nodes are means of the three corners. An exported file holds the zones, nodes, cells and values of the model to six decimals and the main reader accepts it.',
  ['inputs', 'histories'],
  'All standard grid files and files with data in nodes, and all sequences of imports, replacements, deletions, renumberings, conversions and exports.',
  'No test covers the model; the scripts use a part of it.',
  ['crysgsu/convert/gsu_converter.py'],
  [('reader', 'Grid.Import, Grid.LoadNodesData'), ('editing', 'Zone.ReplaceNode, DeleteExtraNodes, RestoreNodesIndices'), ('writer', 'Grid.Export')],
  ['Zones, Nodes, Faces of the model', 'exported file'],
  T_HYP + 'model-based histories of operations against a reference model', GEN)

P('C37', 'Tools are reproducible: the same inputs and options give the same outputs',
  'Running any of the tools (split, merge, remesh, refine, drops, interpolate, water to Crystal, lazurit to Crystal, Ansys to Crystal) again on the same files with the same options ends in the same way and writes the same files with the same bytes; sums of balance tables agree up to rounding and reports of elapsed time may differ. Nothing else takes part: the order in which the file system lists a directory, the order in which files were made and their times, what ran before in the same process (the same tool on other files of the same names, or another tool), files left by an earlier run on these or on other inputs, or the seed of hashing in a new process. No tool changes its inputs.',
  ['inputs', 'histories'],
  'All inputs and options of the nine tools, all orders of directory entries, all histories of earlier runs.',
  'Tests run each tool at most once, on one input.',
  ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/refine.py', 'crysgsu/drops.py', 'crysgsu/convert/', 'crysgsu/gsu/grid.py'],
  [('tools', 'split.py, merge.py, remesh.py, refine.py, drops.py, convert/*.py'), ('grid model', 'crysgsu/gsu/grid.py')],
  ['output files', 'how the run ended'],
  T_HYP + 'metamorphic relation between two runs with different irrelevant surroundings', GEN)

P('C38', 'Every answer about a grid and every file describes its present state',
  'A grid has no memory of the answers it gave before. After any history of changes in one process (decomposition and merging of zones, dividing, cutting, collapsing and flipping, remeshing, smoothing, explosion, assignment of values, reading of results, cleaning, loading another file into the same grid), with any questions asked in between, areas, centres, sides and lengths of cells and edges, neighbours, sets of border and inner edges, adjacency and quality of zones, array views, triangle sets, stored grids, .cry files and calculation samples describe the grid as it is now. Asking changes nothing. A change does the same to a grid with a history as to a fresh copy of it that was never asked anything.',
  ['histories', 'inputs'],
  'All grids, all sequences of changes and questions.',
  'Tests build a grid, ask one question and throw it away; an answer that has gone stale needs a question, a change and the same question again.',
  ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/node.py', 'crysgsu/gsu/zones_adjacency_matrix.py', 'crysgsu/smoothing.py', 'crysgsu/remeshing.py', 'crysgsu/geom/triangle.py'],
  [('grid model', 'crysgsu/gsu'), ('changes', 'crysgsu/remeshing.py, smoothing.py, gsu/grid.py'), ('files', 'Grid.store, store_mpi, store_faces_calc_data')],
  ['answers of methods', 'stored files'],
  T_HYP + 'stateful histories of changes and questions against recomputation, and differential runs against a fresh copy', GEN)

IMPLEMENTED = [os.path.basename(f)[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, 'checks')))
               if f.startswith('c') and f[1:-3].isdigit() and f.endswith('.py')]

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b[0] if b else p['files'][0]}
                                          for a, *b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        if p['id'] in NOT_APPLICABLE:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        elif p['id'] in IMPLEMENTED:
            cmd = '/opt/venv/bin/python check.py ' + p['id']
            checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick',
                           'thorough_cmd': cmd + ' --tier thorough',
                           'technique': p['technique'], 'level': p['level'],
                           'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --self-test',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'Generated by tools/catalog.py. No hooks in /repo: checks use only its public surface.'},
                  f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
