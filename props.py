PROPS = {
"C01": dict(driver="d_group", quick=1500, thorough=30000, rule="random histories of 3 to 30 (60) operations over three collections that share members; a history is non-trivial when at least one operation ran, distinct by its operation sequence"),

"C02": dict(driver="d_coord", quick=3000, thorough=60000, rule="random histories of additions by position, additions of coordinates, removals, scalings, copies and assignments over two coordinate collections"),

"C05": dict(driver="d_grid", quick=3000, thorough=60000, rule="random regular and irregular grids built in four ways; 25 (60) points per grid that lie on lines, within the tolerance of lines, inside cells and outside"),
"C06": dict(driver="d_enlarge", quick=20000, thorough=400000, rule="random grids padded at one or all bounds with equal, smaller and larger cell sizes"),
"C07": dict(driver="d_box", quick=30000, thorough=100000, rule="pairs of real and integer boxes (points, lines, surfaces, volumes), random chop steps and grids"),

"C17": dict(driver="d_vec", quick=20000, thorough=1000000, rule="random real, integer and complex vectors in 2 to 4 dimensions over 12 decades, zeros and repeated components, random Euler angles, fractional positions near nodes and edges, pairs of numbers near the comparison tolerance"),

"C18": dict(driver="d_mat", quick=6000, thorough=300000, rule="random integer, real and complex matrices of up to 25 (60) rows with many repeated values, sorted and reversed rows, permuted diagonally dominant matrices, permutation matrices and exactly singular ones"),

"C19": dict(driver="d_simplex", quick=20000, thorough=1000000, rule="random polynomials in one to four variables with zero and repeated monomials, at random points; one directed case per line (orders 1 to 8), triangle (1 to 6) and tetrahedron (1 to 4) with random evaluation points"),

"C20": dict(driver="d_func", quick=6000, thorough=300000, rule="random tables of 1 to 12 points over 12 decades, given in any order, also written to files with several separators, blank lines, with and without a last line end; random Gaussian and band-limited pulses and spacings"),

"C08": dict(driver="d_elem", quick=12000, thorough=400000, rule="random elements of every type with vertices on a lattice in random order and with random identities, flat and curved ones, degenerate ones, and elements built from boxes over collections that already hold some of the corners"),

"C09": dict(driver="d_egroup", quick=4000, thorough=200000, rule="random collections of up to 25 elements of six types over shared coordinates with random labels, filtered, indexed, reassigned to copies and relabelled by up to six operations"),

"C03": dict(driver="d_mesh", quick=2000, thorough=60000, rule="random histories of 2 to 8 (16) copies, clones, assignments, destructions, scalings, relabellings and reassignments over up to four unstructured, geometric or structured meshes with elements of every type and relative and conformal coordinates"),

"C04": dict(driver="d_conv", quick=6000, thorough=200000, rule="random structured meshes with nodes, lines, surfaces, volumes, polylines, relative and conformal coordinates, and random unstructured ones over grid lines missed by up to the tolerance with elements that have no structured counterpart"),

"C10": dict(driver="d_graph", quick=1200, thorough=200000, rule="random soups of elements, random networks of lines with split vertices, and lattices of tetrahedra or hexahedra, straight, rotated or warped, with surfaces of either orientation between, on and off the volumes"),

"C11": dict(driver="d_wire", quick=6000, thorough=200000, rule="random networks of chains and rings of wire lines with changes of material, layer and direction, junctions, connectors of one or two lines directed into the wire, wires with ends of their own, and unrelated lines, over integer or real coordinates in random order"),

"C12": dict(driver="d_json", quick=2500, thorough=100000, rule="random problem files with every kind of material, element, grid, source and output request, values, layout and order of labels at random"),
"C13": dict(driver="d_bad", quick=5000, thorough=200000, rule="random problem files, truncated, with characters or members removed, repeated, renamed, retyped or replaced, and with references to what does not exist"),
"C14": dict(driver="d_stl", quick=5000, thorough=400000, rule="random files of zero to five solids with shared vertices in random layouts, and copies with a vertex or a number removed, repeated or replaced, characters changed, or truncated"),
"C15": dict(driver="d_vtk", quick=1500, thorough=60000, rule="problems read from random text and random structured and unstructured meshes with sources, requests and boundaries, of names that clash or hold special characters, exported, exported again, as a copy, without room and without a folder"),
"C16": dict(driver="d_gid", quick=1500, thorough=60000, rule="problems read from random text and random structured and unstructured meshes with any scaling factor or none, exported once, twice, two at once, flushed, in binary, as a copy and into a folder that does not exist"),
"C21": dict(driver="d_source", quick=3000, thorough=100000, rule="random plane waves by vectors over 24 decades of length and by angles, nearly perpendicular and null vectors, sources of four kinds with tables and pulses as magnitudes or none, copied, assigned and destroyed, tabulated with 2 to 400 (2000) steps"),
"C22": dict(driver="d_port", quick=8000, thorough=400000, rule="random rectangles of integer or real quadrilaterals and triangles in random order with TE and TM modes up to 44 or voltage and current coaxial lines, cloned, moved to other rectangles and back, and surfaces in other planes"),
"C26": dict(driver="d_object", quick=1500, thorough=200000, rule="random sequences of 5 to 50 (120) operations on three trees of settings: values of every kind, members and values added from elsewhere or from parts of the tree itself, erased, merged, copied, moved and printed"),
"C27": dict(driver="d_cli", quick=8000, thorough=200000, rule="random parsers with nested and exclusive groups, switches, options and positions of six kinds of value with defaults, choices and clashes, each used for 1 to 6 (12) command lines written in random forms, with unknown and surplus arguments or a mistake"),
"C28": dict(driver="d_options", quick=20000, thorough=1000000, rule="random sequences of 2 to 12 changes of options of meshers and solvers, by setters or by settings with any subset of the names, unknown names and unknown labels, in memory that held something else, copied, assigned and printed"),
"C29": dict(driver="d_files", quick=1500, thorough=60000, rule="random names of up to four parts with blanks, quotes, dots and characters a shell would interpret, and random sequences of 3 to 10 operations on small trees of folders and files of such names, watched by comparing the whole tree after each"),
"C23": dict(driver="d_pm", quick=20000, thorough=1000000, rule="two to five random materials of twenty kinds with values over 24 decades, changed by up to 12 (30) clonings, assignments, renamings, exchanges and replacements of their parts, all looked at after each"),
"C25": dict(driver="d_data", quick=3000, thorough=100000, rule="one or two problems, read from random text or built on random meshes of every kind, copied, assigned, destroyed or changed in one of their parts by up to 8 (20) operations, all told as text and searched for shared parts after each"),
"C24": dict(driver="d_req", quick=5000, thorough=400000, rule="random domains with values over 24 decades, compared with themselves and with one difference, and one to three requests of seven kinds on random elements with and without material, changed, refilled, cloned and grouped by up to 8 (20) operations"),
"C30": dict(driver="d_det", quick=800, thorough=300000, nouar=True, rule="random problems read and built, with every view of them, networks of wires, solids, options, surfaces and grids; each worked out 4 (6) times with other memory contents, orders of addresses and work in between"),
"C31": dict(driver="d_progress", quick=20000, thorough=1000000, rule="random names, sizes, indents and steps shown by one progress line used one to four times, at consoles of every width and where there is none"),
}
