M = G + "math/"
prop("C17", "Vectors, angles, local axes and tolerant comparisons mean what they say",
 "Sums, differences, products, quotients, norms, rotations, orderings and conversions of fixed-size vectors equal the componentwise definition and change no operand but the one assigned. Spherical and Cartesian forms of a direction convert into each other, local axes apply the rotation given by their Euler angles, and fractional grid positions report the node, edge, face or volume they lie in and keep their place when reduced. The tolerant comparisons are symmetric and decide exactly one of equal, lower and greater, and tolerant rounding never moves a number past the nearest admissible integer.",
 ["inputs"], "all real, integer and complex vectors, angles, fractional positions and pairs of numbers",
 "Tests evaluate a few operators on one or two vectors.",
 [M + "vector/Cartesian.hpp", M + "vector/Spherical.cpp", M + "axis/Local.cpp", M + "vector/CVecI3Fractional.cpp", M + "util/Real.cpp"],
 [("vector operators", M + "vector/Cartesian.hpp"), ("rotation", M + "axis/Local.cpp"), ("tolerant comparison", M + "util/Real.cpp")])
prop("C18", "Matrix operations agree with linear algebra",
 "Sums, products, transposes, Kronecker products, parts, inverses, determinants and factorizations of dense matrices equal their definition for every shape that admits them, whatever storage the matrix was built from, and leave their operands alone. Sorting, merging, searching and removing repeated rows act on the multiset of rows and keep rows whole. A singular matrix is refused when an inverse is asked for.",
 ["inputs"], "all shapes and values, with repeated rows, and singular matrices",
 "Tests use one or two fixed matrices per operation.",
 [M + "matrix/Dynamic.hpp", M + "matrix/Static.hpp", M + "matrix/Matrix.h"],
 [("Dynamic", M + "matrix/Dynamic.hpp"), ("Static", M + "matrix/Static.hpp")])
prop("C19", "Polynomials and simplex bases are exact",
 "Sums, products, derivatives and evaluations of polynomials in several variables agree with their monomials. On a simplex of any order the nodal functions are one at their node and zero at the others, sum to one, reproduce positions, and their derivatives are the derivatives of those functions. The nodes, vertices and faces of a simplex are numbered consistently and the integration weights integrate every polynomial of the simplex's order exactly.",
 ["inputs"], "all polynomials and evaluation points, and every supported order of line, triangle and tetrahedron",
 "Tests check a few sums for one order.",
 [M + "function/Polynomial.hpp", M + "simplex/Simplex.h", M + "simplex/Line.h", M + "simplex/Triangle.h", M + "simplex/Tetrahedron.h"],
 [("lagrange", M + "simplex/Simplex.h"), ("Polynomial", M + "function/Polynomial.hpp")])
prop("C20", "Time functions, interpolation and spectra follow their data",
 "An interpolated table passes through all of its points, is linear between them and constant outside, in whatever order the points were given and whether they came from memory or from a text file. Gaussian and band-limited pulses have the value, equality and copy behaviour their parameters define, and their analytic spectrum is the transform of the sampled pulse. Linear and logarithmic spacings have the ends, count and step asked for.",
 ["inputs"], "all tables, files of tables, pulse parameters, evaluation times and spacings",
 "Tests look at one pulse and one table.",
 [M + "function/LinearInterpolation.hpp", M + "function/Gaussian.cpp", M + "function/BandLimited.h", M + "util/SpaceGenerator.hpp", M + "util/DTFT.cpp"],
 [("LinearInterpolation", M + "function/LinearInterpolation.hpp"), ("Gaussian getFourier", M + "function/Gaussian.cpp")])
prop("C03", "Meshes are deep, self-contained copies",
 "Copying, cloning or assigning a mesh of any kind gives an equal mesh whose elements refer only to coordinates and layers that the copy itself owns, so changing, scaling, reassigning or destroying either mesh never shows in the other. The copy has the same grid, coordinates, elements, identities, layers and materials as the original, and querying a mesh never changes it. The bounding box of a mesh and the tables of its connectivities follow from its members.",
 ["histories"], "all histories of copies, assignments, changes and destructions over meshes of every kind",
 "Tests copy one mesh and never destroy or change the original afterwards.",
 [G+"geometry/mesh/Mesh.h", G+"geometry/mesh/Geometric.cpp", G+"geometry/mesh/Structured.cpp", G+"geometry/mesh/Unstructured.cpp"],
 [("copy constructors and assignments", G+"geometry/mesh/Unstructured.cpp"), ("reassignPointers", G+"geometry/element/Group.hpp")])
prop("C08", "Elements answer geometric questions from their vertices",
 "Bounds, vertices, sides, faces, normals, areas, volumes, extreme vertices and positional queries of an element of any type follow from its vertices alone, and stay inside its own nodes. Two elements are equal exactly when they have the same type and the same positions in the same order, and an element built from a box has that box's corners, reusing coordinates already there. Copies of elements answer the same, and degenerate elements are recognised.",
 ["inputs"], "all elements of every type, flat and curved, in every vertex order, and degenerate ones",
 "Tests build one element of a few types.",
 [G+"geometry/element/Element.h", G+"geometry/element/Triangle3.cpp", G+"geometry/element/Quadrilateral4.hpp", G+"geometry/element/Hexahedron8.hpp", G+"geometry/element/Tetrahedron4.cpp", G+"geometry/element/Polyhedron.cpp"],
 [("sides and faces", G+"geometry/element/Hexahedron8.hpp"), ("comparison", G+"geometry/element/Element.h")])
prop("C09", "Filters over elements pick exactly the members that match",
 "Filtering a collection of elements by type, dimension, material, layer or combinations of them, by identity or by position returns exactly the matching members, in order and without copies. Relabelling, reassigning to other coordinates and removing elements change just the members asked for, and reassigning is refused when a coordinate that is needed is missing. Closest-vertex and bounding queries over a collection agree with an exhaustive look at its members.",
 ["histories"], "all collections of elements of mixed types and labels and all sequences of filters and relabellings",
 "Tests filter one fixed collection.",
 [G+"geometry/element/Group.hpp", G+"geometry/element/Group.h"],
 [("getMatId, getLayerId, getOf", G+"geometry/element/Group.h"), ("reassignPointers", G+"geometry/element/Group.hpp")])
prop("C04", "Mesh conversions keep what the grid can represent",
 "Converting a mesh on a grid to free space, or a mesh in space to the grid, places every coordinate where the grid lines say, keeps identities, order, layers and materials, and keeps exactly the elements that the other kind can represent. The converted mesh owns all it refers to, the original is not changed, and going there and back restores every representable element. A coordinate that is missing or lies elsewhere is refused.",
 ["inputs"], "all meshes, grids and tolerances, with elements on, near and off the grid lines",
 "Tests convert one small mesh.",
 [G+"geometry/mesh/Structured.cpp", G+"geometry/mesh/Unstructured.cpp", G+"geometry/element/Element.hpp"],
 [("getMeshUnstructured", G+"geometry/mesh/Structured.cpp"), ("getMeshStructured", G+"geometry/mesh/Unstructured.cpp")])
prop("C10", "Graphs and neighbour tables mirror shared vertices and faces",
 "In the graph of a set of elements two elements are neighbours exactly when they share a vertex, and the connected components are the classes of that relation, also after building the graph again, splitting vertices, copying and assigning. For every face of a volume and every surface the neighbour tables give the matching volume face or surface, tell the inner from the outer face by the orientation of the surface, and recognise the boundary of the domain, with no face where there is no neighbour. Answers do not depend on rounding, on the order of the elements or on memory addresses.",
 ["histories"], "all sets of elements, conforming or not, with surfaces of either orientation, and all copies",
 "Tests look at six elements once and never copy a graph.",
 [G+"geometry/graph/Graph.hpp", G+"geometry/graph/Element.hpp", G+"geometry/graph/Vertices.hpp", G+"geometry/graph/Connectivities.cpp"],
 [("getConnectedComponents", G+"geometry/graph/Graph.hpp"), ("getInnerFace, getNeighFace", G+"geometry/graph/Connectivities.cpp")])
prop("C11", "Lines are grouped into wires by the joining rule",
 "The lines of a mesh that are made of wire or connector material are grouped into wires, each line in exactly one, so that two lines that meet at a node belong to the same wire exactly when no third line is there and they agree in layer, material and direction, or one is a connector directed into the wire. Each wire is a polyline through all its vertices in the direction of its wire material, says which lines run against it, carries the material's parameters under a name of its own, and ends in the connectors found at its start and its end. Lines of other materials are ignored, a connector that is attached to no wire is refused, and the result depends neither on the order of the lines nor on the kind of mesh.",
 ["inputs"], "all networks of chains, rings, junctions and connectors, on a grid or in space, in any order",
 "Tests group a few lines of one wire.",
 [G+"util/wire/Group.hpp", G+"util/wire/Group.h", G+"physicalModel/wire/Extremes.cpp"],
 [("constructGraph_, getLines_", G+"util/wire/Group.hpp"), ("getWireMats_, newWire_", G+"util/wire/Group.hpp")])
prop("C12", "A problem file is read to exactly the problem it describes",
 "Reading a problem file gives the solver and its settings, the grid, layers, coordinates, elements, materials of every kind, connectors, sources and output requests that the file describes, with the same values, identities, names and order, lengths scaled by the file's scaling factor. Every source and request refers to elements of the mesh that was read, and every element to the material it names. The result does not depend on the layout of the text, on the order of labels, or on how the numbers are written.",
 ["inputs"], "all problem files of the supported version, with any combination of members",
 "Tests read a few fixed files and look at counts and at single values.",
 ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h", G+"parser/Parser.cpp"],
 [("readPhysicalModel, readSources, readOutputRequests, readGeometricMesh", "src/parser/json/Parser.cpp"), ("postReadOperations", G+"parser/Parser.cpp")])
prop("C13", "Damaged problem files are refused or give a whole problem",
 "Reading a problem file that is truncated, garbled, of another version, incomplete, or that refers to what does not exist ends in an error or in a problem that holds together: all its elements, layers, materials and vertices are its own, every source and request refers to its mesh, and it can be printed, copied and destroyed. A truncated file and an unknown version are errors, and a mesh with missing sections, dangling references or repeated identities is never delivered. The outcome depends on the text alone, and later readings are not affected.",
 ["faults", "inputs"], "all texts obtained from problem files by truncation and by changes of characters, members, values and references",
 "No test reads a damaged file.",
 ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h", G+"group/Identifiable.hpp"],
 [("read, readGeometricMesh, readGrids, readElemStrAs", "src/parser/json/Parser.cpp"), ("postReadOperations", G+"parser/Parser.cpp")])
prop("C14", "A triangulated surface file is read to its triangles",
 "Reading a file of triangulated solids gives one layer per solid under the solid's name and, in order, exactly its triangles with their corners where the file puts them, all of one perfectly conducting material. Triangles with a corner at the same place share the vertex, and vertices, layers and materials all belong to the mesh that was read. Facets without three vertices, vertices without three numbers and files that end within a facet are refused, and any other damage gives an error or a mesh that holds together.",
 ["inputs", "faults"], "all files of solids in any layout, and damaged copies of them",
 "Tests count vertices and triangles of two files with one solid each.",
 ["src/parser/stl/Parser.cpp", G+"geometry/coordinate/Group.hpp"],
 [("read", "src/parser/stl/Parser.cpp")])
prop("C15", "A VTK export shows the whole problem",
 "Exporting a problem to VTK writes one file for each non-empty set of elements: every material in every layer (every layer when there are no materials), every source, every output request and, for structured meshes, every boundary and the grid; each file holds exactly the cells of its set, of their kind and where they are, over points that are all used. The index is well-formed XML that lists each file once, whatever the names are and also when sets share a name. The problem is not changed, nothing is kept in memory, and an export that cannot be written completely is an error.",
 ["inputs", "faults"], "all problems with any names of materials, layers and requests, and all sizes at which writing fails",
 "Tests export two problems and check that a file exists.",
 ["src/exporter/vtk/Exporter.cpp", "src/exporter/vtk/Exporter.h", G+"exporter/Exporter.cpp"],
 [("writeMesh_, writeFile_, getPoints_, writeCells_, makeValid_", "src/exporter/vtk/Exporter.cpp"), ("getBoundary, getGridElems, getBoundaryName", G+"exporter/Exporter.cpp")])
prop("C16", "A GiD export shows the whole problem in its original units",
 "Exporting a problem to GiD writes one mesh file that holds, under its name, every non-empty set of nodes, lines, triangles, quadrilaterals, tetrahedra and hexahedra of a material in a layer, a source, an output request, a boundary and the grid, with every position divided by the geometry scaling factor, if there is one. Points and elements have unique positive identities, elements refer to points that precede them, and no point is unused. The problem is left exactly as it was, several exports can be open at once or follow one another, and a file that cannot be opened is an error.",
 ["inputs", "histories", "faults"], "all problems with any scaling factor or none, and all sequences of exports in a process",
 "Tests only build one exporter.",
 ["src/exporter/gid/Exporter.cpp", "src/exporter/gid/Exporter.h", G+"exporter/Exporter.cpp"],
 [("init_, writeMesh_, writeElements_, writeCoordinates_", "src/exporter/gid/Exporter.cpp"), ("getBoundary, getGridElems", G+"exporter/Exporter.cpp")])
prop("C21", "Sources have the field, magnitude and copies they stand for",
 "A plane wave has, whatever the length of the given vectors, a unit direction of propagation perpendicular to its polarisation, a magnetic field that is perpendicular to both and related to the electric field by the impedance of vacuum with power flowing along the direction, and angles and vectors describe the same wave; null or not perpendicular vectors are refused. Every source, of any kind and with or without magnitude, is copied and assigned with a magnitude and elements of its own that are not affected by what happens to the original. A magnitude converted to a table keeps the first and last instants and the values at each sampled instant.",
 ["inputs", "histories"], "all directions, polarisations and lengths, all kinds of sources and magnitudes, all sequences of copying, assigning and destroying",
 "Tests build two plane waves with unit vectors and never assign a source.",
 [G+"source/PlaneWave.cpp", G+"source/Source.hpp", G+"source/magnitude/Magnitude.cpp", G+"source/magnitude/Numerical.cpp"],
 [("getElectricField, getMagneticField, init_", G+"source/PlaneWave.cpp"), ("convertToNumerical, operator=", G+"source/Source.hpp")])
prop("C22", "Port excitations carry the mode they are named after",
 "The weight of a rectangular waveguide port is the field of its TE or TM mode: tangential components vanish on the walls as the mode requires, TE fields are divergence free and TM fields irrotational, and the number of half waves along each side is the mode's index. The weight of a coaxial port is radial, falls with the inverse of the distance between the radii, points with the excitation and is zero in the conductors. Ports follow the surface they are given: width, height, origin and radii are those of the present elements, copies keep theirs, and surfaces in other planes are refused.",
 ["inputs", "histories"], "all rectangles, modes, radii and positions, all sequences of copies and moves",
 "Tests evaluate a few points of the TE10 mode.",
 [G+"source/port/WaveguideRectangular.cpp", G+"source/port/TEMCoaxial.cpp", G+"source/port/Waveguide.cpp"],
 [("getWeight", G+"source/port/WaveguideRectangular.cpp"), ("getWeight, set", G+"source/port/TEMCoaxial.cpp")])
A = G + "argument/"
prop("C26", "A tree of settings holds exactly what was put in it",
 "Whatever sequence of setting, adding, merging, copying, moving and erasing is applied, every member of a tree of settings is found by its name and by its position, in the order in which members were added, with the value that was last written, and nothing else is there. A value is read back in every form it was written in, numbers without losing digits, several values written together as that many values, and is refused as anything it is not. Copies are independent, a tree may be given parts of itself, and printing shows every member once.",
 ["histories"], "all sequences of operations on trees of settings, including parts of a tree put into the tree itself",
 "Tests write a few members and read them back once.",
 [A+"Object.h", A+"Object.hpp", A+"Value.hpp", A+"StringParser.h"],
 [("operator(), addMember, eraseMember, add", A+"Object.hpp"), ("getValue, StringParser", A+"StringParser.h")])
prop("C27", "A command line is read to the settings it spells, or refused",
 "A command line that fits the declared switches, options, positions and groups gives every declared name the value the line spells for it, in whatever form and order it is written, or its default, and nothing else; arguments that were not declared are refused, or returned in order when they may be there. A line that lacks something required, gives a value that does not convert or is not among the choices, or breaks a group's rule is refused with a message and the usage, and a clash of names is refused when it is declared and leaves the first usable. A parser can be used any number of times with independent results, and its usage and help name all that was declared.",
 ["inputs", "histories"], "all declarations of switches, options, positions and nested or exclusive groups, and all command lines for them, one after another",
 "Tests parse one line per kind of argument with a fresh parser.",
 [A+"Parser.cpp", A+"GroupBase.cpp", A+"Group.cpp", A+"MutuallyExclusiveGroup.cpp", A+"Option.h", A+"Position.h", A+"Formatter.cpp"],
 [("parseKnownArgs, parseArgs", A+"Parser.cpp"), ("usage and help", A+"Formatter.cpp")])
prop("C28", "Mesher and solver options are what was set, and defaults otherwise",
 "After any sequence of changes, by the program or by settings, every option of the mesher and of the solver is the one that was last given, and the documented default if none was, whatever the memory held before. Settings without a name leave that option alone, and unknown labels are refused without changing anything else. The bounds of the domain, the number of time steps and the arguments for the solver follow from the options, and copies, clones and what is printed agree with them.",
 ["histories", "inputs"], "all sequences of setters and settings with any subset of options, known and unknown labels",
 "Tests build default options and look at two of them.",
 ["src/mesher/Options.cpp", "src/solver/Options.cpp", "src/mesher/Options.h", "src/solver/Options.h"],
 [("set, getNumberOfTimeSteps, toArgsStr", "src/solver/Options.cpp"), ("set, getBoundTermination", "src/mesher/Options.cpp")])
prop("C29", "File names mean one place and operations touch only that place",
 "The folder, base name, project name and extension of a file name are its parts by the rules of the system, and asking for them never changes it. Making, removing, opening or running a file or folder affects exactly that file or folder, whatever characters its name holds, and names inside a folder are reported relative to it and others are not. What does not exist, cannot be opened or is of the other kind is recognised or refused.",
 ["inputs", "histories", "faults"], "all file names, and all sequences of operations on trees of folders and files",
 "Tests use one plain name.",
 [G+"filesystem/Project.cpp", G+"filesystem/Project.h"],
 [("rmDir, makeDir, exec, relativeTo, getFullPath", G+"filesystem/Project.cpp")])
prop("C23", "Materials of every kind are what they were made from",
 "A material of any kind, made from any valid constants, reports exactly those constants, its identity and its name, and is of one kind only: the absolute constants, impedance, admittance, poles, rotated tensors, layers and sheet impedances it gives follow from them by the definitions. What does not describe such a material is refused. Clones, assignments and changes of the ends of a wire, in any order and from one's own parts, give independent materials that are as described, and what is printed agrees.",
 ["inputs", "histories"], "all kinds of material and all valid and invalid constants over many decades, under all sequences of copies, assignments and changes of ends",
 "Tests make a few materials with one set of constants and look at some of them.",
 [G+"physicalModel/volume/*.cpp", G+"physicalModel/surface/*.cpp", G+"physicalModel/multiport/*.cpp", G+"physicalModel/wire/*.cpp", G+"physicalModel/bound/*.h"],
 [("constants, impedance and poles", G+"physicalModel/volume/"), ("setExtreme, swapExtremes", G+"physicalModel/wire/Extremes.cpp"), ("layers and fitting options", G+"physicalModel/surface/Multilayer.cpp")])
prop("C24", "A request is for what was asked, where and when it was asked",
 "An output request keeps the name, the type, the instants and frequencies, the transfer function and the directions it was made with, and exactly the given elements of the kind it is for, in order, after any sequence of changes, clones and groups. The type of its domain follows from what it asks for, and two domains are equal when they ask for the same. A bulk current over elements that have a material is refused.",
 ["inputs", "histories"], "all domains and requests of all types on any mixture of elements, under all sequences of renaming, refilling, adding, new domains, cloning and grouping",
 "Tests make one bulk current and one request and compare a clone of each.",
 [G+"outputRequest/*.h", G+"outputRequest/*.cpp"],
 [("getDomainType, operator==", G+"outputRequest/Domain.cpp"), ("set, add", G+"outputRequest/OutputRequest.h")])
prop("C25", "Copies of a problem are whole and independent",
 "A problem copied, cloned or assigned, in any order, holds the same solver settings, materials, mesh, sources and requests as the original. All that it refers to, the vertices, layers and materials of its elements and bounds and the elements of its sources and requests, belongs to it and to no other problem. Changing or destroying any problem leaves every other as it was, whether it was read from a file or built, complete or with parts missing.",
 ["histories"], "all sequences of copies, assignments, changes and destructions over problems with any parts, including assignment from itself",
 "Tests copy one problem and compare sizes.",
 [G+"Data.cpp", G+"Data.h", G+"group/GroupIdentifiable.h", G+"geometry/mesh/*.cpp"],
 [("copy constructor and assignment", G+"Data.cpp"), ("deep copies of meshes", G+"geometry/mesh/Unstructured.cpp")])
prop("C30", "Results depend on the input alone",
 "The same input gives the same result every time it is worked out in one process: what is read, copied, converted, grouped into wires, related through graphs and neighbours, printed and exported. Nothing depends on what memory held before, on the order in which addresses are handed out, on default values that nobody set, or on other work done in between. Only the numbers in a file for GiD go on from the file before.",
 ["histories", "inputs"], "all problems, networks, solids, surfaces, grids and options, under all contents of memory, orders of addresses and histories of other work",
 "Tests run once in a fresh process with one layout of memory.",
 ["src/"],
 [("order in graphs and wires", G+"geometry/graph/"), ("order in exports", "src/exporter/"), ("printed numbers", A+"Object.h"), ("default values", "src/mesher/Options.cpp")])
prop("C31", "A progress line fits its console and says how far the work is",
 "Shown at a console, a progress line has the name of the work, the steps done out of the total, the time, a bar and the percentage, which are those at that moment; it fits in the width of the console whatever that is, leaving out its last parts where there is no room. Where the output is no console only the name is written, and work of no steps or not begun shows nothing. What is written afterwards has the format it would have without the line.",
 ["inputs", "histories"], "all names, sizes, widths of console and kinds of input, under all sequences of starts, steps and ends of one line",
 "No test shows a progress line, which needs a terminal.",
 [G+"util/ProgressBar.cpp", G+"util/ProgressBar.h"],
 [("printLine_, getSize_", G+"util/ProgressBar.cpp")])
