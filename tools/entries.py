NOT_APPLICABLE = []
CONV = "crystal/_conventional.py"
PRIM = "crystal/_primitive.py"
SPG = "_spglib_interface.py"
NOTE = (
    "Held on the executions the workload produced (counts and states in the evidence); "
)

prop(
    "C01",
    "Standardised cells describe the same crystal in the same orientation",
    "For every crystal and every supported convention (HPKOT, SC, spglib), the returned "
    "conventional and the returned primitive cell with their atoms describe the given crystal: "
    "after one pure translation of the origin (no rotation, no reflection, no strain) every "
    "returned atom coincides with a given atom of the same type and vice versa, and the density "
    "of atoms is the same. No returned atom is repeated and every returned lattice vector is a "
    "period of the given crystal.",
    ["inputs"],
    "crystals of all 230 space groups in all settings, described by any cell of the lattice "
    "(skewed, left-handed, supercell, rotated, shifted, noisy within symprec, accidentally more "
    "symmetric metric)",
    "Existing tests compare a few dozen crystals with stored numbers, mostly already in the "
    "standard description; a wrong rotation, sign or branch for one lattice type or one "
    "arrangement of axes is not seen.",
    [CONV, PRIM, SPG],
    [
        ("get_conventional and the per-family SC cells", CONV + ":get_conventional"),
        ("get_primitive", PRIM + ":get_primitive"),
        ("SpglibData standard cell and rotation", SPG + ":SpglibData"),
    ],
    "client-boundary monitor with an atom-matching oracle over generated crystals",
    NOTE + "spglib is trusted to find the space group of a generated crystal.",
)
prop(
    "C02",
    "A primitive cell holds exactly one lattice point of the crystal",
    "For every crystal and convention, the volume of the primitive cell is the volume per lattice "
    "point of the crystal, its vectors generate all translations of the crystal, and the given "
    "cell and the conventional cell are made of whole numbers of its vectors. Conventional over "
    "primitive volume and number of atoms is the number published for the centring (P 1; A, C, I "
    "2; F 4; R 3, or 1 in SC). In HPKOT and SC the primitive vectors are the published "
    "combinations of the conventional vectors of the same convention.",
    ["inputs"],
    "crystals of all 230 space groups in any description, including supercells",
    "Tests use few lattice types and never non-primitive input with centring; the matrix of one "
    "lattice type may be wrong unnoticed (the one of hR was).",
    [PRIM, CONV, "constants/_hpkot_convention.py", "constants/_sc_convention.py"],
    [
        ("get_primitive", PRIM + ":get_primitive"),
        ("HPKOT matrices", "constants/_hpkot_convention.py:HPKOT_CONVENTIONAL_TO_PRIMITIVE"),
        ("SC matrices", "constants/_sc_convention.py:SC_CONVENTIONAL_TO_PRIMITIVE"),
    ],
    "monitor with an independent translation-lattice finder and published matrices",
    NOTE + "translations of a crystal are the vectors that map all its atoms onto atoms.",
)
prop(
    "C03",
    "Data of atoms follow the atoms through standardisation",
    "Every key of the given atoms (of any name and kind of values) appears in the atoms of the "
    "conventional and primitive cell with one value per returned atom, and the value is the one "
    "of the last given atom of the same type; the only key added is the integer type, the same "
    "number for the same type as in the input. Types are decided by given types, else by "
    "species, else by species deduced from names, in this order.",
    ["inputs"],
    "all space groups, atoms described with any set, order and kinds of keys, types given in any "
    "of the three ways (also when they disagree with one another)",
    "Tests pass positions and names only; which atom a value is taken from cannot be seen when "
    "all atoms of a type carry equal values.",
    [CONV, PRIM, SPG],
    [
        ("selection of the last atom of the type", CONV + ":get_conventional"),
        ("selection of the last atom of the type", PRIM + ":get_primitive"),
        ("types of atoms", SPG + ":get_spglib_types"),
    ],
    "provenance monitor: unique value per atom traced from input to output",
    NOTE + "which atom is where is taken from the C01 oracle.",
)
prop(
    "C04",
    "Conventional cells satisfy the definition of their convention",
    "Every returned conventional cell is right-handed and has the metric and the setting that its "
    "convention publishes for the lattice type: equal lengths and angles of 90/120 degrees for "
    "the symmetry, ordered lengths (SC orthorhombic a<=b<=c, C-centred a<=b, monoclinic b<=c for "
    "mP), monoclinic alpha<=90 in SC with unique axis a and beta>=90 in HPKOT with unique axis "
    "b, rhombohedral SC cell with the three-fold axis along a1+a2+a3. Triclinic cells have "
    "all-acute or all-obtuse reciprocal angles (HPKOT: reduced reciprocal cell with the smallest "
    "product of b1 and b2; SC: gamma of the reciprocal cell extreme). HPKOT and spglib "
    "conventional cells of other lattices are in the standard setting of the space group.",
    ["inputs"],
    "all space groups in any description, including metrics with accidental equalities",
    "Tests fix a few metrics; accidental equalities and particular orders of lengths or angles "
    "select code paths no test runs.",
    [CONV, "constants/_sc_convention.py"],
    [
        ("HPKOT conventional cell", CONV + ":_hpkot_get_conventional_a"),
        ("SC conventional cells", CONV + ":_sc_get_conventional_oPFI"),
    ],
    "monitor measuring metric and symmetry operations of outputs against published definitions",
    NOTE + "operations of an output are found with spglib.",
)
prop(
    "C05",
    "What is reported about a crystal does not depend on how it is described",
    "Two descriptions of one crystal (another cell of the lattice, a supercell, a rigid rotation, "
    "another origin, another order or periodic images of atoms, a left-handed cell, other labels "
    "of types) give the same space group, lattice type, extended Bravais lattice symbol, SC "
    "variation, parameters and number of atoms of every conventional and primitive cell, the same "
    "paths and the same high-symmetry points up to the orientation of the crystal.",
    ["inputs", "configurations"],
    "pairs of descriptions of crystals of all space groups, away from the borders of variations",
    "Each test uses one description of a crystal; invariance is a relation between executions.",
    [CONV, PRIM, SPG, "crystal/_hpkot_extended_bl_symbol.py", "crystal/_sc_variation.py",
     "kpoints/_path_and_points.py"],
    [
        ("symbol", "crystal/_hpkot_extended_bl_symbol.py:hpkot_get_extended_bl_symbol"),
        ("variation", "crystal/_sc_variation.py:sc_get_variation"),
        ("k-points", "kpoints/_path_and_points.py:get_path_and_points"),
    ],
    "metamorphic monitor over pairs of descriptions",
    NOTE + "pairs within 1e-6 of a border of two variations are skipped.",
)
prop(
    "C06",
    "Standardising a standardised crystal changes nothing",
    "Feeding the returned cell and atoms of any convention back, in any chain of conventional and "
    "primitive steps of any conventions, never changes the crystal, its space group, its symbol "
    "and variation, the keys of its atoms, or the number of atoms and the parameters of the cell "
    "that a step returns.",
    ["histories"],
    "chains of 2-4 steps over three conventions, crystals of all space groups in any description",
    "Tests call each function once on hand-written input; outputs are never used as inputs.",
    [CONV, PRIM, SPG],
    [
        ("get_conventional", CONV + ":get_conventional"),
        ("get_primitive", PRIM + ":get_primitive"),
    ],
    "history monitor: chains of standardisation against the direct result",
    NOTE + "parameters are not compared for accidentally symmetric metrics.",
)
prop(
    "C07",
    "Calls leave arguments and library alone and do not depend on history",
    "A call about the symmetry of a crystal never modifies its arguments, a given set of symmetry "
    "data or the constants of the library, and what it returns shares no array with them: the "
    "caller may modify a result without any effect on later calls. Repeating a call gives the "
    "same result whatever was called before, and explicitly given symmetry data give the same "
    "result as implicit ones; data of another crystal and unknown conventions are refused.",
    ["histories", "inputs"],
    "sequences of calls on several crystals with results defaced in between, options in random "
    "order and letter case, symmetry data given, implicit or mismatched",
    "Aliasing and hidden state show up only when a result is modified and the library is called "
    "again; tests look at one call.",
    [SPG, CONV, PRIM, "kpoints/_path_and_points.py", "constants/__init__.py"],
    [
        ("validation of given data", SPG + ":validate_spglib_data"),
        ("copies of arrays", SPG + ":SpglibData"),
    ],
    "history monitor: before/after snapshots, defaced results, repeated calls",
    NOTE + "values nested in lists of atoms' data may be shared.",
)
prop(
    "C08",
    "The extended Bravais lattice symbol is the published one",
    "For every crystal the reported symbol is the one of the publication of HPKOT for its space "
    "group and the parameters of its conventional cell (reciprocal cell for triclinic), including "
    "which axis is longest in oF, oI, oC and oA lattices and where borders between symbols lie.",
    ["inputs"],
    "crystals of all space groups aimed at all symbols and at both sides of every border",
    "Tests take one example of each symbol in its canonical description.",
    ["crystal/_hpkot_extended_bl_symbol.py"],
    [("rules", "crystal/_hpkot_extended_bl_symbol.py:hpkot_get_extended_bl_symbol")],
    "monitor with an independent implementation of the published rules",
    NOTE + "within 1e-6 of a border any of the symbols that meet is accepted.",
)
prop(
    "C09",
    "The variation of the lattice is the one published by Setyawan and Curtarolo",
    "For every crystal the reported variation is the published one for its lattice type and the "
    "parameters of its SC conventional cell, including the exact borders that are variations of "
    "their own (MCLC2, MCLC4, ORCF3, TRI2a, TRI2b). It is refused with a value error only where "
    "the published rules are undefined.",
    ["inputs"],
    "crystals of all space groups aimed at all variations, borders and exact equalities",
    "Tests take one example of each variation; orders of axes, borders and tolerances are open.",
    ["crystal/_sc_variation.py"],
    [("rules", "crystal/_sc_variation.py:sc_get_variation")],
    "monitor with an independent implementation of the published rules",
    NOTE + "near borders (within the tolerance of the symmetry data) any of the variations that "
    "meet is accepted.",
)
prop(
    "C10",
    "High-symmetry points are the published ones and lie where they have to lie",
    "For every crystal the names and the positions in reciprocal space of the high-symmetry points "
    "are the published ones for its symbol or variation, evaluated on its primitive cell; each "
    "point except the centre is equally far from the origin and from other reciprocal lattice "
    "points as published for the zone boundary. Relative coordinates (of the reciprocal of the "
    "given cell) and absolute ones, and a k-points object made from the crystal, describe the "
    "same points.",
    ["inputs"],
    "all space groups, any description (supercells, left-handed, rotated), HPKOT and SC, relative "
    "and absolute coordinates",
    "Tests compare the tables with themselves or for single parameters; a formula wrong in one "
    "parameter or a basis change wrong for one description passes them.",
    ["kpoints/_hpkot_points.py", "kpoints/_sc_points.py", "kpoints/_path_and_points.py",
     "_kpoints_class.py"],
    [
        ("HPKOT formulas", "kpoints/_hpkot_points.py:_hpkot_get_points"),
        ("SC formulas", "kpoints/_sc_points.py:_sc_get_points"),
        ("change of basis", "kpoints/_path_and_points.py:get_path_and_points"),
        ("from_crystal", "_kpoints_class.py:Kpoints.from_crystal"),
    ],
    "monitor with published tables and a nearest-lattice-point oracle",
    NOTE + "F3 of MCLC1/2 (misprint of the publication) is excluded from the geometric test.",
)
prop(
    "C11",
    "Recommended paths are the published ones and can be followed and plotted",
    "For every crystal the recommended path is the published one for its symbol or variation; "
    "every point it visits is among the returned points and consecutive points of a subpath are "
    "different points of the reciprocal space. Every point of the path has the plot label that "
    "its name stands for.",
    ["inputs"],
    "all space groups, HPKOT and SC, with and without time reversal",
    "Tests check that a path is returned; an undefined point or label in one variation appears "
    "only when that variation is plotted.",
    ["kpoints/_path_and_points.py", "constants/_kpoints.py", "constants/_hpkot_convention.py",
     "constants/_sc_convention.py"],
    [
        ("paths", "constants/_hpkot_convention.py:HPKOT_DEFAULT_K_PATHS"),
        ("paths", "constants/_sc_convention.py:SC_DEFAULT_K_PATHS"),
        ("labels", "constants/_kpoints.py:HS_PLOT_NAMES"),
    ],
    "monitor with an independent path parser and the published paths",
    NOTE + "labels are judged by a rule (Greek letters, indices, primes).",
)
prop(
    "C12",
    "Paths without time reversal cover the other half of the reciprocal space",
    "Without time-reversal symmetry, and only for crystals without inversion, the path is "
    "followed by the same path through primed points and every primed point is the negative of "
    "its unprimed partner (the centre stays unprimed). With time reversal or with inversion "
    "nothing is added, and the unprimed part never changes.",
    ["inputs", "configurations"],
    "all 230 space groups (with and without inversion), both conventions, both kinds of "
    "coordinates",
    "Tests do not run the option over space groups; whether inversion is present depends on each "
    "of the 230 groups.",
    ["kpoints/_path_and_points.py"],
    [("extension", "kpoints/_path_and_points.py:get_path_and_points")],
    "monitor comparing the two options on the same crystal",
    NOTE + "centrosymmetric groups are taken from the crystal classes.",
)
prop(
    "C13",
    "All views of a k-path describe the same path",
    "For any set of points, path and density, the list of points, the flattened coordinate, the "
    "positions of the high-symmetry points on it, the labels and the table of points of a k-path "
    "agree: each segment starts and ends exactly at its points and is sampled evenly with the "
    "requested number of inner points, the flattened coordinate grows by the distance within a "
    "subpath and does not grow over a gap, and labels sit at the ticks with both names at a gap. "
    "Relative and absolute coordinates are connected by the reciprocal cell.",
    ["inputs"],
    "paths of any number of subpaths with repeated, collinear and coincident points, any "
    "reciprocal cell, density from 0 up, any documented way of giving the path",
    "Tests sample two or three paths.",
    ["_kpoints_class.py"],
    [
        ("points", "_kpoints_class.py:Kpoints.points"),
        ("flat_points", "_kpoints_class.py:Kpoints.flat_points"),
        ("ticks and labels", "_kpoints_class.py:Kpoints.ticks"),
    ],
    "reference-model monitor over random paths",
    NOTE + "the reference model is written from the documentation.",
    state=[("path, n, points", "the set of points, the path and the density", "_kpoints_class.py:Kpoints")],
)
prop(
    "C14",
    "Every history of operations on k-points agrees with a reference model",
    "After any sequence of adding and removing points, setting the path and the density, copying, "
    "reading and refused operations, a k-points object has the state and the views that the "
    "sequence implies; a refused operation (repeated or unknown name, malformed path, density "
    "that is no integer) changes nothing. Copies are independent of the original and no "
    "operation changes the data the object was made from.",
    ["histories"],
    "random histories on several live copies, with refused operations in between",
    "Tests run each operation once on a fresh object.",
    ["_kpoints_class.py"],
    [
        ("add_hs_point", "_kpoints_class.py:Kpoints.add_hs_point"),
        ("remove_hs_point", "_kpoints_class.py:Kpoints.remove_hs_point"),
        ("path setter", "_kpoints_class.py:Kpoints.path"),
        ("copy", "_kpoints_class.py:Kpoints.copy"),
    ],
    "history monitor against an executable reference model",
    NOTE + "removing a point that the path uses is a known finding and kept apart.",
    state=[("path, n, points", "the set of points, the path and the density", "_kpoints_class.py:Kpoints")],
)
prop(
    "C15",
    "String and list forms of a k-path are two spellings of the same path",
    "Converting any path from its string form to its list form and back, or from list to string "
    "and back, gives the path back: the same subpaths with the same names in the same order. "
    "Input that is not a path (not a string, a subpath of one point) is refused with a value "
    "error.",
    ["inputs"],
    "paths of any number and length of subpaths with any names without the separators",
    "Tests convert a few paths with one-letter names.",
    ["kpoints/_path_and_points.py"],
    [
        ("get_path_as_list", "kpoints/_path_and_points.py:get_path_as_list"),
        ("get_path_as_string", "kpoints/_path_and_points.py:get_path_as_string"),
    ],
    "round-trip monitor with an independent parser",
    NOTE + "names contain neither '-' nor '|'.",
)
prop(
    "C16",
    "Cells, parameters, reciprocal cells and transformations are consistent",
    "For every cell given as list or array, the reciprocal vectors satisfy b_i.a_j = 2 pi "
    "delta_ij and the reciprocal of the reciprocal is the cell; parameters are the lengths and "
    "angles of the vectors and the cell made from possible parameters has them, with a1 along x, "
    "a2 in the upper xy half-plane and positive volume equal to the volume computed from them. "
    "Impossible parameters are refused, and the transformation matrix from one cell to another "
    "expresses the new vectors in the old ones and composes.",
    ["inputs"],
    "skewed, left-handed, needle- and plate-like cells at scales from 1e-3 to 1e3 and parameters "
    "up to the border of the possible",
    "Tests sample orthogonal or mildly skewed cells.",
    ["cell/_basic_manipulation.py", "geometry/_geometry.py"],
    [
        ("get_reciprocal", "cell/_basic_manipulation.py:get_reciprocal"),
        ("from_params", "cell/_basic_manipulation.py:from_params"),
        ("parallelepiped_check", "geometry/_geometry.py:parallelepiped_check"),
    ],
    "monitor evaluating defining equations",
    NOTE + "angles closer than 0.05 degrees to the border are left out.",
)
prop(
    "C17",
    "The Niggli cell is the reduced cell of the same lattice, unique for it",
    "For every cell both implementations return a basis of the same lattice with the same "
    "orientation (handedness), whose vectors have the shortest possible lengths and whose metric "
    "satisfies the published conditions of a Niggli cell within the tolerance. The metric is the "
    "same for every basis of the lattice and for both implementations; a cell without volume and "
    "an unknown implementation are refused with a value error.",
    ["inputs"],
    "general, symmetric, integer, centred and nearly orthogonal lattices in any basis",
    "Tests check a handful of published examples; the reduction branches on signs and "
    "equalities.",
    ["cell/_niggli.py"],
    [("reduction steps", "cell/_niggli.py:get_niggli")],
    "monitor evaluating published conditions and lattice identity",
    NOTE + "uniqueness is not judged within the tolerance of a border between forms; there the "
    "documented NiggliReductionFailed is accepted too.",
)
prop(
    "C18",
    "Wigner-Seitz cells and Brillouin zones are closest-point regions",
    "For every lattice basis, every vertex of the returned cell is equally far from the origin "
    "and from at least three other lattice points and no lattice point is closer; every edge joins two "
    "vertices along the boundary; the edges form the closed skeleton of a convex polyhedron with "
    "the volume of one cell. The region depends on the lattice only, not on its basis, and the "
    "Brillouin zone is the region of the reciprocal lattice.",
    ["inputs"],
    "all centrings and symmetries, elongated, skewed and left-handed bases",
    "Tests check shapes of arrays for simple cells.",
    ["cell/_voronoi.py"],
    [
        ("Voronoi edges", "cell/_voronoi.py:_get_voronoi_cell"),
        ("get_brillouin_zone", "cell/_voronoi.py:get_brillouin_zone"),
    ],
    "monitor with nearest-lattice-point, volume and Euler-formula oracles",
    NOTE + "distances are judged with 1e-6 of the size of the cell.",
)
ATOMS = "crystal/_atoms.py"
PLOT = "_plotly_engine.py"
prop(
    "C19",
    "Lattice points are all integer combinations in the range, each once",
    "For every cell and range, the lattice points are exactly the integer combinations of the "
    "three vectors with |r_i| <= range[i], each once and in the order of the grid; absolute and "
    "relative, flat and shaped answers describe the same points.",
    ["inputs"],
    "any cell (lists, arrays, integers), different and zero ranges, all forms of the answer",
    "Tests check one or two ranges of a cubic cell; mixed-up axes are seen only with three "
    "different ranges and a skewed cell.",
    ["cell/_voronoi.py"],
    [("get_lattice_points", "cell/_voronoi.py:get_lattice_points")],
    "monitor comparing with enumerated combinations",
    NOTE,
)
prop(
    "C20",
    "Examples are examples of what they are named after",
    "Every example cell or crystal, asked for in any letter case, has the extended Bravais "
    "lattice symbol (and inversion, if asked for) or the SC variation of its name; cells of the "
    "SC constructors are primitive cells with the published metric of their lattice for every "
    "possible set of parameters, and impossible parameters and unknown names are refused with a "
    "value error. Changing a returned example does not change the next one.",
    ["inputs", "histories"],
    "all names with all options, random parameters of all constructors",
    "Tests check that examples exist and a few fixed parameters.",
    ["cell/_sc_examples.py", "crystal/_hpkot_examples"],
    [
        ("SC constructors and examples", "cell/_sc_examples.py:sc_get_example"),
        ("HPKOT examples", "crystal/_hpkot_examples:hpkot_get_example"),
    ],
    "monitor measuring symbol, variation and metric of the examples",
    NOTE + "an example cell is a crystal with one atom.",
)
prop(
    "C21",
    "Volumes, angles and spherical coordinates obey their definitions",
    "For every vectors, the angle is the angle between them (in degrees or radians, in [0, "
    "180]), the volume is the absolute value of the triple product or the volume of the parallelepiped of the "
    "parameters, and the vector is rebuilt from its spherical coordinates for any polar axis and "
    "any zero line; impossible parameters and zero vectors are refused.",
    ["inputs"],
    "nearly parallel, tiny, huge, axis-aligned vectors, lists and arrays, oblique zero lines",
    "Tests sample a few directions along axes; quadrants, oblique reference lines and nearly "
    "parallel vectors are cases of their own.",
    ["geometry/_geometry.py"],
    [
        ("get_angle", "geometry/_geometry.py:get_angle"),
        ("get_volume", "geometry/_geometry.py:get_volume"),
        ("get_spherical", "geometry/_geometry.py:get_spherical"),
    ],
    "monitor rebuilding vectors and evaluating independent formulas",
    NOTE + "vectors within 1e-4 of the polar axis are judged with the tolerance 1e-4.",
)
prop(
    "C22",
    "Comparisons with a tolerance obey their definition",
    "For all numbers x, y and tolerances, each of <, >, <=, >=, ==, != is decided by x - y and "
    "the tolerance eps (or atol + rtol |y|): exactly one of <, ==, > holds, <= and >= are their "
    "unions, != is the opposite of ==; other conditions are refused with a value error.",
    ["inputs"],
    "numbers just inside and outside of the tolerance, all magnitudes and signs, all forms of "
    "giving the tolerance",
    "Every classification of lattices rests on these comparisons; tests sample a few pairs.",
    ["_numerical.py"],
    [("compare_with_tolerance", "_numerical.py:compare_with_tolerance")],
    "monitor evaluating the definition around the tolerance",
    NOTE + "differences within 1e-12 of the tolerance itself are not judged.",
)
prop(
    "C23",
    "Moving atoms keeps the crystal, vectors between atoms agree",
    "After any sequence of shifting operations, shifting and curing move all atoms by one and "
    "the same vector (the centre gets to the given point; the smallest negative coordinates get "
    "to zero, others are not moved), ensuring (0,0,0) moves each atom by whole periods into the "
    "cell; other data stay. Vectors between atoms are the difference of their positions plus the "
    "periods, add up along chains and have the reported distance as their length.",
    ["inputs", "histories"],
    "sets of 1-12 atoms in any container, coordinates from -20 to 20, sequences of operations, "
    "any cell, relative and absolute points",
    "Tests check one operation on a few atoms.",
    ["crystal/_basic_manipulation.py"],
    [
        ("shift_atoms", "crystal/_basic_manipulation.py:shift_atoms"),
        ("cure_negative", "crystal/_basic_manipulation.py:cure_negative"),
        ("ensure_000", "crystal/_basic_manipulation.py:ensure_000"),
        ("get_vector", "crystal/_basic_manipulation.py:get_vector"),
        ("get_distance", "crystal/_basic_manipulation.py:get_distance"),
    ],
    "monitor comparing states before and after each operation",
    NOTE,
)
prop(
    "C24",
    "Species, types and unique names of atoms are consistent",
    "For every name made of an element symbol in any letter case and characters that are no "
    "letters, the species is that element, otherwise X (with a warning, or an error if asked "
    "for). Types are positive integers, equal exactly for equal types, species or deduced "
    "species. Unique names are always unique, one per atom, start with the given name and are "
    "the given ones if those are unique.",
    ["inputs"],
    "all elements in all letter cases with decorations, lists with repetitions and names that "
    "coincide after numbering, any combination of keys",
    "Tests check a few names; numbering may collide with other given names.",
    [ATOMS, SPG],
    [
        ("get_atom_species", ATOMS + ":get_atom_species"),
        ("get_unique_names", ATOMS + ":get_unique_names"),
        ("get_spglib_types", SPG + ":get_spglib_types"),
    ],
    "monitor evaluating the documented rules",
    NOTE + "names with letters that belong to no element symbol are not judged.",
)
prop(
    "C25",
    "Atoms are accepted exactly if they are what is documented",
    "Every dictionary of atoms whose values have equal lengths, strings as names, known elements "
    "or X as species, (N, 3) positions, positive integers as types and all required keys passes "
    "the validation; with any defect it is refused with the documented error, or reported as "
    "False if asked not to raise. Functions that need valid atoms refuse the invalid ones, and "
    "the validation never modifies the atoms.",
    ["inputs"],
    "valid atoms and atoms with one or two defects of each kind, at any position, in any "
    "container and order of keys",
    "Tests check single defects one by one; combinations and order of keys are not covered.",
    ["crystal/_crystal_validation.py", SPG],
    [("validate_atoms", "crystal/_crystal_validation.py:validate_atoms")],
    "monitor comparing verdicts with injected defects",
    NOTE,
)
prop(
    "C26",
    "Attribute access to a dictionary is another spelling of its keys",
    "After any history of reading, writing and deleting keys and attributes, updating, copying, "
    "pickling, adding and removing the attribute access, the dictionary has the keys, the order "
    "and the values of a plain dictionary with the same history; missing attributes are refused. "
    "Crystals given with attribute access give the same results as plain ones.",
    ["histories", "inputs"],
    "random histories over all operations; crystals of a third (thorough: all) space groups",
    "Tests do not cover histories.",
    ["_syntactic_sugar.py"],
    [("SyntacticSugar", "_syntactic_sugar.py:SyntacticSugar")],
    "monitor with a plain dictionary as reference model",
    NOTE + "keys are identifiers that are no methods of dict.",
)
prop(
    "C27",
    "A crystal written to POSCAR is the crystal that is read back",
    "For every crystal, comment, number of decimals and mode, what is read from the written file "
    "has the cell and the atoms that were written, within the rounding, atoms of one species in "
    "their order, species given or deduced from names, and the comment on one line; streams, "
    "paths, directories and the default name are equivalent, and writing again changes nothing. "
    "An unknown mode and atoms without species are refused with a value error, without touching "
    "the file or the arguments.",
    ["inputs", "histories"],
    "any cell, 1-12 atoms of up to 4 species in any order, comments with line breaks, 3-15 "
    "decimals, seven kinds of targets",
    "There are no tests of the input and output.",
    ["io/_vasp.py"],
    [("dump_poscar", "io/_vasp.py:dump_poscar"), ("load_poscar", "io/_vasp.py:load_poscar")],
    "round-trip monitor over streams and scratch files",
    NOTE + "the comment has no carriage return.",
)
prop(
    "C28",
    "A POSCAR file is read as the format defines it",
    "For every text in the POSCAR format, the cell, the names and the positions that are read "
    "are those the format defines: one positive scale factor, a negative one that is the volume, "
    "three factors of the Cartesian components; species line present or not (then X1, X2, ... "
    "per block); repeated blocks; selective dynamics; Direct and Cartesian modes recognised by "
    "the first letter; columns and blocks after the coordinates ignored. Other sets of factors "
    "are refused with a value error, missing files with FileNotFoundError.",
    ["inputs"],
    "generated texts over all these options, number formats, separators, line ends and sources",
    "There are no tests of the input and output.",
    ["io/_vasp.py"],
    [("load_poscar", "io/_vasp.py:load_poscar")],
    "monitor comparing with the crystal the text was made from",
    NOTE + "lines of the mode and of selective dynamics do not start with a space.",
)
prop(
    "C29",
    "What is drawn is the geometry that was given",
    "For every drawing call, the traces it adds to the figure draw exactly the documented "
    "geometry of its arguments: points, lines, vectors with arrow at the end and label beyond "
    "it, the twelve edges and three vectors of a cell, the edges of the Wigner-Seitz cell or "
    "Brillouin zone, each subpath of a k-path, the k-points, lattice points or atoms, moved by "
    "the shift, in the given (or species') colors, with names and true data in the hover text. "
    "Each call draws in the given subplot, in one group of the legend, with exactly one legend "
    "entry if it has a label and none otherwise, and changes neither its arguments nor earlier "
    "drawings.",
    ["inputs", "histories"],
    "histories of 1-5 calls of all kinds with random options on random grids of subplots",
    "There are no tests of the plotting.",
    [PLOT],
    [("PlotlyEngine.plot_*", PLOT + ":PlotlyEngine")],
    "monitor decoding the traces of the figure into geometry",
    NOTE + "edges of zones are the ones judged by C18.",
)
prop(
    "C30",
    "The axes show everything that was drawn, undistorted",
    "After any sequence of drawing calls with showing and saving in between, in each used subplot "
    "the ranges of the axes contain everything drawn in it (labels included) without being much "
    "larger, and the box has the proportions of the ranges, so that lengths are not distorted. "
    "The legend is at the given position (unknown ones are refused with a value error and save "
    "nothing), axes are hidden if asked for, options reach the layout, and the saved page holds "
    "the traces and ranges of the figure.",
    ["inputs", "histories"],
    "histories of drawing, showing and saving on random grids, data far from the origin, flat "
    "and single-point data",
    "There are no tests of the plotting.",
    [PLOT],
    [
        ("ranges", PLOT + ":PlotlyEngine._update_fig_aspect_range"),
        ("show", PLOT + ":PlotlyEngine.show"),
        ("save", PLOT + ":PlotlyEngine.save"),
    ],
    "monitor comparing ranges with drawn coordinates and parsing saved pages",
    NOTE + "the figure is drawn by this engine only.",
)
prop(
    "C31",
    "A call is a function of the values of its arguments and of nothing else",
    "Whatever was called before, and whatever callers did to results and to arguments of earlier "
    "calls, each public function returns the same values for the same values of arguments, given "
    "as arrays of any memory layout (C or Fortran order, strided views, read-only), lists or "
    "tuples. It modifies neither its arguments (unless documented) nor its default values, and "
    "its result shares no memory with the arguments, with earlier results or with the library.",
    ["inputs", "histories"],
    "random histories of calls of all public functions, of drawing and of input/output, in all "
    "forms of arguments, with hostile callers that overwrite results and reuse buffers",
    "Tests call each function once with fresh arguments; caches, aliases, module level state and "
    "in-place changes show only in histories.",
    [CONV, PRIM, SPG, "cell/_basic_manipulation.py", "cell/_niggli.py",
     "geometry/_geometry.py", "crystal/_atoms.py", "kpoints/_path_and_points.py",
     "io/_vasp.py"],
    [
        ("functions of cells", "cell/_basic_manipulation.py:get_lattice_points"),
        ("functions of crystals", CONV + ":get_conventional"),
        ("symmetry data", SPG + ":get_spglib_data"),
        ("k-points", "kpoints/_path_and_points.py:get_path_and_points"),
    ],
    "monitor of histories: snapshots of arguments, memory overlap, comparison of repeated calls",
    NOTE + "get_spglib_types is documented to return given types themselves.",
)
prop(
    "C32",
    "Tables of constants are complete and published",
    "The published tables that the library offers are complete, consistent with each other and "
    "correct: masses and colors of all atoms, numbers of lattice types of the 230 space groups, "
    "names of Bravais lattices, conventional-to-primitive matrices, high-symmetry points, paths "
    "and labels of all variations of both conventions. No use of the library changes them.",
    ["inputs", "histories"],
    "every entry of every table, before and after random use of the library",
    "Tests read few entries; one wrong digit in one entry is seen only by the users of it (the "
    "color of Er was no color).",
    ["constants/_atoms.py", "constants/_hpkot_convention.py", "constants/_sc_convention.py",
     "constants/_kpoints.py"],
    [
        ("masses and colors", "constants/_atoms.py:ATOMIC_MASS"),
        ("points and paths", "constants/_kpoints.py:HS_PLOT_NAMES"),
    ],
    "monitor reading the tables in a running process against publications",
    NOTE + "masses and colors are the ones of PubChem, which the source names.",
)
prop(
    "C33",
    "Symmetry data belong to one crystal and are used only for it",
    "Symmetry data report the given cell, positions, types and tolerances, the space group, "
    "crystal family and centring of the crystal, and do not change when the given objects do. "
    "Every function that accepts them gives for this crystal the same result as without them "
    "(with the same tolerances); data of any other crystal (another cell, other positions, "
    "another order or number of atoms, other types) are refused with a value error, and objects "
    "that are no symmetry data with a type error. The attributes of the data cannot be replaced, "
    "and a crystal for which no symmetry can be found is refused instead of described.",
    ["inputs", "histories"],
    "crystals of all space groups, data kept over changes of the given objects, pairs of data "
    "and crystals that differ in one number, one atom or one type",
    "Tests never reuse symmetry data; silently using the ones of another crystal gives wrong "
    "cells, points and paths without any error.",
    [SPG, CONV, PRIM, "crystal/_sc_variation.py", "crystal/_hpkot_extended_bl_symbol.py",
     "kpoints/_path_and_points.py"],
    [
        ("validation", SPG + ":validate_spglib_data"),
        ("data", SPG + ":SpglibData"),
    ],
    "monitor of pairs (crystal, data): comparison with calls without data, injected mismatches",
    NOTE + "crystals are different when a number differs by more than 1e-3 (relative).",
)

prop(
    "C34",
    "The unit of length changes nothing but the numbers measured in it",
    "Nothing in the library prefers a unit of length: the same crystal written in another unit "
    "(with tolerances of length in this unit) has the same space group, Bravais lattice type and "
    "variation (away from the borders between variations), the same path and names of points, the "
    "same number of atoms in its conventional "
    "and primitive cells, and all lengths, areas, volumes, k-vectors, ticks and vertices are "
    "multiplied by the corresponding power of the unit. Functions of cells (reciprocal cell, "
    "parameters, scalar products, Niggli cell of spglib, lattice points, Wigner-Seitz cell, "
    "Brillouin zone, volume, angles, vectors, distances) do so in any unit.",
    ["inputs"],
    "crystals of all 230 space groups in units from 1/4 to 256 Angstrom, functions of cells in "
    "units from 1e-5 to 1e9",
    "Tests use cells of a few Angstrom only; absolute tolerances inside functions (the Niggli "
    "reduction had one) make results wrong for large or small cells.",
    [CONV, PRIM, SPG, "cell/_niggli.py", "cell/_voronoi.py", "cell/_basic_manipulation.py",
     "crystal/_sc_variation.py", "crystal/_hpkot_extended_bl_symbol.py", "_kpoints_class.py"],
    [
        ("Niggli cell", "cell/_niggli.py:get_niggli"),
        ("variations", "crystal/_sc_variation.py:sc_get_variation"),
        ("k-points", "_kpoints_class.py:Kpoints"),
    ],
    "monitor of pairs of executions in two units, scaling law as the oracle",
    NOTE + "documented absolute tolerances: parallelepiped_check (1e-8) and the wulfric "
    "implementation of the Niggli reduction, which are not compared in tiny units.",
)
prop(
    "C35",
    "Results do not depend on the process, the order of calls or other threads",
    "What a public function returns, refuses (type of the error) or writes depends on its "
    "arguments only. Hash randomisation, optimised mode of python (-O, -OO), print options of "
    "numpy, state of random generators, locale, environment variables, the current directory, "
    "garbage collection and the order in which calls are made change nothing; calls made by "
    "several threads at the same time, also with the same objects as arguments, give the "
    "results they give alone.",
    ["histories", "schedules"],
    "random calls of all public functions (valid ones, refused ones, ones that modify their "
    "arguments, files, drawings) in processes of different kinds and in six threads with "
    "switches injected into the lines of the library",
    "Tests run in one process, one thread and one order; sets that are iterated, validation by "
    "assert, texts of arrays, buffers shared by calls do not show there.",
    [CONV, PRIM, SPG, "cell/_basic_manipulation.py", "cell/_niggli.py", "io/_vasp.py",
     "geometry/_geometry.py", "crystal/_atoms.py", "crystal/_crystal_validation.py",
     "kpoints/_path_and_points.py", "_kpoints_class.py", "_plotly_engine.py"],
    [
        ("types of atoms", SPG + ":get_spglib_types"),
        ("refusals", "crystal/_crystal_validation.py:validate_atoms"),
        ("k-points", "kpoints/_path_and_points.py:get_path_and_points"),
        ("files", "io/_vasp.py:dump_poscar"),
    ],
    "differential monitor of processes and schedules: thread stress with injected switches",
    NOTE + "texts of errors are not compared; threads own the objects that a function is "
    "documented to modify.",
)
prop(
    "C36",
    "A call leaves the process as it found it, also when refused or interrupted",
    "Apart from its result, a file or page the caller asked for and a documented change of its "
    "arguments, a call of a public function has no effect: settings of the process (floating "
    "point errors and print options of numpy, random generators, warning filters, current "
    "directory, environment, locale, umask, signals, recursion limit, garbage collector, "
    "logging, defaults of plotly), functions of shared modules, standard output, open files, "
    "threads and directories are as before; no process or connection is started and no other "
    "file is read or written. The same holds when the call is refused or interrupted at any "
    "line, and a call that was interrupted gives the right result when it is made again.",
    ["inputs", "fault_sequences", "histories"],
    "random calls of all public functions in processes with unusual settings, refused calls, "
    "interruptions injected before random lines of the library",
    "Tests look at results; a setting that is changed for a moment and not put back on one path "
    "out of the function, or a file left open, harms other parts of the user's program.",
    [CONV, PRIM, SPG, "cell/_basic_manipulation.py", "cell/_niggli.py", "cell/_voronoi.py",
     "io/_vasp.py", "geometry/_geometry.py", "crystal/_atoms.py", "_kpoints_class.py",
     "kpoints/_path_and_points.py", "_plotly_engine.py"],
    [
        ("files", "io/_vasp.py:dump_poscar"),
        ("files read", "io/_vasp.py:load_poscar"),
        ("drawings", "_plotly_engine.py:PlotlyEngine"),
        ("angles", "geometry/_geometry.py:get_angle"),
        ("symmetry data", SPG + ":SpglibData"),
    ],
    "audit hook and pictures of the process around every call, injected interruptions",
    NOTE + "an interrupted call may leave a part of the file it was writing; messages of spglib "
    "itself on the error stream are not judged.",
)
