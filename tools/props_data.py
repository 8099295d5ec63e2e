prop("P07", "Conversions between rotation representations preserve the rotation",
     "Every conversion between quaternions, rotation matrices, axis-angle, Rodrigues-Frank, homochoric, cubochoric, Bunge "
     "and 6D representations returns the representation of the same rotation as its argument. This holds for every "
     "rotation of the documented domain, including the identity, half turns about any axis, quaternions of either sign "
     "and cube faces and edges, and the result is never undefined there.",
     ["inputs"], "every conversion, every rotation of its domain, float32 and float64, every documented option value",
     "The tests sample random rotations, which have measure zero on the special cases (identity, half turns, gimbal lock, "
     "cube edges) and do not call every conversion.",
     [O], [("conversion kernels and their special-case masks", O)],
     "abstract interpretation to gated normal forms (global value numbering) compared with reference rotation matrices",
     "Normal forms of the result's rotation matrix against the argument's; differences count only when confirmed at a "
     "point of the documented domain in 50-digit arithmetic. Round-off accuracy is not judged.")

prop("P04", "Batched operations accept every batch shape and act element by element",
     "Every batched rotation, quaternion, rigid-motion, sphere-projection and symmetry operation accepts any number of "
     "leading batch dimensions, including none and dimensions of size one. Its result has that batch shape followed by the "
     "documented trailing shape, and each element depends only on the argument elements at the same batch position, in the same way for every batch shape.",
     ["inputs"], "every batch shape, every batched public operation of the rotation, Lie algebra and sphere modules",
     "The tests call one or two batch shapes; broadcasting mistakes show only for particular ranks or sizes one.",
     [O, "ebsdtorch/s2_and_so3/quaternions.py", "ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/s2_and_so3/laue_fz_misori.py",
      "ebsdtorch/s2_and_so3/laue_fz_s2.py", "ebsdtorch/s2_and_so3/sphere.py", "ebsdtorch/lie_algebra/se3.py"],
     [("indexing, masks, unsqueeze/squeeze and reductions over the trailing axes", "every batched kernel")],
     "symbolic shape inference (abstract interpretation with symbolic batch prefixes) and comparison of element normal forms",
     "Shapes are decided for the five prefixes (), (B,), (B,C), (1,), (B,1,C) with symbolic B, C; element-wise dependence is "
     "decided where the normal forms are closed, otherwise listed as undecided in the evidence.")

prop("P06", "Quaternion operations obey Hamilton's algebra and match their rotations",
     "Quaternion multiplication, conjugation, application, angle, interpolation, normalisation and shortest-arc construction "
     "equal Hamilton's definitions for every pair of unit quaternions. Multiplication stands for composition, conjugation for inversion, "
     "application for rotating a vector, and operations documented to return the standard half-sphere return a non-negative "
     "scalar part. Interpolation between equal or nearly equal quaternions, shortest arcs between parallel or antipodal vectors, and angles of equal rotations are defined.",
     ["inputs"], "every quaternion operation, every pair of unit quaternions and unit vectors",
     "Tests sample random quaternions; wrong signs, operand order and degenerate pairs show only for particular arguments or non-commuting pairs.",
     ["ebsdtorch/s2_and_so3/quaternions.py"], [("quaternion kernels", "ebsdtorch/s2_and_so3/quaternions.py")],
     "abstract interpretation to gated normal forms (global value numbering) compared with reference polynomials",
     "Differences count only when confirmed at a point of the documented domain in 50-digit arithmetic. Round-off accuracy is not judged.")

prop("P14", "Rigid-motion exponential and logarithm maps are exact inverse pairs",
     "The exponential maps return the rotation about the vector by its length and the translation times the left Jacobian, for every "
     "twist including zero, tiny and near-threshold rotation angles. The logarithm maps return the twist whose exponential is the given motion for "
     "every motion with rotation angle below a half turn, and the Jacobian and its inverse multiply to the identity.",
     ["inputs"], "every twist with rotation angle below a half turn (beyond, for the exponential), all representations (matrix, quaternion, split)",
     "The series/closed-form branches differ only in a narrow band of angles and in higher-order terms, which sampled round trips do not visit.",
     ["ebsdtorch/lie_algebra/se3.py"], [("series thresholds and coefficients", "ebsdtorch/lie_algebra/se3.py")],
     "abstract interpretation to gated normal forms compared with closed-form reference maps",
     "Compared at angles around every branch threshold found in the source; differences below the stated tolerance (1e-10 for maps, "
     "2e-6 for logarithms near the half turn) are treated as round-off.")

prop("P21", "Sphere projections are area-preserving maps that invert each other",
     "The square equal-area projection and its inverse are the Rosca-Lambert maps and undo each other, the hexagonal inverse is the "
     "equal-area hexagon map, and every copy of these projections in the code returns the same point. The inverse maps return a point of the upper unit hemisphere for "
     "every point of the square or hexagon, including centre, edges, diagonals and corners, and the spherical angle conversions invert each other with polar angle first.",
     ["inputs"], "every point of the sphere, the square and the hexagon; every copy of the projections",
     "Tests do not call these projections; sector boundaries, diagonals and poles have measure zero.",
     ["ebsdtorch/s2_and_so3/sphere.py", "ebsdtorch/utils/rosca_lambert.py", "ebsdtorch/crystallography/kvectors.py", "ebsdtorch/simulation/monte_carlo.py"],
     [("sector masks and radial maps", "ebsdtorch/s2_and_so3/sphere.py"), ("duplicated projections", "ebsdtorch/utils/rosca_lambert.py")],
     "abstract interpretation to gated normal forms compared with reference maps",
     "Differences count only when confirmed at a point of the documented domain.")

prop("P08", "Each Laue group number selects exactly that crystallographic rotation group",
     "For each of the eleven Laue group numbers the operator table is the rotation group of that class: unit quaternions in double precision, identity first, "
     "pairwise distinct, closed under composition and inversion, with the main axis along z and the two-fold axis along x. "
     "The multiplicity of the group counts those rotations together with inversion.",
     ["configurations"], "all eleven Laue groups, every element and every pair of elements",
     "One wrong sign in one of 78 rows leaves unit quaternions and correct counts, so only the group axioms over every pair expose it.",
     ["ebsdtorch/s2_and_so3/laue_generators.py"], [("operator tables", "ebsdtorch/s2_and_so3/laue_generators.py")],
     "constant propagation of the tables through the source, exhaustive group axioms over the resulting constants",
     "Exhaustive over groups and pairs of elements.")

prop("P20", "Cell geometry is that of the given lattice",
     "For every lattice and every supported unit of length and angle, the metric tensors, structure matrices and volume of a cell, and every vector operation (change of space, dot and "
     "cross product, length, angle, normalisation, change of frame) between direct, reciprocal and Cartesian components, are those of the lattice, with one answer per vector of a batch. "
     "Average atomic number, average weight and density are the occupancy-weighted sums over the atoms of the cell with the right weight per element, and unknown unit or space labels are rejected.",
     ["inputs", "configurations"], "all lattice parameters, vectors, occupancies, unit labels, space labels and pairs of spaces",
     "Cubic and orthogonal examples hide transposes and missing angles, and no test touches the cell.",
     ["ebsdtorch/crystallography/unit_cell.py"],
     [("metric tensors, structure matrices, averages", "ebsdtorch/crystallography/unit_cell.py"), ("vector operations", "ebsdtorch/crystallography/unit_cell.py")],
     "abstract interpretation of constructor and methods to normal forms compared with the textbook geometry; path gates of rejections",
     "Differences count only when confirmed at a lattice of the domain. The conversion of rhombohedral to hexagonal axes is not claimed.")

prop("P22", "Reflection lists are complete; difference tables address every beam pair",
     "The reflection list of a cell holds exactly the index triples other than 000 whose spacing exceeds the given one and which the lattice centring allows, each once, for oblique lattices too, and the "
     "index limits cover them. The beams of a dynamical calculation are 000 followed by that list, and the interaction of every pair of beams is the one computed for the difference of their "
     "indices, with different differences in different table entries.",
     ["configurations"], "cells of every centring including triclinic ones, spacings, and every pair of listed beams",
     "A wrong stride or limit leaves plausible finite matrices; only oblique or unequal axes expose it.",
     ["ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/crystallography/diffraction.py"],
     [("reflection lists and limits", "ebsdtorch/crystallography/unit_cell.py"), ("flattened difference tables", "ebsdtorch/crystallography/diffraction.py")],
     "constant propagation of index lists and table addresses with symbolic table contents, compared with the enumerated lattice",
     "Ten lattices, two spacings each, five centrings; four table layouts with unequal limits.")

prop("P10", "Symmetry reduction returns the equivalent member of the fundamental zone",
     "Reducing an orientation, misorientation or direction under Laue symmetry returns an equivalent one: crystal symmetry acts on the side of its own crystal, the "
     "rotation angle is the smallest over all equivalents, and disorientation angles equal that minimum for every pair of Laue groups. Membership tests agree with the "
     "reduction, including close to the zone faces, every direction has an equivalent in its sector and a general direction exactly one. "
     "The maps between the cubic zone and its cube are inverse to each other and map one onto the other.",
     ["inputs"], "every orientation, pair of orientations and direction, all eleven Laue groups and all 121 pairs of groups",
     "Wrong side, wrong group or a wrong face constant shows only for certain groups or in slivers near zone faces; random samples in the highest symmetry hide it.",
     ["ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/s2_and_so3/laue_fz_misori.py", "ebsdtorch/s2_and_so3/laue_fz_s2.py"],
     [("equivalent enumeration, argmax selection, closed-form faces", "ebsdtorch/s2_and_so3/laue_fz_ori.py"), ("sector bounds", "ebsdtorch/s2_and_so3/laue_fz_s2.py")],
     "abstract interpretation to gated normal forms with selections over enumerated orbits, compared with reference orbits",
     "Selections are compared with the reference orbit; ties exactly on zone faces are not judged for membership. Differences count only when confirmed at a point of the domain.")

prop("P01", "No operation changes a tensor that belongs to its caller",
     "A function or method that returns a result leaves every tensor passed to it unchanged in content and shape, for every combination of options. "
     "An object built from a tensor works on its own copy: later calls on the object do not change the tensor that was given to its constructor.",
     ["inputs", "configurations", "histories"], "every function and method of the package, every argument and constructor argument, all option branches, all aliases and views",
     "An in-place update through a view or of a cached attribute leaves the result right; the damage appears later, in the caller's data, when the same tensor is used again.",
     ["ebsdtorch"], [("in-place operators and views of arguments", "ebsdtorch/ebsd/geometry.py"), ("in-place image processing", "ebsdtorch/preprocessing"),
                     ("stored attributes updated in place", "ebsdtorch/ebsd/experiment_pats.py")],
     "storage-alias analysis: abstract interpretation tracks which argument's storage every tensor shares, reports in-place stores that reach it",
     "Functions without a result, functions named with a trailing underscore and those documented as in-place are outside the guarantee. Stores that reach a caller's tensor only on an unconfirmed alias are listed as undecided.")

prop("P09", "Space group operators and everything assigned to a space group are the group's",
     "For each of the 230 space groups, in every setting offered, the generated operators are the distinct affine lattice maps of exactly that group: closed under "
     "composition modulo lattice translations, with translations inside the unit cell. The point group, crystal system and Laue group assigned to it, its centring "
     "reflection conditions and the positions and multiplicities of the atoms of a cell are those of that group. Group numbers outside the range, settings that do "
     "not exist and unknown point group names are rejected by cells and by the Laue group lookups.",
     ["configurations", "inputs"], "every space group and setting, every point group name, reflections up to index 3, general and special atom positions",
     "No test constructs a space group; a wrong generator, table entry, closure depth or threshold affects a few of the 230 groups only.",
     ["ebsdtorch/crystallography/groups.py", "ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/utils/symmetry_classes.py"],
     [("generator strings and their closure", "ebsdtorch/crystallography/groups.py"), ("attributes and atom orbits of a cell", "ebsdtorch/crystallography/unit_cell.py"),
      ("Laue group lookups", "ebsdtorch/utils/symmetry_classes.py")],
     "constant propagation through the source with verified summaries for the helper functions, exhaustive group-theoretic checks of the resulting constants",
     "Exhaustive over groups and settings. The helper summaries are obligations of their own (normal form of the product at integer lattice maps, duplicate removal on row sets).")

prop("P02", "Computations stay on the device of their data",
     "No operation reached from a public function or method combines an array created on the default device with an array on the "
     "device of the arguments, of the device argument or of the module that runs it. Results are returned on the device of the "
     "arguments, or on the requested device where there is a device argument. Moving a module or a cell to a device moves all its array state.",
     ["inputs", "configurations"], "every function and method, every device, every argument shape, both with and without optional arguments",
     "All tests run on the CPU, where a tensor created on the wrong device cannot be told from one created on the right device.",
     ["ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/harmonics/sht.py", "ebsdtorch/s2_and_so3/orientations.py", "ebsdtorch/ebsd/indexing.py"],
     [("factories, registered buffers and table look-ups", "every module")],
     "abstract interpretation with device provenance labels joined over all paths",
     "Tensors whose device label is lost (containers of unknown content) are listed as undecided; scalars may mix and are exempt.")

prop("P03", "Results keep the floating-point precision of the data",
     "Rotation, quaternion, symmetry, sphere, rigid-motion, harmonic, detector-geometry and streaming-covariance operations compute in the floating-point type of their "
     "data, or in the type asked for where there is a type argument, and return that type. Data are never combined with constants rounded to a "
     "lower type, never stored in or cast to a fixed lower type on the way, and never promoted by tables of a fixed higher type.",
     ["inputs", "configurations"], "every function and method of these modules, every floating-point type, every argument shape",
     "Tests use tolerances of single precision or one type; a rounded constant costs seven digits in double precision without failing them.",
     ["ebsdtorch/s2_and_so3/orientations.py", "ebsdtorch/lie_algebra/se3.py", "ebsdtorch/harmonics/sht.py", "ebsdtorch/ebsd/geometry.py"],
     [("coefficient tables, accumulators and identity matrices", "ebsdtorch/s2_and_so3/orientations.py"), ("transform matrices", "ebsdtorch/harmonics/sht.py")],
     "abstract interpretation with floating-point type labels joined over all paths",
     "The single-precision simulation and scattering code, the harmonic correlation volumes and the fixed-double extended-range Wigner code are outside by design. "
     "Exactly representable constants may have any type. Results whose label is lost are listed as undecided.")

prop("P18", "Unknown options and group numbers are refused",
     "Every function, constructor and method that chooses its behaviour by the value of a string option raises an error for every value that is not one of "
     "the documented ones, never falling back to another behaviour. Every function that takes a Laue group number raises an error "
     "for numbers outside 1 to 11, and every function that takes a space group number for numbers outside 1 to 230.",
     ["inputs", "configurations"], "every string option, Laue group and space group parameter of every public function, every value outside the documented ones",
     "Tests pass documented values only; a wrong value that silently selects some other behaviour or wraps around a table gives plausible, wrong results.",
     ["ebsdtorch/s2_and_so3/laue_generators.py", "ebsdtorch/crystallography/groups.py", "ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/utils/knn.py"],
     [("comparisons with option literals and table lookups by group number", "every function with an option parameter")],
     "constant propagation of a value distinct from every literal, and of out-of-range group numbers, with reachability of normal return",
     "Group numbers are decided for 0, -1 and values just and far above the range; an option that has no meaning under another option is judged with the others at their defaults.")

prop("P19", "Calls are repeatable and nothing outside them changes",
     "Calling any function twice with the same arguments gives the same result: apart from the functions that sample at random by contract (random rotations, "
     "shuffled dictionaries, Monte Carlo, streaming initialisation), none draws random numbers, and none keeps state in module tables, default arguments or globals. "
     "No function changes the random seed, default types, environment or other process-wide settings, and importing a module only defines things and builds constants.",
     ["histories", "programs"], "every function and method, every module, every order of imports and calls",
     "Tests call each function in one process and order; state left behind by one call shows only in a later, different one.",
     ["ebsdtorch/crystallography/groups.py", "ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/ebsd/indexing.py", "ebsdtorch/utils/pca_online.py"],
     [("module-level tables, default arguments, random draws and process-wide settings", "whole package")],
     "effect analysis: abstract interpretation with ownership labels on module-level and default values, and of every module body",
     "Progress output and timing for progress reports are not state. A table of results keyed by all arguments they depend on is accepted. "
     "Uninitialised memory is not judged.")

prop("P11", "Detector geometry maps pixels to sample directions and back",
     "The pose built from a pattern centre and tilts puts the sample origin at the stated distance in front of that detector point, and reading it back returns the same centre and signed tilts; "
     "a fitted correction acts in detector coordinates through the selected components only, also after the selection is changed. "
     "Projecting a pixel to the sample, with or without a scan offset, and back along the ray returns the pixel, and the pixel grid for every binning and padding consists of the centres of the "
     "blocks of pixels in row order, on which the directions used for simulated patterns are built.",
     ["inputs", "configurations"], "every pattern centre, tilt, correction and selection of its components, pixel, scan offset, detector shape, binning and padding",
     "Tests do not touch the detector geometry; a sign, an offset by half a pixel or a spacing error shifts every indexed orientation slightly and looks plausible.",
     ["ebsdtorch/ebsd/geometry.py", "ebsdtorch/ebsd/fitting.py", "ebsdtorch/ebsd/project_hrebsd.py"],
     [("conversion between pattern centre and rigid motion, masked correction, projection and back projection, pixel grids", "geometry, fitting and hrebsd projection modules")],
     "abstract interpretation to gated normal forms compared with the rigid-motion reference; constant propagation of pixel grids",
     "Tilts of the secondary axis beyond a right angle and points in the detector plane's own plane are outside. Grids are decided for small detectors with every kind of binning and padding.")

prop("P12", "Patterns and results returned belong to the current data",
     "After any mixture of binning, normalising, contrast enhancement and earlier look-ups, a master pattern is interpolated from its current values, block averaged exactly when binning is asked for, "
     "and every direction of a batch of any shape gets the value at its own point of the pattern. The patterns of a scan are returned in the order of the indices asked for, block averaged, after the "
     "preprocessing done so far; values set for some patterns change those rows only, and not the tensor given before. "
     "Combining the results of several phases keeps, for every pattern, the orientation, metric and phase of the best first match.",
     ["histories", "inputs"], "every sequence of preprocessing and look-up calls listed, pattern content, batch shape, index list, set of phase ids and direction of the metric",
     "A stale cached picture, a transposed batch or a result of another phase gives plausible patterns; tests do not touch master pattern and scan objects.",
     ["ebsdtorch/ebsd/master_pattern.py", "ebsdtorch/ebsd/experiment_pats.py", "ebsdtorch/s2_and_so3/sphere.py"],
     [("cached binned pattern, projection to the sampled picture, pattern tables", "MasterPattern and ExperimentPatterns")],
     "abstract interpretation of call sequences on abstract objects; comparison of gated normal forms with a history-free reference",
     "The sampling operation itself and the contrast enhancement are uninterpreted functions of their input. Sequences up to four calls; picture and scan extents are fixed small numbers, the number of patterns is arbitrary for the combination of phases.")

prop("P13", "Work done in pieces gives the result of the work at once",
     "The covariance and correlation of streamed data equal those of all rows at once for every split into batches. "
     "Nearest-neighbour search returns for every query the indices and distances of its best matches in order, for every split of data and queries, metric and number of matches. "
     "Indexing, directly or by principal components, gives every pattern the same best orientations for every chunk size of dictionary and scan, with mask, binning, mean subtraction and number of components applied as asked.",
     ["inputs", "histories", "configurations"], "every split of rows, data and queries into pieces, metric, number of matches, mask, binning, mean option and component count",
     "An offset of a piece, or an option honoured in one of the two code paths only, gives plausible matches; tests do not run the search or the indexing.",
     ["ebsdtorch/utils/pca_covmat.py", "ebsdtorch/utils/knn.py", "ebsdtorch/ebsd/indexing.py"],
     [("streaming updates, running best matches, chunk loops", "OnlineCovMatrix, ChunkedKNN and the two indexing functions")],
     "abstract interpretation to gated normal forms over all splits of small data, compared with the definition",
     "Data sets are a few rows with symbolic values; the dictionary is a fixed table. Reduced-precision and quantized searches are not compared; rounding is outside.")

prop("P05", "Inputs valid up to rounding give results that are numbers",
     "Conversions, products, symmetry reductions, angles, logarithms and projections never return NaN for inputs that are valid up to rounding: unit quaternions and directions slightly longer or "
     "shorter than one, rotation matrices with rounded entries, equal, opposite and nearly identical orientations, identities, half turns and poles.",
     ["inputs"], "every input within a rounding error of the documented domain, for every documented operation and symmetry",
     "Normalised data in single precision is off by one unit in the last place almost always; tests use a few exact or random values on which an unguarded arc cosine or root happens to stay inside.",
     ["ebsdtorch/s2_and_so3/orientations.py", "ebsdtorch/s2_and_so3/quaternions.py", "ebsdtorch/s2_and_so3/sphere.py", "ebsdtorch/s2_and_so3/laue_fz_ori.py", "ebsdtorch/lie_algebra/se3.py"],
     [("clamps before arc cosines and roots, masks before divisions", "conversion, symmetry and projection functions")],
     "interval analysis with path constraints over gated normal forms on inputs widened by rounding",
     "Rounding inside the functions is not modelled beyond the widened inputs; infinite values that encode half turns are allowed. Operands not shown inside their domain and without a witness are undecided.")

prop("P17", "Every argument has an effect, under every setting of the other options",
     "Every argument of a public function, constructor or data class, text labels aside, can change what the call returns, changes or keeps for later use: none is accepted and then "
     "ignored, checked and then ignored, or lost on the way to the function that should honour it. This also holds with every other option fixed at any of its "
     "documented values, wherever the argument has a meaning under that value.",
     ["configurations"], "every argument of every public function and constructor, every documented value of every other option",
     "A dropped keyword leaves the default behaviour, which is what tests exercise; that an option does nothing shows in no single run.",
     ["ebsdtorch"], [("options handed on to kernels", "ebsdtorch/crystallography/diffraction.py"), ("constructor options read later", "ebsdtorch/utils/knn.py"), ("refinement options", "ebsdtorch/ebsd/refining.py")],
     "interprocedural flow-sensitive dependence analysis with option values held fixed",
     "Dependence is over-approximated through unknown calls, so an argument that only cancels out numerically is not noticed. Whether the effect is the right one is for other properties.")

prop("P24", "Quantities of dynamical diffraction have their definitions",
     "Electron wavelengths, elastic and absorptive scattering factors under both published fits, site factors, excitation errors and every entry of the structure matrices equal their published definitions, "
     "for crystals with several partly occupied sites and vibrating atoms, at every voltage and for every choice of core, thermal and absorption terms. "
     "The same reciprocal vector is meant whichever fit is chosen, and the special functions beneath agree with the integrals they stand for. A plain number given for voltage or displacement holds for all elements.",
     ["inputs", "configurations"], "every element, reciprocal length, voltage, cell, site list and combination of loss options",
     "A wrong factor, unit, table step or phase still gives smooth, plausible patterns; the tests never compute a structure matrix.",
     ["ebsdtorch/crystallography/diffraction.py", "ebsdtorch/crystallography/ebsd_master.py", "ebsdtorch/crystallography/scattering_factors"],
     [("sums over sites and equivalent positions", "ebsdtorch/crystallography/diffraction.py: calc_helper_bloch_formalism, calc_helper_scatter_matrix, calc_sgh, calc_sg"),
      ("scattering factors and exponential integrals", "ebsdtorch/crystallography/scattering_factors")],
     "constant propagation through the whole computation at chosen elements, lengths, voltages and cells, compared with independent definitions",
     "Decided at listed arguments chosen to reach every branch (small and large arguments, each range of the rational approximations, zero and non-zero vectors), within 0.3 % where the source uses its own series; "
     "the two-dimensional quadrature of the third factor module only through its integrand and rule.")

prop("P15", "Refinement only moves orientations to better matches, pattern by pattern",
     "Grid refinement moves every pattern to the best matching orientation of the grid around its current one, round by round, and gradient refinement keeps what its optimizer found exactly when "
     "that matches better than the start and otherwise keeps the start: no pattern ends at a worse match or outside the fundamental zone, each is compared with its own measurement and the master pattern of its own phase, "
     "and the result does not depend on the other patterns, the batch size or phases without patterns.",
     ["inputs", "histories"], "every pattern, start orientation, batch size, assignment of phases, grid and number of steps",
     "An inverted comparison, an index of the wrong batch or a last batch of one pattern shows only for particular counts and histories; no test runs the refinements.",
     ["ebsdtorch/ebsd/refining.py", "ebsdtorch/ebsd/experiment_pats.py"],
     [("grid rounds, acceptance of steps, batches and phases", "ebsdtorch/ebsd/refining.py: orientation_grid_refinement, orientation_grad_refinement"),
      ("selection and storage by index", "ebsdtorch/ebsd/experiment_pats.py")],
     "constant propagation through both functions with the optimizer replaced by listed moves, compared with the definition",
     "Decided on up to five known patterns with pictures in closed form and Laue group 2. That real optimizer steps improve the match is not decided, only what is kept.")

na("P25", "Spherical harmonic transforms invert each other to working precision",
   "A transform followed by its inverse returns the coefficients or the band-limited function to a few units of working precision, for every band limit and number type.",
   ["inputs", "configurations"], "every band limit, number type and band-limited function",
   "Error growth of recursions and quadrature depends on the band limit far beyond those a test affords.",
   ["ebsdtorch/harmonics/sht.py", "ebsdtorch/harmonics/sht_cc.py"], [("recursions and quadrature weights", "ebsdtorch/harmonics/sht.py")],
   "The accumulation of rounding over a recursion of run-time length needs a numerical error analysis no tool here provides; the exact algebra at small band limits is covered by other properties.")

na("P26", "Wigner recursions neither overflow nor lose all digits at any degree",
   "The extended-range and logarithmic recursions return Wigner elements with small relative error at every degree, order and angle.",
   ["inputs"], "every degree up to thousands, every order and angle",
   "Underflow and cancellation appear at degrees and angles no test visits.",
   ["ebsdtorch/harmonics/wigner_d_xnum.py", "ebsdtorch/harmonics/wigner_d_logspace.py"], [("extended exponent arithmetic", "ebsdtorch/harmonics/wigner_d_xnum.py")],
   "Cancellation in a three-term recursion over thousands of rounded steps has no static bound in reach; intervals widen to everything within a few dozen steps.")

na("P27", "Indexing recovers the orientation of every sufficiently clear pattern",
   "For a pattern simulated from a master pattern at a known orientation, with noise below a bound, indexing and refinement return an orientation within the sampling resolution.",
   ["inputs"], "every orientation, geometry and noise below a bound", "A handful of patterns says little about the whole of orientation space.",
   ["ebsdtorch/ebsd/indexing.py", "ebsdtorch/ebsd/refining.py"], [("nearest dictionary entry by correlation", "ebsdtorch/ebsd/indexing.py")],
   "Accuracy depends on the intensities of the master pattern, run-time data; the search itself is decided under P13.")

na("P28", "Monte Carlo simulation has the distribution of the scattering model",
   "Energies, depths and directions of simulated electrons follow the screened Rutherford and continuous slowing-down model, without bias from batching or duplicate bins.",
   ["inputs", "histories"], "every material, voltage, tilt, number of electrons and random history",
   "A bias of a per cent is invisible without very many trajectories and a reference.",
   ["ebsdtorch/crystallography/ebsd_mc.py", "ebsdtorch/simulation/monte_carlo.py"], [("rejection, scattering and binning loops", "ebsdtorch/crystallography/ebsd_mc.py")],
   "A statement about distributions over random histories; a static argument would have to integrate over the generator, which is outside this family.")
