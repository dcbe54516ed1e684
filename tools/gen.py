#!/usr/local/bin/python3-vt
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z = "src/zernpy/zernikepol.py"
P = "src/zernpy/zernpsf.py"
CZ = "src/zernpy/calculations/calc_zernike_pol.py"
FC = "src/zernpy/calculations/find_pols_coeffs.py"
CP = "src/zernpy/calculations/calc_psfs.py"
CN = "src/zernpy/calculations/calc_psfs_numba.py"
FT = "src/zernpy/calculations/fit_zernike_pols.py"
IM = "src/zernpy/utils/intmproc.py"
PL = "src/zernpy/plotting/plot_zerns.py"
PR = "src/zernpy/props/properties.py"

VF = "abstract interpretation of the AST: interprocedural value-flow to algebraic normal forms, trace partitioning on guards"
GT = "abstract interpretation: guard decision tables over symbolic parameters"
PV = "alias / provenance and effect (mutation) analysis on the abstract heap"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note
PROPS = [
 ("C01", "Polynomial construction accepts exactly the valid orders",
  "A polynomial can be constructed from orders exactly when both are integers with 0 <= n <= 54, |m| <= n and n - |m| even, and from a single index exactly when the index is an integer that numbers such a pair. "
  "Every other argument (invalid or too high orders, out-of-range or non-integer values, unknown or surplus keywords) is rejected with ValueError.",
  ["inputs"], "all integer pairs (m, n), all integer indices, and the classes of non-integer values / keyword sets",
  "the tests try a dozen of pairs; the set of integer pairs is unbounded and the guards interact (parity, sign, limit)", [Z],
  [("constructor guards", Z + ":ZernPol.__init__")], GT,
  "every guard of the constructor is extracted as a condition over symbolic orders; the unbounded rests are single contexts"),
 ("C02", "OSA/ANSI, Noll and Fringe indices follow their definitions",
  "For every valid pair of orders the reported OSA/ANSI, Noll and Fringe indices equal those of the standard definitions (OSA: (n(n+2)+m)/2; Noll: 1-based with even index for cosine terms; Fringe: 1-based groups of equal n+|m|, cosine before sine) and are plain Python integers.",
  ["inputs"], "all valid pairs of orders, without an upper limit", "the tests compare about ten pairs per numbering", [Z],
  [("numbering formulas", Z + ":ZernPol.get_osa_index, get_noll_index, get_fringe_index")], VF,
  "formulas are compared as normal forms in residue-class parameters, hence for all orders, plus all pairs n <= 54 as constants"),
 ("C03", "Index to orders conversion is the exact inverse",
  "Converting an OSA, Noll or Fringe index to orders or to another numbering gives the unique orders (index) belonging to it for every polynomial with n <= 54, and converting back restores the initial index. "
  "An index that belongs to no orders in the supported range (or isn't a valid integer index) is rejected with ValueError instead of being answered with unrelated values.",
  ["inputs"], "all indices of polynomials with n <= 54 in three numberings; unbounded classes of indices outside of the range",
  "tests convert several indices; an off-by-one in the search limits or an unfound index manifests only at the borders", [Z],
  [("index search", Z + ":ZernPol.index2orders"), ("conversions", Z + ":ZernPol.osa2noll, noll2osa, osa2fringe, fringe2osa")], VF,
  "search loops are unrolled completely for every index"),
 ("C04", "All construction routes give the same consistent polynomial",
  "A polynomial constructed through any accepted keyword alias (orders: n/radial_order with m/l/azimuthal_order/angular_frequency; indices: osa_index/osa/ansi_index/ansi, noll_index/noll, fringe_index/fringe) reports the same orders and the matching three indices. "
  "Equality holds exactly for polynomials with equal orders, ordering follows the OSA index, comparison with foreign objects raises ValueError, and the generator of polynomial sets yields all polynomials up to the order in OSA order.",
  ["inputs", "programs"], "all polynomials with n <= 54 times all aliases; pairs of polynomials", "tests cover some aliases on few polynomials; inconsistent state shows up only on rarely used routes",
  [Z], [("constructor", Z + ":ZernPol.__init__"), ("comparison", Z + ":ZernPol.__eq__, __gt__"), ("sets", Z + ":generate_polynomials")], VF,
  "state after construction is extracted through the public getters in every context"),
 ("C05", "Radial values equal the Zernike radial polynomial for all orders",
  "For every valid order with n <= 54 and every radius in [0, 1] (single number or array of any shape) the radial value equals the Zernike radial polynomial R_n^|m|(r); the same holds for the exact-formula option up to n = 40. "
  "The result has the shape of the input radii and every element depends only on its own radius.",
  ["inputs"], "1540 polynomials, all radii in [0, 1], scalar and array inputs, both calculation options",
  "tests compare two internal implementations on a grid up to order ~20 with tolerance; an error in one tabular case or in the recursion of high orders isn't reached", [CZ, FC, Z],
  [("tabular / recursive equations", CZ + ":radial_polynomial"), ("coefficients tables", FC + ":find_coeffs_orders"), ("exact equation", CZ + ":radial_polynomial_eq")], VF,
  "the value is compared as a polynomial in symbolic r, so it covers all radii; floating-point rounding isn't covered"),
 ("C06", "Radial derivatives equal dR/dr for all orders",
  "For every valid order with n <= 54 and every radius in [0, 1] the radial derivative equals the derivative of the Zernike radial polynomial with respect to r; the same holds for the exact-formula option up to n = 38. "
  "The result has the shape of the input radii.",
  ["inputs"], "1540 polynomials, all radii in [0, 1], scalar and array inputs, both calculation options",
  "tests compare implementations for low orders only", [CZ, FC, Z],
  [("tabular / recursive equations", CZ + ":radial_derivative"), ("coefficients tables", FC + ":find_coeffs_orders_dr"), ("exact equation", CZ + ":radial_derivative_eq")], VF,
  "as C05 for the derivative"),
 ("C07", "Polynomial value = normalisation x radial x angular part",
  "The polynomial value equals N*R(r)*cos(m*theta) for m >= 0 and N*R(r)*sin(|m|*theta) for m < 0 with N = sqrt(n+1) for m = 0 and sqrt(2(n+1)) otherwise, for every valid order and for any combination of scalar and array coordinates. "
  "The separately available normalisation factor, angular part and its derivative with respect to theta agree with the same formulas.",
  ["inputs"], "1540 polynomials, all coordinates, scalar/array combinations", "tests check single values of few polynomials", [Z, CZ],
  [("value", Z + ":ZernPol.polynomial_value"), ("factors", CZ + ":normalization_factor, triangular_function, triangular_derivative")], VF,
  "compared as normal forms in symbolic r, theta; floating-point rounding isn't covered"),
 ("C08", "Compiled (numba) calculation equals the ordinary one",
  "With numba available, the accelerated kernel calculation of single and several polynomials gives for every supported polynomial, amplitude, optical parameters and number of integration points the same kernel as the ordinary calculation (except piston, for which the ordinary mode uses the analytical Airy pattern). "
  "Unsupported orders are rejected with ValueError in the accelerated mode, never computed wrongly.",
  ["inputs", "configurations"], "all polynomials of orders <= 10 (supported), all values of physical parameters, normalised or not",
  "tests compare a few kernels with tolerance; a wrong coefficient of one polynomial in the second copy of the table isn't reached", [CN, CP, P],
  [("compiled copy of equations", CN + ":zernpol_value"), ("compiled integration", CN + ":get_psf_point_r_comp, get_psf_point_r_pols_comp"), ("ordinary", CP + ":get_psf_kernel, get_psf_kernel_zerns")], VF,
  "both sides are extracted as closed integration sums over small node numbers with symbolic parameters; JIT compilation itself is trusted"),
 ("C09", "Exact-formula option is limited and announced",
  "Requesting the exact formula for radial order above 40 (values) or above 38 (radial derivative) emits a warning and returns zeros of the shape of the radii; at or below these limits it is calculated without this warning and never silently replaced by zeros. "
  "Without the option all orders are calculated.",
  ["inputs"], "all polynomials with n <= 54, scalar and array radii", "tests try single orders, not both sides of the limit for all three methods", [Z],
  [("limits", Z + ":ZernPol.polynomial_value, radial, radial_dr")], GT, "events (warnings) and results of every trace"),
 ("C10", "Radii outside of [0, 1] and wrong coordinates are rejected",
  "Any real radius below 0 or above 1 - single or anywhere in a list, tuple or array - makes evaluation of a polynomial, radial part or derivative fail with ValueError, as do coordinate arrays of different shapes, while all radii in [0, 1] including the end points are accepted. "
  "Angles outside of [0, 2*pi] only cause a warning, angles inside don't, and the value is calculated in both cases.",
  ["inputs"], "all real radii and angles, containers with several elements", "tests use single values; position of the violating element and closeness to the border vary without limit", [Z],
  [("checks", Z + ":ZernPol._check_radii, _check_angles")], GT,
  "guards are extracted over symbolic radii / angles; NaN values are outside of the claim"),
 ("C11", "Results do not depend on the call history",
  "Evaluating a polynomial, derivative, sum, kernel or fit gives the same result regardless of what was evaluated before (internal caches of coefficients never become corrupted), and returned objects - other than the kernel of a PSF object, which the calculation returns itself - can be modified by the caller without any effect on later results.",
  ["histories"], "all sequences of calls and of modifications of returned objects", "tests evaluate in a fixed order; cache corruption needs a specific earlier call", [FC, CZ, Z, CP, CN],
  [("cached coefficient tables", FC + ":precalculated_initial_coeffs, find_coeffs_orders (lru_cache)")], PV,
  "writes to module level / cached objects and escapes of such objects through results are tracked on the abstract heap; cold and warmed states are compared"),
 ("C12", "Caller's arguments are never modified or retained in results",
  "No operation (evaluation, sums, surfaces, fits, cropping, convolution, kernel calculation, saving) modifies arrays, lists or tuples provided by the caller, and no returned array shares memory with a provided one; changing a provided list or array afterwards doesn't change an already created PSF object.",
  ["inputs", "histories"], "all public operations, all argument containers", "tests don't compare arguments before and after, an in-place operation on a special path isn't noticed", [Z, P, CP, CN, FT, CZ],
  [("array operations", CZ + ", " + CP + ", " + FT)], PV, "mutation events with provenance 'input' and aliasing of results on the abstract heap"),
 ("C13", "Instances do not share mutable state",
  "Setting properties, calculating, cropping or loading a kernel for one PSF object, evaluating one polynomial, or creating/closing one worker pool never changes the attributes or results of another instance or the class defaults used by new instances.",
  ["histories"], "all interleavings of operations on two instances", "tests use objects one by one", [P, Z, IM],
  [("class level defaults", P + ":ZernPSF"), ("class level lists", IM + ":DispenserManager")], PV,
  "observable state of a second instance is extracted before and after operations on the first one; writes with class provenance are tracked"),
 ("C14", "Sums of polynomials contain each term exactly once",
  "A weighted sum of polynomials equals the sum of coefficient times value over all pairs, each counted once whatever the signs, zeros and order of coefficients, and requesting a surface gives at position (i, j) the sum in radius i and angle j for any relation of their numbers. "
  "Unequal lengths, empty lists and non-polynomial members are rejected with ValueError.",
  ["inputs"], "all coefficients (incl. zeros), numbers of terms, coordinate vector lengths", "tests check one or two sums on one mesh shape", [Z],
  [("sums", Z + ":ZernPol.sum_zernikes, _sum_zernikes_meshgrid"), ("surface", Z + ":ZernPol.gen_zernikes_surface")], VF,
  "symbolic coefficients and coordinates; numbers of terms / nodes up to 4"),
 ("C15", "Generated polar coordinates cover the unit circle",
  "Generated radii start at 0, grow with the requested step and end at 1, generated angles start at 0, grow with the requested step and end at 2*pi, without leaving these ranges, for all admissible steps (0 < r_step <= 0.5, 0 < theta_step <= pi), and all other steps raise ValueError. "
  "The equal-points variant gives the requested number (at least 4) of uniformly spaced radii over [0, 1] and angles over [0, 2*pi].",
  ["inputs"], "all steps and point numbers", "tests use the default steps", [Z],
  [("generation", Z + ":ZernPol.gen_polar_coordinates, gen_equal_polar_mesh")], GT,
  "guards over symbolic steps; node expressions over representative steps of all length classes"),
 ("C16", "PSF construction validates its polynomials",
  "A PSF object is created from exactly one polynomial or from a non-empty sequence of distinct polynomials; empty sequences, sequences with anything else than polynomials, repeated polynomials and other objects raise ValueError. "
  "A sequence with one member is equivalent to the single polynomial, and the Airy mode is on exactly when the piston polynomial is among the provided ones.",
  ["inputs"], "all sequences of polynomials / foreign objects", "tests try a few wrong arguments", [P],
  [("constructor", P + ":ZernPSF.__init__")], GT, "type / multiplicity classes of arguments with up to 4 members"),
 ("C17", "Physical parameters are validated and derived values follow them",
  "NA outside (0, 1.7], non-positive wavelength or pixel size, pixel size above the Nyquist limit 0.25*wavelength/NA and numbers of coefficients different from the number of polynomials raise ValueError, all other values are accepted. "
  "After acceptance wave number = 2*pi/wavelength, normalised amplitude(s) = coefficient(s)/wavelength and the limiting pixel size follow from the last accepted values; a rejected call changes nothing.",
  ["inputs", "histories"], "all real parameter values, repeated calls", "tests set a few fixed parameter sets", [P],
  [("set_physical_props", P + ":ZernPSF.set_physical_props")], GT, "guards and attributes over symbolic parameters"),
 ("C18", "Kernels are square, odd-sized and centred on the optical axis",
  "For all parameters the estimated or requested kernel size results in a square kernel with odd size in which the central pixel has zero distance from the axis and pixel (i, j) corresponds to distance k*NA*pixel*sqrt((i-c)^2+(j-c)^2) and direction arctan2(i-c, j-c)+pi in all calculation modes. "
  "Requested sizes below 3, fewer than 20 radial or 36 angular integration points raise ValueError, and a rejected request changes nothing.",
  ["inputs", "configurations"], "all sizes, physical parameters and modes", "tests use a few kernels", [P, CP, CN],
  [("size", CP + ":get_kernel_size"), ("setters", P + ":ZernPSF.set_calculation_props"), ("pixel loops", CP + ":get_psf_kernel, get_psf_kernel_zerns; " + CN + ":get_psf_kernel_comp; " + P + ":ZernPSF.get_kernel_parallel")], VF,
  "parity of the estimated size over symbolic parameters; geometry of sizes 3, 4 and 5 in all modes"),
 ("C19", "Kernel calculation uses the set parameters whatever the flags are",
  "Calculating a kernel uses the last set polynomial(s), amplitudes, optical and integration parameters in each mode; the verbosity and warning-suppression flags affect only printed text and warnings, normalisation only divides by the maximum value, and missing numba only falls back to the ordinary calculation (with a warning if acceleration was demanded). "
  "With suppression no warning is emitted.",
  ["configurations"], "all combinations of flags, with and without numba, single and several polynomials, Airy mode", "tests use default flags in one environment", [P, CP, CN],
  [("dispatch", P + ":ZernPSF.calculate_psf_kernel")], VF, "all flag combinations are enumerated with symbolic parameters"),
 ("C20", "Saved PSF restores the complete state",
  "Loading a file saved from any PSF object (single or several polynomials) into any other PSF object restores the kernel, its size, polynomial(s), coefficients, optical and integration parameters, and quantities derived from them, equal to those of the saved object, regardless of the previous content of the loading object. "
  "A file with missing entries or a wrong path causes a warning and no exception.",
  ["inputs", "histories"], "all states of the saved and of the loading object", "tests check the file content partially for one object", [P, CP],
  [("writer", CP + ":save_psf"), ("reader", P + ":ZernPSF.read_json")], VF, "writer and reader are composed over a modelled file system; parameter values are symbolic"),
 ("C21", "Existing files are replaced only with permission",
  "Saving writes exactly one JSON file into the requested existing folder (or the default one), leaves an existing file untouched unless overwriting was requested (then warns), and reports the path of this file. "
  "No other operation of the library writes, deletes or creates files.",
  ["configurations", "histories"], "all combinations of existing file / folder, overwrite flag and path type; all public operations", "tests save once in one folder", [P, CP],
  [("save", CP + ":save_psf, " + P + ":ZernPSF.save_json")], "effect analysis over a modelled file system", "file effects of all traces of save_json; absence of file effects in all other operations"),
 ("C22", "PSF point is the stated quadrature of the diffraction integral",
  "An unnormalised kernel value in every mode is (1/pi^2)*|I|^2, where I is the composite Simpson sum over the angle (weights 1,4,2,...,4,1 times h/3) of trapezoidal radial sums of exp(i*(sum of alpha*Z(p,phi) - r*p*cos(phi-theta)))*p with all nodes used exactly once, and for the Airy mode of the ordinary calculation it is 4*(J1(r)/r)^2 with limit 1 in the centre.",
  ["inputs", "configurations"], "all polynomials, amplitudes, positions; all (even) numbers of angular nodes and numbers of radial nodes", "tests compare modes among each other with tolerance on few kernels", [CP, CN, P],
  [("quadratures", CP + ":radial_integral, get_psf_point_r, get_psf_point_r_parallel, get_psf_point_r_pols"), ("compiled", CN), ("worker pool", P + ":ZernPSF.get_psf_point_r_parallel")], VF,
  "closed sums for several even node numbers with symbolic polynomial values, amplitude and position"),
 ("C23", "Cropping of a kernel keeps it centred and keeps significant pixels",
  "Cropping of a kernel larger than 3 pixels removes the same number of border rows and columns from all sides, as many as possible such that all removed rows and columns contain only values below the given part of the maximum, never removes other pixels, and keeps the kernel size consistent. "
  "A threshold part outside (0, 0.5) raises ValueError.",
  ["inputs"], "all kernels and thresholds", "tests crop one kernel", [P], [("crop", P + ":ZernPSF.crop_kernel")], GT,
  "traces over symbolic kernels of sizes 5 and 7 (representative values) and symbolic threshold"),
 ("C24", "Convolution is normalised by the kernel and keeps image type",
  "Convolving an image gives sum(kernel*image)/sum(kernel) with reflecting borders, optionally scaled so that the maximum equals that of the original image, has shape and data type of the image (rounded to the nearest value for integer types), and an all-zero image stays zero (no NaN). "
  "Scaling of the kernel by a positive factor doesn't change the result.",
  ["inputs"], "all images, kernels and data types", "tests convolve one image", [CP, P], [("convolution", CP + ":convolute_img_psf")], VF,
  "symbolic images / kernels up to 4x4 and 3x3, several data types"),
 ("C25", "Worker pool returns results in parameter order and can be reused",
  "A computation distributed over workers returns for every parameter exactly one result at its position whatever the relative speed of workers, repeated computations with new parameters (also of different number) work the same, and releasing stops all workers so that further requests give None with a warning and a new pool can be created. "
  "Parameter lists which are empty or shorter than the number of workers are rejected.",
  ["schedules", "histories"], "all completion orders of workers, sequences of compute / update / close", "tests run a single schedule", [IM, P],
  [("dispatch loop", IM + ":DispenserManager.compute"), ("worker loop", IM + ":IndiWorker.run"), ("lifecycle", P + ":ZernPSF.initialize_parallel_workers, deinitialize_workers")], "abstract interpretation of manager and workers with enumeration of completion orders (2 workers, up to 5 parameters)",
  "manager and worker code are interpreted together with modelled events and queues"),
 ("C26", "Fitted coefficients belong to their polynomials",
  "Fitting passes to the least-squares solver one column per polynomial, in the provided order, holding values of this polynomial in exactly the coordinates of the corresponding phase values, and returns the solution in the same order. "
  "Repeated or empty sets of polynomials raise ValueError.",
  ["inputs"], "all sets of polynomials, phase vectors and coordinates (both layouts)", "tests fit one or two images with tolerance", [FT, Z], [("fit", FT + ":fit_zernikes"), ("entry points", Z + ":fit_polynomials, fit_polynomials_vectors")], VF,
  "columns are extracted as normal forms; optimality of the solver (numpy) is trusted"),
 ("C27", "Cropping of phases selects the pixels inside the circle",
  "Cropping of a phases image selects exactly the pixels within the requested part of the inscribed circle around the image centre, marks them once in the mask, and returns their phases with radius (relative, within [0, 1]) and counter-clockwise angle in [0, 2*pi) at the same position of the vectors. "
  "Radius parts outside of [0.5, 1], non-2D or too small images and non-arrays are rejected with ValueError.",
  ["inputs"], "all image sizes and radius parts, both border modes", "tests crop a few images and compare sizes", [FT, Z], [("crop", FT + ":crop_phases_img")], VF,
  "symbolic pixel values in images from 3x3 to 9x9, several radius parts; guards over symbolic radius part"),
 ("C28", "Generated phase images are the sum of polynomials on the unit disk",
  "A generated phases image has the requested size, holds inside of the inscribed circle the weighted sum of polynomials in the polar coordinates of the pixel (angle counter-clockwise from the horizontal axis) and zero outside, consistently for the random-amplitudes and provided-amplitudes generators.",
  ["inputs"], "all sizes, amplitudes, polynomials", "tests check the shape only", [Z], [("generation", Z + ":generate_random_phases, generate_phases_image")], VF,
  "symbolic amplitudes on images from 3x3 to 8x7"),
 ("C29", "Every internal call matches the signature of its callee",
  "No reachable call inside the library fails because of missing, surplus or unknown arguments, undefined names or missing attributes, whichever options are chosen (demonstration sections executed only as a script are excluded).",
  ["programs", "configurations"], "all call sites of the library, with and without optional dependencies", "rarely used options (plots, verbose modes, fallback paths) aren't executed by tests", [Z, P, CP, CN, FT, IM, PL, CZ],
  [("call sites", "all modules")], "whole-program call binding: resolution of every call site to its definition and of every name to a binding", "internal calls resolved through imports, classes and inferred receivers; external library calls checked for the modelled ones only"),
 ("C31", "The library works without optional dependencies",
  "Importing and using the library doesn't need numba, joblib or scikit-image: without them all public operations stay available (acceleration requests fall back with a warning, forced compilation returns None with a warning) and never fail with import or name errors.",
  ["configurations"], "all subsets of missing optional packages and public operations", "tests run in one environment", [P, CN, CP, Z], [("guarded imports", P + ", " + CN + ", " + CP)], "abstract interpretation of module loading and operations under each set of missing packages; reachability of optional names",
  "import resolution is modelled per configuration"),
 ("C32", "Plotting uses angles and radii in the right roles",
  "All plotting helpers pass to the polar plot the angle as abscissa and radius as ordinate together with the surface in matching orientation, apply the requested colour map, title and projection, add the colour bar exactly when requested, and return the figure they were given. Kernel and convolution plots show the unchanged kernel, the sample image and the convolution of both.",
  ["configurations"], "all plotting options", "tests can't judge the drawn picture", [PL, Z], [("plots", PL + ":plot_sum_fig, subplot_sum_on_fig, plot_sum_fig_3d, subplot_sum_on_fig_3d")], "call-argument flow to the external plotting calls", "arguments flowing to matplotlib calls are compared with the provided ones"),
 ("C33", "Classical names belong to the right orders",
  "Full and short classical names are available for exactly the same polynomials (all with radial order up to 7), are unique, follow the naming of the sine/cosine pairs, and other polynomials have an empty name.",
  ["inputs"], "all polynomials", "tests check a few names", [PR, Z], [("tables", PR + ":polynomial_names, short_polynomial_names")], VF, "names of all polynomials with n <= 54 extracted through the public method"),
 ("C34", "Comparison and text of polynomials follow their orders",
  "Two polynomials are equal exactly when their orders are equal, whatever route they were constructed by; 'greater' follows the OSA index, so that sorting, maximum, minimum and membership of sequences of polynomials are determined by the OSA order. Comparison with any object of another class raises ValueError. The text of every polynomial contains its name (if it has one), orders and all three indices.",
  ["inputs"], "all polynomials and pairs of them", "tests compare three pairs", [Z], [("operators", Z + ":ZernPol.__eq__, __gt__, __str__")], VF, "operators are interpreted for pairs covering all 1540 polynomials, compared with the order of OSA indices"),
 ("C35", "Warnings about unsuitable parameters and results are issued exactly when needed",
  "A warning is issued when, and only when, its condition holds: an amplitude exceeds 10 wavelengths by absolute value (any of several ones); the kernel size is set below the estimated one, before physical parameters are set, or both numbers of integration points exceed 500 and 400; the maximum of any of four borders of a calculated kernel exceeds 5% of the maximum of the kernel (ordinary and accelerated); an accelerated kernel is larger than 85 pixels; polynomials are generated above order 30 or with not integer order; values (derivatives) of polynomials with radial order above 50 (48) are requested, once per polynomial; a phase image isn't square or has an even size. The flags for suppression of warnings suppress them and nothing else.",
  ["inputs", "configurations"], "all values of symbolic parameters, pixels and settings", "tests check single warnings", [P, CP, CN, Z, FT],
  [("warnings", P + ":set_physical_props, set_calculation_props; " + CP + ":get_psf_kernel, get_psf_kernel_zerns; " + CN + ":get_psf_kernel_comp; " + FT + ":crop_phases_img")], VF, "warning events of all traces are compared with the condition; point functions are replaced by summaries with a symbolic value in one pixel"),
 ("C36", "Malformed arguments of drawing and fitting are rejected before any work",
  "Malformed arguments of plotting functions and methods (not 2D figures, wrong projections, meshes of unequal, missing or wrong dimensions), of plotted sums, of fitting in vectors (orders, empty or unequal vectors, less than the needed number of points), of calculation of several polynomials in parallel, and of the process manager (a not callable function, unusable numbers of workers) raise the documented exception before anything is drawn, solved or started; well-formed ones are accepted.",
  ["inputs"], "all symbolic values of each class of malformed and well-formed arguments", "tests use well-formed arguments", [P, PL, FT, Z, IM],
  [("validation", PL + ":plot_sh_fast, subplot_sh_fast; " + P + ":plot_profile, plot_sum_zernikes_on_fig, fit_polynomials_vectors; " + Z + ":get_kernel_parallel; " + IM + ":DispenserManager")], VF, "exceptions of all traces and events preceding them"),
 ("C37", "Forced compilation is announced, consistent and neutral",
  "force_get_psf_compilation warns when, and only when, the installed numba is older than the recommended one (any version text, never failing because of it); returns objects whose kernels correspond to their parameters, or None with one warning when numba isn't available; class attributes and results of all later calculations are the same as without the call.",
  ["configurations", "histories"], "all classes of version texts, sets of missing packages and settings of class attributes", "tests run under one version", [Z],
  [("force_get_psf_compilation", Z + ":force_get_psf_compilation; " + Z + ":ZernPSF.calculate_psf_kernel")], VF, "version is an environment model; later operations are interpreted after and without the call"),
 ("C38", "Operations have only their documented effects on the process and environment",
  "Importing the package and calling any public function or method has only its documented effects: files are written by save_json only and read by read_json only, figures and interactive mode are touched by plotting functions only, worker processes are started by the parallel computing only, random numbers are drawn by generate_random_phases only (never seeded), progress is printed when verbosity is requested and nothing is printed by evaluation, fitting, cropping, convolution and silent calculation of small kernels, and process-wide settings (warning filters, floating-point error state, seeds, environment variables, working directory, start methods, matplotlib defaults, standard streams) are never changed.",
  ["inputs", "configurations"], "all symbolic inputs of catalogued operations, sets of missing packages, all syntax trees", "tests don't observe effects", [P, Z, CP, CN, FT, PL, IM],
  [("effects", "all modules")], PV, "effect events of traces after the preparation; whole-program pass for calls and assignments changing process-wide settings"),
]

NA = [
 ("C40", "High-order values are numerically accurate",
  "Values of polynomials of radial order up to 54 computed in double precision deviate from the exact ones by less than a stated tolerance for all radii.",
  ["inputs"], "all radii and orders", "tests sample a grid", [CZ, FC], [("recursions", CZ)],
  "rounding-error bounds of cancelling sums need numerical error analysis of runtime values; no syntax-level or dataflow argument bounds them (C05-C07 decide the exact-arithmetic formulas only)"),
 ("C41", "PSF of piston matches the Airy pattern within tolerance",
  "The integrated kernel of the piston polynomial agrees with the analytical Airy pattern within 1e-6 for the default numbers of integration points.",
  ["inputs"], "all optical parameters", "tests compare one kernel", [CP], [("integration", CP + ":get_psf_point_r")],
  "convergence of a quadrature is a quantitative runtime property; the exact integration sums are decided by C22, the remaining approximation error isn't decidable statically"),
 ("C42", "Fitting recovers the generating coefficients",
  "Fitting an image generated from known coefficients recovers them within a tolerance for all sets of linearly independent polynomials.",
  ["inputs"], "all coefficients and image sizes", "tests fit random images", [FT], [("lstsq", FT + ":fit_zernikes")],
  "conditioning of the sampled polynomial matrix and optimality of the LAPACK solver are runtime quantities; the static part (right columns, right order) is claimed as C26"),
 ("C43", "Worker processes always terminate under operating-system faults",
  "If a worker process dies or is stopped by the operating system the manager detects it and doesn't wait forever.",
  ["fault_sequences"], "all crash points of worker processes", "tests never kill workers", [IM], [("polling", IM + ":DispenserManager.compute")],
  "the code has no dead-worker detection (a design limitation, described in DESIGN.md) and liveness under operating-system faults isn't decidable from the source"),
 ("C44", "Precompilation makes later calculations faster",
  "After forced compilation the first accelerated kernel calculation takes no compilation time.",
  ["configurations"], "all environments", "timing isn't tested", [P, CN], [("compilation", P + ":force_get_psf_compilation")],
  "run time and the JIT cache of numba are outside of any static argument"),
]


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(V, "analyzer", "props")) if f[0] == "c" and f[1:3].isdigit()}
    lines, checks, na = [], [], []
    for pid, title, st, over, qt, why, files, mech, tech, note in PROPS:
        lines.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
        if pid in built:
            checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {pid}",
                           "evidence_file": f"evidence/{pid}.json", "technique": "static analysis: " + tech, "level": "other", "level_note": note})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    for pid, title, st, over, qt, why, files, mech, reason in NA:
        lines.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
        na.append({"property": pid, "reason": reason})
    for x in lines:
        assert len(x["title"]) <= 80, x["title"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt -m compileall -q analyzer check.py", "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo/src/zernpy on each run and interprets its syntax tree over abstract values; nothing of the repository is imported or executed. "
                    "check.py <ID> is the entry point; analyzer/props/<id>.py holds the rule, analyzer/spec.py the independent definitions, known-findings.txt the repaired defects."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(lines), "properties,", len(checks), "checks")


main()
