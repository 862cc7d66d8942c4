"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "micropolarray/"
MI, IM, DM, PF, UT, DE = M + "micropol_image.py", M + "image.py", M + "processing/demosaic.py", M + "polarization_functions.py", M + "utils.py", M + "processing/demodulation.py"
RB, SH, CG, CV, LR, NR, CW, CL, ER, CA = [M + "processing/" + x + ".py" for x in ("rebin", "shift", "congrid", "convert", "linear_roi", "nrgf", "chen_wan_liang_calibration", "image_cleaning", "demodulation_errors")] + [M + "cameras.py"]

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na))


GVN = "abstract interpretation of the source into a normal-form value graph (gated GVN)"
NOTE = ("Sound up to the documented models of numpy/astropy/scipy calls; the program is never executed. Reports only positive evidence "
        "(a normal-form difference confirmed by random interpretation of the terms, or a program event); what the abstraction loses is listed as undetermined in the evidence.")

P("C01", "Operations that return a result never modify their inputs",
  "Every operation that returns a new image, array or value (copies, arithmetic operators, rebinning, rotating, shifting, resampling, demodulating, demosaicing of arrays, filters, polarization functions, saving, plotting) leaves the images, arrays, lists, dictionaries, headers and demodulators it was given, including the object it is called on, with exactly the contents they had before. Only the operations documented to work in place (demosaic, dark subtraction, flat and IFOV correction, occulter masking, demodulator rebinning/rotation/flip) change the object they are called on, and they change only that object.",
  "inputs programs histories", "every public operation, every image state (plain, custom angles, demosaiced, demodulated), all data",
  "the tests check result values for a few arrays and never re-inspect the operands afterwards",
  [MI, IM, PF, UT, DE, DM], [dict(name="copy construction and per-operation copies", where=MI)],
  GVN + " + heap effect analysis of every public operation", NOTE)
P("C02", "Images never share mutable state with what they were made from",
  "An image made from another image, from an array, from an angle dictionary, or returned by an operation owns its data, header, angles, Stokes components and demosaiced images: changing any of them afterwards, in place or through its operations, is never visible through the source, the caller's arrays and dictionaries, or another image. The same holds in the other direction.",
  "programs histories inputs", "every constructor and image-returning operation, every image state",
  "aliasing only shows after a later in-place change, a sequence the tests do not exercise",
  [MI, IM], [dict(name="constructors and import of parameters", where=MI)],
  GVN + " + points-to/reachability on the abstract heap", NOTE)
P("C03", "Polarization parameters always describe the current data of the image",
  "After any operation on an image (arithmetic with images, numbers and arrays, dark and flat correction, IFOV correction, rebinning, shifting, rotating, resampling, demosaicing, hot pixel cleaning), the intensity, Q, U, pB, AoLP and DoLP it reports are those computed from the pixel data it now holds (from its demosaiced images if it was demosaiced), never those of its data before the operation. Applying the operation and then reading the parameters gives the same as building a fresh image with the resulting data.",
  "inputs histories", "every data-changing operation on every image state (plain, custom angles, demosaiced)",
  "staleness depends on the combination of operation and image state; the tests compare parameters for a few constant images",
  [MI], [dict(name="recomputation of Stokes after data changes", where=MI)],
  GVN + ", comparison of the stored Stokes terms with their definition on the current data", NOTE)
P("C04", "Derived images keep the angle convention and header of their source",
  "An image obtained from another one (construction from an image, arithmetic, rebinning, shifting, rotating, resampling, hot pixel cleaning, demodulation) keeps the micropolarizer angle assignment of its source and the header of its source, also when the source uses non-default angles; changing the default angles only affects images created afterwards.",
  "inputs histories configurations", "every derivation from images with default, custom and permuted angle assignments and non-empty headers",
  "the tests use default angles and empty headers almost everywhere",
  [MI, IM], [dict(name="import of image parameters", where=MI)], GVN + " over the abstract heap of derived images", NOTE)
P("C05", "Stokes, pB, DoLP, AoLP, demodulation and Malus formulas",
  "For every image and angle assignment I is half the sum of the four orientations, Q is I(0) minus I(90) and U is I(45) minus I(-45); pB is sqrt(Q^2+U^2), DoLP is pB/I (0 where I is 0) and AoLP is half the quadrant-aware angle of the vector (Q, U), in radians. Demodulation multiplies, pixel by pixel, the 3x4 demodulation matrix with the four pixel values of the superpixel, in pixel-position order; the Malus law is throughput/2 (1 + efficiency cos 2(angle-phase)).",
  "inputs configurations", "all data, all angle assignments, all demodulation tensors",
  "formulas are sampled at a handful of uniform or simulated images, with default angles",
  [MI, PF, DE], [dict(name="theoretical Stokes vector, demodulation product", where=MI)],
  GVN + ", normal forms compared with reference formulas", NOTE)
P("C06", "The four pixel families keep their position in every superpixel",
  "The pixel family at row k//2 and column k%2 of every superpixel is family k everywhere: splitting and merging are exact inverses, demosaicing spreads (mean: a quarter of the superpixel's sample; adjacent, spline: the sample itself) family k into image k only, single-orientation images select the family the image's angle assignment names, IFOV correction and hot-pixel cleaning never mix families.",
  "inputs", "every even image size, all contents, every angle assignment",
  "tests use one or two sizes and values for which families are interchangeable",
  [DM, MI, CW], [dict(name="split/merge/demosaic kernels", where=DM)],
  GVN + ", kernels summarised to closed forms and compared with reference definitions", NOTE)
P("C07", "Rebinning sums same-family samples over exact blocks",
  "Binning by n returns, for plain images, the sum of each n by n block, and for micropolarizer images the per-family sum of n by n same-family samples, so that total signal per family is conserved over the region used. Sizes not divisible by the bin size (or twice the bin size for micropolarizer data) are trimmed at the end of the rows and columns to the largest usable size, and the output has exactly trimmed size / n rows and columns.",
  "inputs configurations", "every image size, every binning factor, all contents",
  "only one or two divisible sizes and factors are tested", [RB, IM, MI, DE], [dict(name="trimming and rebin kernels", where=RB)],
  GVN + ", loop summaries compared with block-sum definitions for symbolic sizes", NOTE)
P("C08", "Compiled kernels never access memory outside their arrays",
  "For every input that the public operations accept (any size, odd or even, any bin size, any shift, any selection) the compiled loops read and write only existing elements; inputs that would need an element that does not exist are rejected with an exception.",
  "inputs configurations", "every access in every compiled kernel reached from a public operation, all sizes and parameters",
  "the compiled code has no bounds checks, so an out-of-range access corrupts or reads garbage silently",
  [DM, RB, SH, CW, CG], [dict(name="loop bounds and size guards", where=DM)],
  'array-bounds analysis of the compiled loops: symbolic index/extent summaries of every access under its path condition, decided for all small sizes, parities, bin sizes and shifts', NOTE)
P("C09", "Shifting moves every sample by the exact offset and fills the rest",
  "Shifting by (y, x) puts the sample of row r and column c at row r+y and column c+x for every sign of y and x; samples moved outside are dropped and uncovered positions hold the fill value (0 by default). For micropolarizer images each pixel family is shifted by that many superpixels so that no family mixes with another, and shifting by zero returns the same data.",
  "inputs", "all sizes, all signed offsets, all fill values", "the tests shift two images by a single pair of values",
  [SH, MI, IM], [dict(name="slice-based shifting", where=SH)], GVN + ", compared with the index-translation definition", NOTE)
P("C10", "No result depends on uninitialised memory",
  "Every element of every array an operation returns, stores in an image or writes to a file is computed from the inputs: no element is left as allocated but never assigned, also where a condition, mask or division by zero skips the computation.",
  "inputs configurations", "every allocation without initial value, all sizes, masks and zero patterns",
  "uninitialised memory is often zero in tests, so results look right", [MI, DM, RB, SH, CV, DE, CW], [dict(name="np.empty / where= allocations", where=MI)],
  'non-interference analysis: definite-assignment of allocated arrays, by substituting different fill values in the symbolic results of every operation', NOTE)
P("C11", "Invalid output names are rejected before anything is written",
  "Saving to a name without the required extension raises an error before any directory or file is created, and an unknown parameter name is refused without writing.",
  "inputs fault_sequences", "every saving operation, every invalid name",
  "tests only save to valid names", [IM, MI, UT], [dict(name="name checks in save methods", where=MI)],
  "effect-before-rejection analysis over the abstract event trace of every path", NOTE)
P("C12", "Saved files hold the requested quantity under distinct, right names",
  "Every saving operation writes exactly the quantity named in its file name (data, one orientation, one polarization parameter, one demosaiced image), all four or all parameters when asked for a set, each to its own file in the directory of the given name. Limits given for the saved values clip the written values, including limits that are 0, and never the image in memory.",
  "inputs configurations", "every saving operation, all images, all limits", "tests save and reload one image",
  [IM, MI, UT], [dict(name="save methods", where=MI)],
  GVN + " over the file-effect summary (path, data term, header cards) of every saving operation", NOTE)
P("C13", "Raw conversion writes its result next to the source and deletes it last",
  "Converting raw files writes the decoded frame (or the average or sum of the frames) to a FITS file named after the source in the same directory or after the requested name; a source file is deleted only if the caller asked for it and only after the result has been written. A file that is not a raw file is rejected without writing.",
  "inputs fault_sequences crash_points", "all file names and directories, every failure point", "tests cover one fixed file name",
  [CV], [dict(name="conversion functions", where=CV)],
  "effect-order analysis (write before remove) with an injected failure at every file effect, plus term equality of the written frame", NOTE)
P("C14", "Raw frames decode to exactly the packed samples",
  "A 12-bit packed raw file decodes to exactly one sample per 12 bits, in file order, also when bytes are zero, and an average or sum of raw frames combines exactly the named frames.",
  "inputs", "all byte contents", "a single all-purpose file is tested", [CV], [dict(name="decoder", where=CV)],
  "bit-provenance dataflow analysis of the decoder, term equality and integer-width analysis of the frame sums", NOTE)
P("C15", "Files and worker pools are always closed",
  "Every file and worker pool opened by the package is closed on every path, including those that raise.",
  "fault_sequences programs", "every open or pool creation in the package", "leaks show only under errors or many calls",
  [CV, DE, IM], [dict(name="with statements", where=CV)],
  "resource typestate over the syntax tree with library-call resolution", NOTE)
P("C16", "Calibration output and demodulation input agree",
  "Each matrix element, flag, phase, transmittance, efficiency and covariance computed by the calibration is written under the name from which the demodulator reads the same element, with the same superpixel grid, so that a demodulator loaded from a calibration folder uses element (i,j) exactly where the calibration computed (i,j).",
  "inputs configurations", "all elements, sizes and processor grids", "the round trip is tested for a uniform sensor, where exchanged pixels look the same",
  [DE], [dict(name="writer and reader of the tensor", where=DE)],
  GVN + ": calibration executed abstractly with every sample, fitted parameter and covariance a distinct symbol; every written file is matched element by element with the term computed for it, then read back through the demodulator", NOTE)
P("C17", "Incomplete or inconsistent calibration inputs are rejected",
  "Calibration and demodulation refuse inputs they cannot use: a folder without or with missing matrices or with two files for one matrix element, orientation lists that do not match the file list, missing required orientations, and unsupported constructor inputs raise an error instead of producing a result from default or zero values.",
  "inputs fault_sequences", "every combination of missing inputs", "tests use complete calibrations only",
  [DE, CW, IM, MI], [dict(name="input validation", where=DE)],
  GVN + " over the enumerated ways an input can be incomplete (removed matrices, lists, orientations, grids, constructor types): every path must end in the required exception, none may return", NOTE)
P("C18", "Calibration result does not depend on the parallel decomposition",
  "Computing the demodulation tensor with any admissible grid of worker processes gives the same files as computing it with a single one, whatever the order in which the workers finish; grids that do not divide the image are rejected.",
  "schedules configurations", "all grids, all completion orders", "one grid per test", [DE], [dict(name="chunking and merging", where=DE)],
  GVN + ": the same symbolic calibration summarised for every admissible worker grid (process boundaries copy values, unordered completion delivered reversed) and all written terms compared", NOTE)
P("C19", "Fit flags are truthful and unusable fits use the theoretical matrix",
  "A superpixel is flagged as fitted only if its demodulation matrix is the pseudo-inverse of the modulation matrix of its fitted parameters; everywhere else (failed fit, occulter, unphysical values) the flag is 0 and demodulation yields the theoretical Stokes vector of the data there. Where a superpixel was not fitted (occulter, dead pixel, failed fit), the reported phases are the assumed orientations.",
  "inputs fault_sequences", "all superpixels, fit outcomes and masks", "tests use data for which every fit succeeds", [DE, MI], [dict(name="flags and fallback", where=DE)],
  GVN + " with an enumerated outcome per superpixel (fitted, failed, dead, unphysical, occulted): flag, matrix, parameters and demodulated Stokes terms compared with the required case", NOTE)
P("C20", "Angles are in degrees at the interface and radians inside trigonometry",
  "Every angle entering a sine, cosine or tangent is in radians and every angle documented in degrees is in degrees: degree inputs are converted exactly once on every path.",
  "programs configurations", "every trigonometric call and angle-valued interface", "a missing conversion is invisible at 0 degrees", [DE, PF, NR, LR, MI], [dict(name="np.deg2rad / np.rad2deg conversions", where=DE)],
  GVN + ": unit (degree/radian) of every term reaching a trigonometric function decided from its normal form, per call site; degree outputs compared with converted radian terms", NOTE)
P("C21", "Every documented option runs: no undefined names or attributes",
  "No public operation, with any combination of its documented options, fails because a name, attribute, module member, method or local variable it uses does not exist or is not set on that path, or because it calls something with the wrong arguments.",
  "programs configurations", "every path of every public operation", "tests run a fraction of the options",
  [MI, IM, DE, UT, NR, CL, CW, CA], [dict(name="whole package", where=M)],
  GVN + " events for unresolved names/attributes/signatures on every path, plus whole-source scope resolution", NOTE)
P("C22", "Unknown option values are rejected",
  "An option value outside the documented set (demosaicing mode, resampling kind, raw merge mode, finder method, polarization parameter name, unsupported initializer or operand type) raises an error instead of silently selecting some behaviour or returning nothing.",
  "inputs configurations", "every enumerated option of every public operation", "tests use valid values", [MI, IM, DM, CG, CV, NR], [dict(name="option dispatch", where=MI)],
  GVN + ", reachability of a normal return with an option value outside the documented set", NOTE)
P("C23", "Failures surface to the caller",
  "A failing read, write, worker or fit is reported to the caller as an exception (or, for a single-superpixel fit, recorded in the fit flag): no operation swallows it and returns a result, and no operation ends the calling process.",
  "fault_sequences", "every exception handler and exit in the package", "faults are not injected by the tests", [DE, MI, NR, CV], [dict(name="exception handlers", where=DE)],
  "exception-flow analysis over the abstract event trace and the syntax tree (handlers, finally, process exits)", NOTE)
P("C24", "Results depend only on arguments, not on earlier calls",
  "Calling an operation changes no package-level state except the default angles set through their setter, and gives the same result whatever was called before; nothing a caller does to a returned object changes later results.",
  "histories", "all call sequences", "tests call each operation once", [MI, NR, DE], [dict(name="module state and caches", where=MI)],
  GVN + " + effect and escape analysis of package-level state", NOTE)
P("C25", "Loading several files sums or averages exactly those files and says so in the header",
  "An image loaded from a list of files holds the sum of their data, or their mean when averaging is requested, each file counted exactly once with equal weight; a single file name, also within a list, gives that file's data. Its header is that of the first file, completed, for several files, with their number (SUMOF) and the earliest and latest observation date among them (STRT-OBS, END-OBS).",
  "inputs", "all file counts and names", "tests load one file or identical copies", [IM, CV], [dict(name="accumulation over files", where=IM)],
  GVN + " over the accumulation summary, header cards folded for chosen dates, plus integer-width analysis", NOTE)
P("C26", "Region selections contain exactly the pixels of the requested ring sector",
  "A polar region selects exactly the pixels with distance from the given centre in (rho_min, rho_max] and polar angle in [theta_min, theta_max), the centre being a (row, column) of the image and included when the region starts from radius 0; with superpixels selected, whole 2x2 superpixels, by the same rule on the grid of superpixels with centre and radii halved to integers. Excluded pixels get the fill value, the selected ones keep theirs, and the boolean form is true exactly on the selected ones. Occulter masks keep exactly the pixels beyond the occulter radius plus the over-occultation, in the data and in each of the Stokes components. Ring-wise filtering normalises every pixel by mean and standard deviation of its own ring only.",
  "inputs", "all sizes, centres, radii and angle ranges", "one centred case is tested", [NR, MI, CA], [dict(name="polar maps", where=NR)],
  GVN + "; region and filter summaries compared with the definition of a ring sector, for symbolic and for enumerated geometries with symbolic pixel values", NOTE)
P("C27", "Error propagation is first order in every component",
  "Uncertainties of Stokes components, pB, DoLP and AoLP are the first-order propagation of the pixel uncertainties (independent pixels, exact matrix) through the demodulation and the corresponding formulas, using the same element ordering, and are defined wherever the polarized signal is not 0.",
  "inputs", "all pixels and tensors", "no tests", [ER], [dict(name="propagation formulas", where=ER)],
  GVN + "; summaries of the error functions compared with the first-order propagation formulas", NOTE)
P("C28", "Image arithmetic, dark subtraction and flat correction are pixelwise exact",
  "Adding, subtracting, multiplying or dividing an image by an image, array or number applies that operation to each pixel with the operands in the written order; dark subtraction subtracts the dark pixelwise and never leaves negative values; flat correction divides by the flat normalised to its mean with 0 where the flat is 0.",
  "inputs", "all operands and pixel values", "operators are tested with constant images", [MI, IM], [dict(name="operators and corrections", where=MI)],
  GVN + ", operator summaries compared with pixelwise definitions", NOTE)
P("C29", "Resampling reproduces the linear interpolation grid",
  "Resampling to a new size returns exactly that size, maps the first and last samples of each axis onto the first and last of the result, interpolates linearly between neighbours in between and never swaps the axes; micropolarizer images are resampled per family. The Stokes components of a demodulated image, which do not follow from its data, are resampled with it: to the new size when it was demodulated with demosaicing, to half of it otherwise.",
  "inputs configurations", "all sizes and contents", "one square case is tested", [CG, MI], [dict(name="congrid", where=CG)],
  GVN + ", interpolation expression compared with the bilinear definition", NOTE)
P("C30", "Line selections run exactly between the requested points",
  "A linear selection starts at the requested start point and ends at the requested end point in every direction, visits adjacent pixels only, stays within a pixel of the straight line, and returns the data values at exactly the coordinates it reports; a selection along a polar angle stays inside of the image and runs from the minimum radius to the maximum radius or the border of the image.",
  "inputs", "all start and end points in all octants, all data", "one direction is tested", [LR], [dict(name="DDA / Bresenham", where=LR)],
  GVN + "; unrolled line walks over a grid of directions with symbolic start points and data, in exact and in double-precision constant folding", NOTE)
P("C31", "Each Malus curve is fitted to its own pixel's samples",
  "In a calibration every pixel's Malus fit receives that pixel's samples only: each (binned, dark-subtracted, flat-corrected) sample divided by the normalising signal of its own pixel and frame, paired with the orientation of the frame it comes from, with its Poisson error, and with the start values and bounds of that pixel's own micropolarizer, in whatever order the files are listed. The reported reduced chi-square is that of this fit.",
  "inputs configurations", "all samples, listing orders, sizes, binnings, normalisations and corrections", "a uniform simulated sensor listed in sorted order makes exchanged samples, orientations or pixels indistinguishable",
  [DE], [dict(name="curve_fit call and its operands", where=DE)],
  GVN + ": every sample of every frame is a distinct symbol; the operands of each curve_fit call are matched with the samples they must contain", NOTE)
P("C32", "Integer frames are computed without wrap-around or truncation",
  "Camera frames of 16 bit integers (arrays and FITS data) are valid input of every operation: no sum, difference or product of frames is computed in their integer arithmetic, where it would wrap around, and no result with a fractional part is stored into an integer array, where it would be truncated or refused; every result is that of the same frames given as floating point numbers.",
  "inputs", "all operations and option values, all integer frames", "tests use floating point or small constant frames, which neither wrap around nor have fractions",
  [MI, IM, DE, CW, NR], [dict(name="array element types", where=MI)],
  "element type inference (dtype dataflow with numpy's promotion rules) along every abstract path of every public operation for integer frames", NOTE)
P("C33", "Chen-Wan-Liang calibration and correction follow their definition",
  "The Chen-Wan-Liang calibration writes, for every superpixel, C_ij = the mean over the frames of W_ideal pinv(W) and d_ij = the mean over the frames of the offset column, where [W d] = P pinv(S), P are the four (dark subtracted, not below zero, flat corrected) samples of the superpixel and S = (P_0 + P_90, P_0 - P_90, P_45 - P_-45, 1) takes each orientation from the position given by the predicted phases; C is the same on the four pixels of the superpixel, the files are C00.fits ... C33.fits and d_ij.fits. The correction returns, from the third row and column on, the mean of C (P - d) over the four nearest pixels of the same family, and 0 before; odd sizes are rejected.",
  "inputs configurations", "all samples, darks and flats, sizes, frame orders and predicted phases", "the calibration is not tested at all",
  [CW], [dict(name="calculate_chen_wan_lian_calibration / chen_wan_liang_calibration", where=CW)],
  GVN + ": written files as terms over one symbol per pixel and frame (pseudo-inverses uninterpreted), compared with the definition", NOTE)
P("C34", "Figures show each quantity under its own title",
  "In every figure each panel displays exactly the array of the quantity named by its title (image data, Stokes I, Q, U, pB, AoLP, DoLP, the pixels of one orientation, the demosaiced image of one orientation), for every angle convention, demosaiced or demodulated; its colour bar belongs to the same panel and carries the unit of that quantity; averages printed in a title are those of the displayed array; limits given by the caller, zero included, are used; all announced panels are present; histograms are of the image data and of the pixel family they are labelled with.",
  "inputs configurations", "all images, angle conventions and limits", "figures are not looked at by tests",
  [MI, IM], [dict(name="show methods", where=MI), dict(name="PolParam properties", where=MI)],
  GVN + ": drawing calls recorded per panel along every abstract path, arrays and titles compared as terms", NOTE)
P("C35", "Helper functions compute their documented formulas",
  "mean/median_plus/minus_std return mean (median) plus/minus n standard (median absolute) deviations; fix_data clips to the given limits and returns the data unchanged without limits; sigma_DN is the Poisson error sqrt(g x)/g for the gain g = 6.93; get_Bsun_units is 0.28 x 1.083e-5 x texp_diffuser / (texp_image x diffuser signal); reject_outliers keeps exactly the values within m median deviations of the median (all of them if the deviation is 0); align_keywords_and_data rotates by 90 degrees clockwise and flips vertically each pixel family, and sets sizes, the plate scale times the binning, the position of the sun mirrored accordingly and the observation date in a copy of the header; clean_hot_pixels replaces exactly the flagged pixels by the median of their own family; get_hot_pixels flags exactly the pixels whose contrast to that median exceeds the threshold.",
  "inputs", "all data, limits, factors, headers and flag maps", "none of them is tested",
  [UT, CL, MI], [dict(name="statistics, clipping, alignment", where=UT), dict(name="hot pixels and outliers", where=CL)],
  GVN + ", summaries compared with the documented formulas; flag maps by substitution", NOTE)
P("C36", "The NRGF filter normalises every ring with its own mean and deviation",
  "nrgf() with a centre (truncated to integers), a starting radius r0 and a step splits the frame into the rings r < distance <= r + step for r = r0, r0 + step, ... below the integer part of the greatest distance. A pixel of a ring whose polar angle lies in output_phi holds (value - mean)/deviation, mean and deviation taken over the pixels of the same ring whose polar angle lies in phi_to_mean, and 0 if that deviation is 0 or there is no such pixel; every other pixel is 0; the size does not change. Only the omitted ones of centre and radius come from the occulter finder, given ones (zero included) are used.",
  "inputs configurations", "all frames, centres, radii, steps and angular ranges", "the filter is not tested",
  [NR], [dict(name="nrgf", where=NR)],
  GVN + ": frames of distinct symbols, every output pixel compared with the definition over the symbols of its ring", NOTE)
P("C37", "Occulter finders use the four outward profiles and report edge midpoints",
  "find_occulter_position() works on the row and the column through the image centre, split into four profiles running outwards. 'sigmoid': each profile is fitted against the distances 0, 1, ... by a curve symmetric about its fourth parameter, which is the edge. 'algo': the edge is the first position after the fifth exceeding threshold times the mean of the nearer values; ValueError if a profile has none. The result is [y, x, radius]: integer parts of the middle of opposite edges and of the mean half distance. find_occulter_hough() searches radii between minr and maxr (default 1 and the longest side) and returns y, x and radius of the circle found.",
  "inputs configurations", "all frames, sizes, thresholds and fitted edges", "the finders are not tested",
  [NR], [dict(name="find_occulter_position / find_occulter_hough", where=NR)],
  GVN + ": fit inputs and results as terms over one symbol per pixel; first-crossing rule compared with a reference; circle search arguments by term inspection", NOTE)
P("C38", "Rotations and flips act alike on every part of the object",
  "Demodulator.rot90(k) and flip(axis) apply the same rotation or flip to all twelve matrix elements and, if present, to the fit flags, and update the size. Image.rotate(angle) returns an image whose four pixel families, three Stokes components and (if demosaiced) four demosaiced images are those of the image, each rotated by the angle.",
  "inputs histories", "all matrices, flags, images, angles, numbers of turns, and sequences of operations", "rotations and flips are not tested",
  [DM, MI], [dict(name="Demodulator.rot90/flip", where=DM), dict(name="MicropolImage.rotate", where=MI)],
  GVN + ", every part compared with the rotated or flipped part", NOTE)
P("C39", "Normalisation level and automatic threshold follow their definitions",
  "get_malus_normalization() fits a curve symmetric about its centre to the bins (centres and relative counts) around the highest bin of the histogram of half the sum of the frames, wherever this bin lies, and returns the fitted centre plus four times the fitted width; the calibration estimates its normalising signal in the same way from the frames at 0, 45, 90 and -45 (or 135) degrees when none is given, and divides every sample by it. auto_threshold() returns, between the least value plus one and the greatest value of the median filtered data, a threshold that splits it into two classes with the least total variance within the classes among evenly spaced candidates.",
  "inputs", "all frames, histogram peaks and data", "neither is tested",
  [UT, CL], [dict(name="get_malus_normalization", where=UT), dict(name="auto_threshold", where=CL)],
  GVN + ": histogram, filter and fit replaced by symbols or chosen outcomes; fitted bins, curve and result compared as terms", NOTE)
P("C40", "Fitted parameters converge to the sensor's true parameters",
  "For calibration data following the Malus law within noise, the fitted throughput, efficiency and orientation of every pixel approach the true ones.",
  "inputs", "all noise levels and sensors", "simulation at one noise level", [DE], [dict(name="curve_fit", where=DE)],
  na="accuracy of an iterative numerical optimiser on runtime data: no static argument bounds it; the surrounding use of the fit is covered by C16-C19")
P("C41", "The occulter finder locates the occulter within its error",
  "The automatic occulter finders return the centre and radius of the occulter within a pixel for any coronagraphic frame.",
  "inputs", "all frames", "one synthetic frame", [NR], [dict(name="Hough / edge finder", where=NR)],
  na="depends on image content through third-party edge detection and Hough voting; only its option handling and side effects are decidable from source (C21-C24)")
P("C42", "Saving to FITS and loading again reproduces the pixel values",
  "Data saved to FITS and loaded again has identical values and size.",
  "inputs", "all data types and sizes", "one image is tested", [IM], [dict(name="astropy.io.fits", where=IM)],
  na="byte-level encoding, type conversion and reading happen in astropy; what the package hands over and takes back is covered by C12 and C25")


def build(claimed):
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in claimed:
            checks.append({"property": p["id"], "quick_cmd": "python3-vt mpa/main.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3-vt mpa/main.py %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"] or NOTE})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check has been built for it yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt mpa/main.py --selfcheck", "checks": checks, "not_applicable": na,
                   "notes": "Static analysis only: mpa/ parses /repo's current source (MPA_REPO overrides the path) and never runs it. See DESIGN.md."}, f, indent=1)
    print("claimed", [c["property"] for c in checks])


if __name__ == "__main__":
    import sys
    sys.path.insert(0, V)
    import re
    src = open(os.path.join(V, "mpa", "main.py")).read()
    build(set(re.findall(r'"(C\d\d)": ', src)))
