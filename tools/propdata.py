TECH_EQ = ("static value-graph equivalence: gated-SSA dataflow summaries of the public entry points, with all repository "
           "callees inlined, compared with written requirements by global value numbering and random interpretation of the graphs")
NOTE_EQ = ("static only, nothing of the repository is run; numpy/scipy calls are uninterpreted operators with a small algebra; "
           "alarms only on localised differences, incomparable restructurings are listed as undecided in the evidence")
NOTES = ("every check parses /repo's current working tree; no build product is used. A construct that cannot be compared is "
         "reported as undecided in the evidence, never as a violation.")
P = []


def p(id, title, statement, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, **kw))


p("C03", "Multi-tau one-time correlation is the normalised intensity autocorrelation",
  "For every frame stream, label mask and choice of levels and (even) buffer sizes, the streaming one-time correlator produces at each lag the running mean of the product of ROI-mean intensities divided by the product of the symmetrically normalised past and future means, excluding bad frames, with the documented multi-tau lag schedule. The batch wrapper gives exactly the last streamed result, and an odd number of buffers is rejected.",
  ["inputs", "histories"], "all frame histories, label masks, level and buffer counts, sets of bad frames",
  "The tests run a handful of random stacks with two level/buffer settings and compare lags or a constant image; the interplay of buffers, levels and bad frames is sampled at a few points.",
  ["skbeam/core/correlation.py", "skbeam/core/utils.py"],
  [("streaming update of every level and finalisation", "skbeam/core/correlation.py:lazy_one_time,_one_time_process"),
   ("initial state and label extraction", "skbeam/core/correlation.py:_init_state_one_time"),
   ("lag schedule", "skbeam/core/utils.py:multi_tau_lags")])

p("C04", "Two-time correlation and its time average",
  "For every frame stream and label mask the two-time correlator fills, for each ROI, the symmetric matrix whose entry at two frame times is the mean product of the pixel intensities divided by the product of their means at the two times, using the same multi-tau buffering for every level, and the derived one-time curve is the mean along each diagonal. The batch wrapper gives exactly the last streamed result.",
  ["inputs", "histories"], "all frame histories, label masks, level and buffer counts",
  "Tests compare one or two small stacks with the one-time result; symmetric completion, masked regions and level handling are checked for a single configuration.",
  ["skbeam/core/correlation.py"],
  [("streaming update", "skbeam/core/correlation.py:lazy_two_time,_two_time_process"),
   ("symmetric completion", "skbeam/core/correlation.py:two_time_state_to_results"),
   ("diagonal average", "skbeam/core/correlation.py:one_time_from_two_time")])

p("C05", "ROI label masks mark exactly the requested pixels",
  "Every ROI builder (rectangles, rings, segmented rings, boxes, bars, lines, and the marks of automatically found rings) labels exactly the pixels of the given image shape that lie in the requested region, with labels counted from one in the requested order and zero elsewhere; edge conventions are half open as documented. Inconsistent edges, spacings, segment counts or shapes are rejected.",
  ["inputs"], "all shapes, centres, edges, spacings, segment counts and value grids",
  "Tests draw a few rings and boxes on one image size; boundary pixels, non-uniform spacing and non-square shapes are not enumerated.",
  ["skbeam/core/roi.py"],
  [("label assignment", "skbeam/core/roi.py:_make_roi,rings,segmented_rings,rectangles,box,bar,lines"),
   ("edge computation", "skbeam/core/roi.py:ring_edges,segmented_rings")])

p("C06", "ROI statistics use exactly the labelled pixels",
  "For every image stack, label mask and label selection, per-ROI pixel values, maxima, mean intensities, circular averages, kymographs and extracted pixel lists are computed from exactly the pixels carrying that label, in the order of the requested labels, one row per frame. Shape mismatches between mask and image are rejected.",
  ["inputs"], "all image stacks, label masks and index selections",
  "Tests use synthetic images constant per label, so that using the wrong pixels, order or frame mostly goes unnoticed.",
  ["skbeam/core/roi.py"],
  [("label statistics", "skbeam/core/roi.py:mean_intensity,roi_max_counts,roi_pixel_values,combine_mean_intensity,extract_label_indices,kymograph,circular_average")])

p("C10", "Gridding and binning front ends place every point in its bin",
  "The reciprocal-space gridder front end uses the data extent padded just past its maximum where no bound is given and the caller's bounds otherwise, drops masked points, and returns mean, occupancy, standard error and bounds; one-dimensional binning returns edges, weighted sums and counts, and image binning returns the per-bin statistic at bin centres of the unmasked pixels.",
  ["inputs", "configurations"], "all point clouds, masks and combinations of given and omitted bounds",
  "Tests grid one regular lattice with all bounds given or all omitted.",
  ["skbeam/core/utils.py"],
  [("bounds, masking and normalisation", "skbeam/core/utils.py:grid3d"), ("1-D binning", "skbeam/core/utils.py:bin_1D,bin_grid")])

p("C13", "Unit conversions, pixel grids and bin edges follow their formulas",
  "The conversions between scattering angle, momentum transfer, d-spacing and detector radius, the radius and angle grids, the bin-edge, bin-centre and geometric-series builders and the subtraction of dark references return the documented closed formula for every admissible argument, including anisotropic pixel sizes and off-centre origins. Inconsistent arguments are rejected.",
  ["inputs"], "all numeric arguments, shapes, centres and pixel sizes",
  "Tests check round trips or a few numeric points, which leaves compensating sign, factor and axis errors undetected.",
  ["skbeam/core/utils.py"],
  [("closed formulas", "skbeam/core/utils.py:q_to_d,d_to_q,twotheta_to_q,q_to_twotheta,radius_to_twotheta,twotheta_to_radius,radial_grid,angle_grid,bin_edges,bin_edges_to_centers")])

p("C11", "Binned statistics assign every sample to its bin and reduce per bin",
  "For every sample array, bin specification, range and mask, the one-, two- and N-dimensional, radial and radius-angle binned statistics apply the requested statistic to exactly the unmasked values whose coordinates fall in each bin (last edge included), in the documented output shape, with the bin centres and edges they report. Changing the statistic between calls, or giving one per call, affects only what is computed, not the binning.",
  ["inputs", "histories"], "all samples, bins, ranges, masks, statistics and sequences of calls",
  "Tests compare with scipy on a few random samples and a single geometry; masks, outliers on edges and repeated calls with other statistics are sampled once.",
  ["skbeam/core/accumulators/binned_statistic.py"],
  [("bin assignment and reduction", "skbeam/core/accumulators/binned_statistic.py:BinnedStatisticDD"),
   ("coordinate grids", "skbeam/core/accumulators/binned_statistic.py:RadialBinnedStatistic,RPhiBinnedStatistic")])

p("C12", "Detector pixels map to reciprocal space through the documented geometry",
  "For every set of goniometer angles, detector geometry, energy and orientation matrix, the conversion passes those quantities to the geometry kernel in its units and order and returns one reciprocal-space vector per pixel and image; calibrated pixels map to the modulus of momentum transfer, hkl vectors to their norm, and grazing-incidence pixels to the documented angles and components. An unknown frame mode is rejected.",
  ["inputs", "configurations"], "all angles, geometries, energies, matrices and frame modes",
  "Tests convert one image set with a trivial matrix and one geometry.",
  ["skbeam/core/recip.py"],
  [("front end of the conversion", "skbeam/core/recip.py:process_to_q"), ("grazing incidence geometry", "skbeam/core/recip.py:gisaxs")])

p("C14", "Peak line shapes and count distributions equal their defining formulas",
  "For every position array and parameter value, the Gaussian, Lorentzian, squared Lorentzian, Voigt, pseudo-Voigt, step, tail, elastic and Compton peak functions return their documented closed form, with the area parameter multiplying a unit profile and every width and ratio parameter entering where documented. The gamma, negative binomial and Poisson count distributions return their probability formula.",
  ["inputs"], "all positions and parameter values",
  "Tests evaluate one parameter set per shape against values recorded earlier or against one closed form.",
  ["skbeam/core/fitting/lineshapes.py"],
  [("closed formulas", "skbeam/core/fitting/lineshapes.py:gaussian,lorentzian,voigt,pvoigt,elastic,compton,gamma_dist,nbinom_dist,poisson_dist")])

p("C17", "Spectrum background follows the statistics-sensitive peak-clipping recipe",
  "For every spectrum, calibration polynomial and option, the background is obtained by the documented sequence: optional smoothing on a log-log scale, energy dependent window widths, the given number of clipping passes at full width, then passes with the width shrinking to the threshold, and the inverse transform.",
  ["inputs", "configurations"], "all spectra, calibrations, spectral ranges and option values",
  "Tests check one synthetic spectrum at three points.",
  ["skbeam/core/fitting/background.py"],
  [("clipping recipe", "skbeam/core/fitting/background.py:snip_method")])

p("C18", "Powder pattern files hold and return exactly the pattern",
  "Writing a pattern produces, for every data set, header choice, error array and file mode, the documented text layout with all points in order at the documented position; reading a GSAS file of any of the three layouts returns the angles, non-negative intensities and inverse-square errors of exactly the announced points. Inconsistent lengths, missing errors, unknown modes, unknown quantities and non-existing folders are rejected before anything is written.",
  ["inputs"], "all patterns, error arrays, modes and file contents",
  "Tests write and read back one pattern per mode and compare the plotted values loosely.",
  ["skbeam/io/save_powder_output.py", "skbeam/io/gsas_file_reader.py"],
  [("writers", "skbeam/io/save_powder_output.py:save_output,gsas_writer"), ("reader", "skbeam/io/gsas_file_reader.py:gsas_reader")])

p("C19", "Raw binary and detector mask files round-trip the data they hold",
  "Reading a raw binary file returns the header of exactly the given size and all following values in the given type, shaped as the given dimensions; saving a mask writes its complement under the requested name and reading a mask file returns the complement of what is stored, so that a saved mask reads back as itself. A non-existing folder is rejected.",
  ["inputs"], "all files, shapes, types and masks",
  "Tests read one generated volume and save one random mask.",
  ["skbeam/io/binary.py", "skbeam/io/fit2d.py"],
  [("raw volumes", "skbeam/io/binary.py:read_binary"), ("mask files", "skbeam/io/fit2d.py:fit2d_save,read_fit2d_msk")])

p("C21", "Differential phase contrast recovers amplitude and phase as documented",
  "For every image stack, reference, region, bad-pixel list and fit setting, each scan position is reduced by summing the region along each axis with bad pixels set to zero, its Fourier line profile is fitted to the shifted reference for amplitude and slope on both axes, and slopes are scaled by pixel size, distance and energy. The phase is then reconstructed by the documented Fourier integration with padding and weighting, and streaming over the stack gives the same result as the batch call.",
  ["inputs", "histories"], "all image stacks, regions, bad pixels, start parameters, paddings and weightings",
  "Tests fit one synthetic shifted image per axis.",
  ["skbeam/core/dpc.py"],
  [("line reduction and fit", "skbeam/core/dpc.py:image_reduction,dpc_fit,lazy_dpc"), ("phase integration", "skbeam/core/dpc.py:recon")])

p("C22", "Coherent diffraction reconstruction iterates the documented projections",
  "For every diffraction amplitude, start field and option set, each iteration applies the difference-map update built from the modulus and support projections with the documented signs and feedback, records object and diffraction errors, updates the support by thresholding the smoothed amplitude at the documented steps, and returns the average over the final iterations. The modulus projection imposes the measured amplitude with the current phase, and the start supports and fields have the requested shape and value.",
  ["inputs", "histories", "configurations"], "all data, options, numbers of iterations and update intervals",
  "Tests run few iterations on one object and check sizes and the sign of the error trend.",
  ["skbeam/core/cdi.py"],
  [("iteration", "skbeam/core/cdi.py:cdi_recon"), ("projections", "skbeam/core/cdi.py:pi_modulus,find_support")])

p("C23", "Image masks flag exactly the pixels their rule names",
  "For every image sequence, the bad-frame filter yields the frames in order with the listed ones replaced by not-a-number frames of the same shape, the threshold mask keeps exactly the pixels that stay inside the limits in every frame, the margin mask clears exactly the border of the given widths, and the binned outlier mask removes per bin the pixels outside the given number of deviations from the bin mean.",
  ["inputs", "histories"], "all image sequences, bad-frame lists, limits, widths and bin assignments",
  "Tests use three tiny images and one ring sample.",
  ["skbeam/core/mask.py"],
  [("mask rules", "skbeam/core/mask.py:bad_to_nan_gen,threshold,margin,binned_outlier")])

p("C24", "Speckle visibility histograms count every frame at every integration time",
  "For every image set, label mask and number of time bins, each valid integration time accumulates the photon-count histogram of each ROI over summed consecutive frames, merging buffers upward only when complete and both halves are valid, and returns the mean probability and its standard deviation with the documented bin edges. Normalised edges and centres are the count divided by the mean count scaled with the integration time.",
  ["inputs", "histories"], "all image sets, masks, time-bin counts, bad frames and maximal counts",
  "Tests use constant images in one and two sets.",
  ["skbeam/core/speckle.py"],
  [("accumulation over integration times", "skbeam/core/speckle.py:xsvs"), ("normalised bins", "skbeam/core/speckle.py:normalize_bin_edges")])

p("C25", "Peak finding, refinement and spectrum alignment return the documented peaks",
  "For every spectrum, candidate list, window and threshold, quadratic and log-quadratic refinement return position and height of the fitted parabola or reject the peak below the fit quality, candidate filters keep exactly the largest or high enough peaks in order, and refinement of a list skips rejected peaks only. The largest peak and the aligned and scaled spectra are computed from exactly the given window.",
  ["inputs"], "all spectra, candidates, windows, thresholds and refinement choices",
  "Tests use exact parabolas and one Gaussian series.",
  ["skbeam/core/feature.py", "skbeam/core/spectroscopy.py", "skbeam/core/fitting/funcs.py"],
  [("refinement", "skbeam/core/feature.py:peak_refinement,refine_quadratic,refine_log_quadratic"),
   ("filters", "skbeam/core/feature.py:filter_n_largest,filter_peak_height"), ("alignment", "skbeam/core/spectroscopy.py:align_and_scale,find_largest_peak")])

p("C26", "Averaged images, ring centres and one-dimensional statistics are exact",
  "Images constructed from a radial or radius-angle average hold at every pixel the interpolated average at its distance and azimuth from the given centre, with pixels outside the averaged range set to the documented fill value; the ring centre is the half-way point of the autocorrelation maximum on each axis. One-dimensional statistics reduce the values of each bin between the given limits and return edges and values.",
  ["inputs"], "all averages, centres, shapes, pixel sizes and limits",
  "Tests rebuild one average on one centred image.",
  ["skbeam/core/image.py", "skbeam/core/stats.py"],
  [("image construction", "skbeam/core/image.py:construct_circ_avg_image,construct_rphi_avg_image,find_ring_center_acorr_1D"),
   ("statistics", "skbeam/core/stats.py:statistics_1D")])

p("C27", "Region integrals of a spectrum use exactly the channels in range",
  "For every monotonic spectrum and every list of bounds the region integral is the sum over regions of the integral of the points inside each region, for increasing or decreasing coordinates, and integration over bin edges treats edges as bin coordinates. Non-monotonic coordinates, mismatched shapes or bound lists, reversed bounds and bounds outside the spectrum are rejected.",
  ["inputs"], "all coordinate arrays, values and lists of bounds",
  "Tests integrate a constant spectrum over a few bounds.",
  ["skbeam/core/spectroscopy.py"],
  [("integration and validation", "skbeam/core/spectroscopy.py:integrate_ROI,integrate_ROI_spectrum")])

p("C28", "Powder-ring calibration estimates distance and beam centre as documented",
  "For every radial profile and standard the distance estimate is mean and standard deviation of refined peak radius divided by the tangent of the expected angle over the peaks both have, up to the given count. The refined centre shifts the given centre by the first harmonic of the ring radii over azimuthal wedges, using the same peaks in every wedge.",
  ["inputs", "configurations"], "all profiles, standards, wavelengths, windows, thresholds, centres and step counts",
  "Tests calibrate one noise-free Gaussian ring pattern.",
  ["skbeam/core/calibration.py"],
  [("distance", "skbeam/core/calibration.py:estimate_d_blind"), ("centre", "skbeam/core/calibration.py:refine_center")])

p("C29", "Two-dimensional Savitzky-Golay smoothing pads and convolves as documented",
  "For every image, window and order the filter builds all monomials up to the order, pads the image on every side and corner by point reflection around the border values, and convolves with the least-squares kernel for the value or the requested derivative. An even window or too few points for the order is rejected.",
  ["inputs", "configurations"], "all images, windows, orders and derivative choices",
  "Tests smooth one surface and check the residual's size.",
  ["skbeam/core/smoothing.py"],
  [("filter", "skbeam/core/smoothing.py:sgolay2d")])

p("C30", "Logical image arithmetic is element-wise Boolean algebra",
  "For every pair of arrays, and every selection and output array passed on, negated conjunction, negated disjunction and set difference return the element-wise Boolean result of their arguments, and the remaining arithmetic and logical names are the corresponding array-library operations.",
  ["inputs"], "all arrays, selections and output arrays",
  "Tests use two small arrays.",
  ["skbeam/core/arithmetic.py"],
  [("operations", "skbeam/core/arithmetic.py:logical_nand,logical_nor,logical_sub")])

p("C32", "Masked spatial cross-correlation treats every mask id separately",
  "For every mask and image pair, each id's pixels are placed in a sub-image of its bounding box, correlated by full convolution with the reflected second sub-image, and normalised per the regular or symmetric-average recipe with positions without overlap set to not-a-number; positions, centres, sub-masks and overlap counts are reported per id. Images of another shape and more than two dimensions are rejected.",
  ["inputs", "configurations"], "all masks, images, dimensionalities and normalisations",
  "Tests compare two blob images at a few offsets.",
  ["skbeam/core/correlation.py"],
  [("geometry per id", "skbeam/core/correlation.py:CrossCorrelator.__init__"), ("correlation", "skbeam/core/correlation.py:CrossCorrelator.__call__")])

p("C20", "Element records and calibration standards are read and looked up consistently",
  "For every atomic number, symbol or name in any letter case, the element record is the one the data file lists under it, its fields are readable as attributes and by key, and elements compare and order by atomic number. Every powder standard holds one reflection per given spacing or angle with its Miller index, spacing and scattering vector related by the textbook formulas, in increasing order of scattering vector, and converts to the Bragg angle of any wavelength. The built-in standards carry exactly the published spacings, angles and wavelength.",
  ["inputs", "configurations"], "all element identifiers, spacings, angles, Miller indices and wavelengths",
  "Tests look up the elements by symbol, name and number and check the shape of the standards, not their contents.",
  ["skbeam/core/constants/basic.py", "skbeam/core/constants/xrs.py"],
  [("data file reader and lookup", "skbeam/core/constants/basic.py:read_atomic_constants,BasicElement"),
   ("standards", "skbeam/core/constants/xrs.py:HKL,PowderStandard,calibration_standards")])

p("C15", "X-ray line tables, fitting parameter names and strategies are consistent",
  "For every element, line or shell name in any letter case and every incident energy, line energies, cross sections, edges, jumps and yields are the X-ray library's values for that name (zero where it has none), and line searches return exactly the excited lines within the window. The lines activated by an elemental line are exactly those of its series with non-zero cross section at the incident energy, and every parameter added for an element, user peak or pile-up is named after that line and starts from its kind's default and requested constraint. Applying a strategy sets every parameter's bound type to the strategy's, else to the extra setting, else fixed, and the five built-in strategies free exactly their documented parameters.",
  ["inputs", "configurations"], "all elements, line names, incident energies, parameter kinds, strategies and fit results",
  "Tests read a handful of lines and check that adding some parameters creates some keys.",
  ["skbeam/core/constants/xrf.py", "skbeam/core/fitting/xrf_model.py", "skbeam/core/fitting/base/parameter_data.py"],
  [("library wrappers and search", "skbeam/core/constants/xrf.py:XRAYLIB_MAP,XrayLibWrap,XrfElement,emission_line_search"),
   ("line activation and ratios", "skbeam/core/fitting/xrf_model.py:get_activated_lines,get_line_energy,get_relative_cs_ratio,sum_area"),
   ("parameters and strategies", "skbeam/core/fitting/xrf_model.py:ParamController,set_parameter_bound,register_strategy,extract_strategy,update_parameter_dict")])

p("C16", "Fluorescence spectrum models and linear fits are assembled as documented",
  "For every parameter table and list of elemental lines, the model of each line, user peak and pile-up carries the shared calibration and width parameters, the tabulated centre and relative intensity, ties secondary lines to the main line, and applies every requested value, bound and fixed flag; lines that are not excited contribute nothing. The linear fit of a spectrum or of every pixel is the non-negative least-squares solution (weighted by the square root of the weights) on the background-subtracted data over exactly the model's columns, and areas and curves are reported under the matching name. Channel ranges, the escape peak and single-peak shapes equal their formulas.",
  ["inputs", "configurations"], "all parameter tables, elemental lines, spectra, weights, maps and ranges",
  "Tests fit one simulated spectrum with a handful of elements and compare to a loose tolerance.",
  ["skbeam/core/fitting/xrf_model.py", "skbeam/core/fitting/models.py"],
  [("model assembly", "skbeam/core/fitting/xrf_model.py:ModelSpectrum,ElementModel,element_peak_xrf"),
   ("default hints", "skbeam/core/fitting/models.py:set_default,ElasticModel,ComptonModel"),
   ("linear fits", "skbeam/core/fitting/xrf_model.py:construct_linear_model,nnls_fit,linear_spectrum_fitting,fit_per_line_nnls,fit_pixel_multiprocess_nnls,calculate_area"),
   ("ranges", "skbeam/core/fitting/xrf_model.py:trim,define_range,compute_escape_peak")])

p("C07", "The compiled kernels compute the stated transforms for any number of threads",
  "For every detector geometry, list of diffractometer angles and orientation matrix, the compiled coordinate transform returns for every image and pixel the six-circle reciprocal-space (or HKL) vector, and the compiled gridder adds to each cell of the new or continued grid the sum, the sum of squares and the number of the points that fall into it (skipping NaN unless told otherwise) and returns the standard error of the mean. The result does not depend on how many threads share the work, and no two iterations or threads interfere.",
  ["inputs", "schedules", "configurations"], "all point lists, grids, geometries, modes, continued accumulators and numbers of threads",
  "Tests grid a regular lattice and transform one image; a misplaced offset, a lost thread's contribution or a race shows only for other sizes, teams and schedules.",
  ["src/ctrans.c"],
  [("coordinate transform", "src/ctrans.c:ccdToQ,processImages,calcDeltaGamma,calcQTheta,calcQPhiFromQTheta,calcHKLFromQPhi,matmulti"),
   ("gridder", "src/ctrans.c:gridder_3D,c_grid3d")],
  tech="static: clang AST of the extension translated to the same dataflow graphs as the Python code and compared with written requirements "
       "(global value numbering, random interpretation; loops with pointer arithmetic by bounded unrolling of the graphs), plus an interference analysis of the OpenMP regions",
  note="loop results of the C code are compared on every unrolling up to small extents and team sizes (counted as discharged_bounded), not for unbounded sizes; nothing is compiled or run")

p("C08", "The compiled kernels never leak, double-free, or fail silently",
  "On every path through the compiled extension, including every failing allocation, conversion and validation, each new reference and heap block is released or handed to the caller exactly once and nothing unset, borrowed, freed or NULL is released or used. Failure is always reported as an exception and success never is, and no interpreter call or return happens while the interpreter lock is released.",
  ["fault points", "inputs"], "all control paths and failure points of the exported functions and their helpers",
  "Tests never make an allocation or conversion fail and do not count references, so the error paths are not executed at all.",
  ["src/ctrans.c"],
  [("error paths of the wrappers", "src/ctrans.c:ccdToQ,gridder_3D"), ("per-thread buffers", "src/ctrans.c:c_grid3d")],
  tech="static ownership typestate: path enumeration over the clang AST with the state of every pointer, exception and lock",
  note="aliases and helper functions are followed; a construct outside the analysed subset is listed as undecided")

p("C09", "The compiled kernels stay inside their buffers and check their arguments",
  "For every argument accepted by the compiled extension, every read and write stays inside the array, heap block or local buffer it addresses: shapes, sizes and step counts that would not are rejected before any data is touched, and points outside the grid are never stored. Array data is addressed directly only after it was required to be contiguous, aligned and of the accessed element type, is written only if it is new or was required writeable, and every parsed argument is stored in a variable of its type.",
  ["inputs", "configurations"], "all argument shapes, sizes, types, step counts, data values and team sizes",
  "Tests pass well-formed arrays of a few sizes; an out-of-bounds access usually goes unnoticed and the rejected shapes are never tried.",
  ["src/ctrans.c"],
  [("argument checks", "src/ctrans.c:ccdToQ,gridder_3D"), ("buffer arithmetic", "src/ctrans.c:processImages,calcDeltaGamma,calcQTheta,matmulti,c_grid3d")],
  tech="static abstract interpretation of the clang AST: pointer offsets as polynomials over argument extents, loop counters and guarded cell indices, "
       "compared with the extent of the block for all values of the symbols",
  note="an access that can be neither proved in bounds nor refuted by concrete extents is listed as undecided; integer overflow is not modelled")

p("C33", "A histogram puts every sample in the one bin that contains it",
  "Filling a histogram of any dimension adds each sample's weight to exactly the bin whose half-open interval contains its coordinate on every axis, ignores samples outside the range, and accumulates over successive fills until it is reset. Bin edges and centres describe the same bins, arrays of any memory layout and every supported mix of integer and floating coordinates give the same counts, and mismatched lengths, a wrong number of coordinates or unsupported types are refused.",
  ["inputs", "histories"], "all samples, weights, bin counts, ranges, layouts, coordinate types and sequences of fills",
  "Tests fill with random points and compare totals for a few configurations; boundary values, strided inputs and mixed types are sampled at best.",
  ["skbeam/core/accumulators/histogram.pyx"],
  [("filling", "skbeam/core/accumulators/histogram.pyx:Histogram.fill,Histogram._fill1d,Histogram._fill2d,Histogram._fillnd,find_indices"),
   ("bins", "skbeam/core/accumulators/histogram.pyx:Histogram.__init__,Histogram.edges,Histogram.centers")],
  tech="static: the Cython source is rewritten to a syntax tree (types erased, integer conversions and buffer pointers explicit), reduced to dataflow graphs "
       "and compared with written requirements (global value numbering, random interpretation), plus a contiguity rule for arrays accessed through raw pointers",
  note="the N-dimensional path is decided for three dimensions (all floating, and mixed types); arithmetic is exact, floating-point rounding at bin edges is not modelled")

p("C01", "Analysis never modifies the caller's data",
  "No public function or method writes to an array, image sequence, list or dictionary it is given, nor to an element or view of one, whether directly, through a helper, or later through an object that kept a reference to it. The only exceptions are the operations documented to work in place: updating fitting parameters or their bounds, editing a wrapped metadata dictionary, and advancing or reading out the state of an interrupted streaming computation.",
  ["inputs", "histories"], "all arguments, their types and layouts, and all sequences of calls on the objects that keep them",
  "Tests build fresh inputs and look only at the result; whether an input survives depends on its type (a list is copied, a float array is not).",
  ["skbeam/core", "skbeam/io"],
  [("images and masks", "skbeam/core/image.py:construct_rphi_avg_image"), ("masks", "skbeam/core/mask.py:threshold,margin,binary_outlier"),
   ("spectra", "skbeam/core/fitting/background.py:snip_method"), ("reconstruction", "skbeam/core/cdi.py:cdi_recon"),
   ("fitting parameters", "skbeam/core/fitting/xrf_model.py:ParamController,ModelSpectrum,linear_spectrum_fitting"),
   ("binning", "skbeam/core/accumulators/binned_statistic.py:BinnedStatisticDD.__init__")],
  tech="static alias and effect analysis: flow-sensitive, interprocedural summaries of which arguments, elements, views and kept references each function writes to",
  note="a call into a library whose effect is not modelled is taken to return a new object; an augmented assignment counts when the argument is an array by its documentation or use; "
       "writes through an index that may copy are listed as undecided")

p("C34", "Using the library never changes its tables and defaults",
  "No function or method changes a table of constants, settings or defaults that the library ships, a default argument value, or a class-wide container, so that the outcome of a call never depends on which calls came before. Objects made from these tables get their own copies, and the only way to extend a table is the documented registration of a fitting strategy.",
  ["histories", "inputs"], "all sequences of calls",
  "Each test starts from a fresh process or sees the change everywhere at once; the damage shows only in a later, unrelated call.",
  ["skbeam/core", "skbeam/io"],
  [("fitting defaults", "skbeam/core/fitting/xrf_model.py:ParamController,PARAM_DEFAULTS,register_strategy"),
   ("strategies", "skbeam/core/fitting/base/parameter_data.py"), ("constants", "skbeam/core/constants"), ("grid and background defaults", "skbeam/core/utils.py:_defaults")],
  tech="static alias and effect analysis: module-level tables, mutable defaults and class attributes are followed through assignments, views, calls and attributes to every write",
  note="a table handed out by a function documented to require a copy by the caller is not reported")

p("C02", "An interrupted streaming computation continues where it stopped",
  "Feeding a sequence of images to the streaming one-time, two-time or phase-contrast computation in parts, each part continuing from the state the previous one handed out, gives exactly the results and the state of feeding it in one go, after every image. Everything the computation carries from one image to the next is in that state, which is complete when it is handed out and is never reset when it is handed back.",
  ["histories", "crash points"], "all ways of cutting a sequence of images into parts, all image contents, level and buffer counts, and stopping after any image",
  "Tests resume once, at one place, for one setting; the carried counters and partly filled buffers differ for every cut.",
  ["skbeam/core/correlation.py", "skbeam/core/dpc.py"],
  [("one-time", "skbeam/core/correlation.py:lazy_one_time"), ("two-time", "skbeam/core/correlation.py:lazy_two_time"),
   ("phase contrast", "skbeam/core/dpc.py:lazy_dpc")],
  tech="static self-composition: the dataflow graph of the code fed in one go is compared with that of the same code fed in parts (global value numbering, "
       "random interpretation), plus a rule that no path writes to the state between handing it out and taking the next image",
  note="decided for sequences of two to four images with symbolic contents, level and buffer counts, cut at every place; longer sequences follow by induction only if the code treats every image alike")

p("C35", "Files and worker processes are released whatever happens",
  "Every file the library opens for reading or writing is closed, and every pool of worker processes it starts is shut down, on every path out of the function that opened it, also when reading, parsing, writing or a fit fails on the way. Nothing is left to the garbage collector, and a resource is handed to the caller only as the result.",
  ["fault points", "inputs"], "all paths on which any statement between opening and the end of the function may fail",
  "Tests feed well-formed data, so no exception ever passes through the functions while a file or pool is open, and a leak has no effect on the result.",
  ["skbeam/io", "skbeam/core/fitting/xrf_model.py", "skbeam/core/constants/basic.py"],
  [("readers and writers", "skbeam/io/gsas_file_reader.py,skbeam/io/save_powder_output.py,skbeam/io/binary.py,skbeam/io/avizo_io.py,skbeam/io/net_cdf_io.py"),
   ("parallel fit", "skbeam/core/fitting/xrf_model.py:fit_pixel_multiprocess_nnls")],
  tech="static resource typestate over the syntax tree: every acquisition is matched with the context manager or finally clause that releases it on all paths, exceptional ones included",
  note="objects of third-party readers that manage their own files are not followed")
