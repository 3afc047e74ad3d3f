TECH, NOTE, NA = {}, {}, {}
T_IN = "The tests build one or two fixed mock inputs per function and compare with values tuned to them; "

prop("C01", "A dataset's cubes and its frames are always the same data",
     "At every point of any sequence of edits, whole-dataset updates, error additions, copies, slices and selections, a dataset's data, uncertainty and flag cubes hold exactly what its frames hold, in frame order, and editing one edits the other. "
     "Every frame's uncertainty has one leading layer axis over the data's shape and its flags have the data's shape. "
     "Constructing a frame or updating a dataset with arrays of any other shape is rejected.",
     ["inputs", "histories"], "all frame shapes and counts, error layers, tracking settings, and sequences of dataset operations",
     "Tests make single calls on one fixed shape; sequences of mixed edits, slices and updates are never exercised, and aliasing between cube and frames can break only after a specific sequence.",
     ["data.py"], [("Dataset.__init__ aliases frames onto the cubes", "corgidrp/data.py:Dataset"), ("update_after_processing_step / add_error_term re-link", "corgidrp/data.py:Dataset.update_after_processing_step")],
     ["Dataset.all_data/all_err/all_dq", "Image.data/err/dq"], [("Dataset.frames", "frames whose arrays are views of the cubes", "corgidrp/data.py")])

prop("C02", "A copy shares no editable state with its original",
     "After copying any frame, calibration product or dataset, editing the copy's data, uncertainties, flags, headers, extensions or names never changes the original, and vice versa; with data copying switched off this still holds for all headers and names. "
     "The copy carries the same content and type as the original, and making a copy does not modify the original.",
     ["inputs", "histories"], "every data product class and dataset, any content, both copy modes, and any later edit on either side",
     "Tests check one array of one Image; independence must hold for every field of every product class.",
     ["data.py"], [("Image.copy", "corgidrp/data.py:Image.copy"), ("Dataset.copy", "corgidrp/data.py:Dataset.copy")], ["headers, arrays, hdu_list and names of original and copy"])

prop("C03", "Saving then loading any data product returns the same product",
     "Any frame, dataset or calibration product saved to disk and loaded back, by its own class or by the generic loader, has the same type, data, uncertainties, flags, extra extensions, header values, history and derived values, and saving does not change the in-memory product. "
     "Loading a file as a calibration type it is not, is rejected. Processing what was read back gives the same result as processing what was in memory.",
     ["inputs"], "every product class, array content and dtype (including NaN, 3-D, multi-layer errors, 9-bit flags), header values, extensions and file names",
     "Tests save and reload one mock per class and compare a few fields.",
     ["data.py"], [("Image.save / Image.__init__(path)", "corgidrp/data.py:Image"), ("autoload dispatch", "corgidrp/data.py:autoload")], ["FITS files on disk", "loaded objects"])

prop("C04", "Uncertainties combine in quadrature, scale linearly, and layers stay named",
     "Adding an independent uncertainty term makes the combined uncertainty the root of the sum of squares; rescaling multiplies every layer by the factor. "
     "When individual tracking is on, each added term is kept as its own layer, in order and under its name, with the combined layer first; when off, only the combined layer exists. The order in which terms are added does not change the combined uncertainty.",
     ["inputs", "configurations", "histories"], "all frames, sequences of terms and factors (per frame or shared), and both tracking settings",
     "Tests add one or two constant terms; sequences with rescaling, per-frame terms and both settings are not covered.",
     ["data.py"], [("add_error_term", "corgidrp/data.py:Image.add_error_term"), ("rescale_error", "corgidrp/data.py:Image.rescale_error")], ["Image.err", "Image.err_hdr"])

prop("C05", "Splitting a dataset by header values is a partition",
     "Splitting a dataset on any set of primary and image header keywords yields groups that together contain every frame exactly once, in original order within a group; two frames share a group exactly when all chosen keywords agree, and each group is reported with its own keyword values.",
     ["inputs"], "all datasets, keyword sets and value types (integers, floats, strings, booleans)",
     "Tests split one hand-made dataset on two keywords.",
     ["data.py"], [("split_dataset", "corgidrp/data.py:Dataset.split_dataset")], ["returned datasets and keyword tuples"])

prop("C06", "Calibration products and level promotions record their provenance",
     "Every calibration product made from a dataset lists each distinct input file and each of those files' own recorded parents exactly once, in a reproducible order, states their number, and is marked as calibration level with the right type and naming suffix. "
     "Promoting a dataset to the next data level requires every frame to be at the previous level, updates level and file name, keeps pixels, and leaves no frame out. Time stamps in file names are the UTC time rounded to a tenth of a second.",
     ["inputs", "histories"], "all input datasets (with duplicates and nested parents), product classes, levels and time strings",
     "Tests count files of one mock product and check one or two names.",
     ["data.py", "l1_to_l2a.py", "l2a_to_l2b.py", "l2b_to_l3.py", "l3_to_l4.py", "l4_to_tda.py"],
     [("_record_parent_filenames", "corgidrp/data.py:Image._record_parent_filenames"), ("update_to_l2a/l2b/l3/l4/tda", "corgidrp/l*_to_*.py"), ("format_ftimeutc", "corgidrp/data.py:format_ftimeutc")],
     ["FILEn, DRPNFILE, DATALVL, DATATYPE, filename"])

prop("C07", "Processing steps never modify the data or calibrations they are given",
     "Running any processing step or calibration builder leaves the input dataset (pixels, uncertainties, flags, headers, history, names), the calibration products and other arguments exactly as they were, and the result shares no editable headers or pixels with them (level promotions, which change no pixels, hand the main arrays on; helpers that exist to annotate a given frame's header do so).",
     ["inputs", "histories"], "every pipeline step and calibration builder, all valid inputs and options",
     "Tests look at outputs; almost none compares the input before and after the call, and none does it for headers.",
     ["l1_to_l2a.py", "l2a_to_l2b.py", "l2b_to_l3.py", "l3_to_l4.py", "l4_to_tda.py", "combine.py", "darks.py", "flat.py", "photon_counting.py", "sorting.py"],
     [("each step works on dataset.copy()", "corgidrp/*.py")], ["snapshots of arguments before/after; later edits of the result"])

prop("C08", "Steps keep frames in order, add history, and never drop data-quality flags",
     "Every frame-wise processing step returns one frame per input frame in the same order (or, for frame selection and star finding, exactly the kept ones), keeps each frame's headers (but for the keywords it is there to set) and earlier history, adds at least one history entry when it did anything, and keeps every data-quality flag that was set before the step; marking NaN pixels keeps the flags already there. "
     "Flag values and bit names convert back and forth without loss.",
     ["inputs", "histories"], "every frame-wise step, all valid datasets and flag maps, sequences of steps",
     "Tests check flags for the one step and pixel they target; loss of unrelated flags, history or order in another step goes unseen.",
     ["l1_to_l2a.py", "l2a_to_l2b.py", "l2b_to_l3.py", "l3_to_l4.py", "detector.py", "data.py"],
     [("update_after_processing_step", "corgidrp/data.py:Dataset.update_after_processing_step"), ("bitwise OR of flags", "corgidrp/l1_to_l2a.py, l2a_to_l2b.py, detector.py"), ("packbits_64uint/unpackbits_64uint", "corgidrp/data.py")],
     ["frames, HISTORY and dq of step outputs"])

prop("C09", "The calibration database returns the best registered calibration",
     "After any sequence of registrations, updates, removals, directory scans and reloads, the calibration database holds exactly one entry per registered file with that file's properties. "
     "Asking for a calibration returns the registered product of that type nearest in time to the frame (for darks, among those with the frame's exposure time), or the most recently created one when no frame is given, and fails when there is none.",
     ["histories", "inputs"], "all operation sequences on databases and all products and query frames",
     "Tests run one fixed sequence with two or three darks.",
     ["caldb.py"], [("create_entry/remove_entry keyed by path", "corgidrp/caldb.py:CalDB"), ("get_calib selection", "corgidrp/caldb.py:CalDB.get_calib")], ["CSV file", "get_calib result"],
     [("CalDB._db", "one row per calibration file", "corgidrp/caldb.py")])

prop("C10", "Recipes are chosen and filled in correctly for the given data",
     "For any list of files the pipeline picks the recipe documented for their data level, visit type, photon-counting state and exposure settings, lists exactly the given files and output directory, and fills every automatic calibration with the database's choice, leaving out optional ones or skipping steps with missing ones only when so configured. "
     "Templates supplied by the caller, and the stored templates, are never changed, so generating a recipe twice gives the same recipe.",
     ["inputs", "configurations"], "all header combinations, file lists, templates, databases and pipeline settings",
     "Tests generate a few recipes for a few header values and never reuse a template.",
     ["walker.py"], [("guess_template", "corgidrp/walker.py:guess_template"), ("autogen_recipe", "corgidrp/walker.py:autogen_recipe"), ("_fill_in_calib_files", "corgidrp/walker.py:_fill_in_calib_files")], ["returned recipe JSON"])

prop("C11", "Running a recipe equals running its steps in order by hand",
     "Executing a recipe applies exactly its non-skipped steps in order with the listed calibrations and keywords, so the saved products equal those of calling the same functions by hand; the output files carry the recipe, names follow the requested suffix, and every calibration product saved is findable in the database afterwards. "
     "Every shipped recipe template only uses existing steps, valid keywords and known calibration types.",
     ["inputs", "programs"], "all recipes composed of the available steps, calibrations and keywords, and all input datasets",
     "Tests run a handful of shipped templates and look at single outcomes.",
     ["walker.py", "ops.py"], [("run_recipe", "corgidrp/walker.py:run_recipe"), ("save_data", "corgidrp/walker.py:save_data")], ["files in the output directory", "calibration database"])

prop("C12", "Bias subtraction removes exactly the row-wise prescan median plus offset",
     "For every frame, array type and detector-region table, each row's bias is the median of the reliable prescan columns of that row, and the returned image is the image area (or full frame) minus that bias minus the optional calibrated bias offset, with the stated uncertainty and header entries; adding any constant to a row changes nothing in the image output. "
     "Cutting a detector section and embedding it back are inverse operations, for any valid region geometry.",
     ["inputs", "configurations"], "all raw frames, array types, region tables (including non-default ones), full-frame and noise-map options",
     "Tests use the default geometry with Gaussian noise and check statistics of the result.",
     ["l1_to_l2a.py", "detector.py"], [("prescan_biassub", "corgidrp/l1_to_l2a.py:prescan_biassub"), ("slice_section/embed/unpack_geom", "corgidrp/detector.py")], ["returned dataset, bias column, headers"])

prop("C13", "Cosmic-ray and saturation flags mark exactly the affected pixels",
     "Pixels above the saturation level (the smaller of the two full-well capacities divided by k-gain, using each frame's own gain) are flagged as saturated, and the pixels flagged as cosmic-ray affected are exactly the plateaus meeting the stated length and threshold together with their surrounding and trailing regions; no other pixel is newly flagged and pixel values are not changed. "
     "Frames are judged independently of one another.",
     ["inputs", "configurations"], "all frames, gains, thresholds, filter lengths, saturation levels and detector parameters",
     "Tests use a few hand-made rows; edge rows/columns, per-frame gains and multi-hit rows are not enumerated.",
     ["l1_to_l2a.py", "detector.py"], [("detect_cosmic_rays", "corgidrp/l1_to_l2a.py:detect_cosmic_rays"), ("flag_cosmics/find_plateaus", "corgidrp/detector.py"), ("calc_sat_fwc", "corgidrp/detector.py")], ["Image.dq"])

prop("C14", "Non-linearity correction applies the interpolated relative gain of each frame",
     "Every pixel is multiplied by the relative-gain table's value interpolated linearly in counts and in the EM gain of that very frame (measured if available, else applied, else commanded), held at the table's edge outside its count and gain range; uncertainties are left as they are and invalid tables are rejected. "
     "A table of ones leaves the data unchanged, and each frame's result does not depend on the other frames.",
     ["inputs"], "all tables (any axes), frames, pixel values and gains, measured, actual or commanded",
     "Tests apply one stored table to one simulated data set.",
     ["l1_to_l2a.py", "detector.py"], [("correct_nonlinearity", "corgidrp/l1_to_l2a.py:correct_nonlinearity"), ("get_relgains", "corgidrp/detector.py:get_relgains")], ["Image.data"])

prop("C15", "Frame selection keeps exactly the frames meeting the criteria",
     "Frame selection returns, in order, exactly the frames whose bad-pixel fraction (ignoring the allowed flag bits), over-exposure flag and pointing statistics are within the requested limits, or all frames with the failing ones marked bad when asked not to discard; the reasons are recorded and the call fails when no frame survives.",
     ["inputs", "configurations"], "all datasets, flag maps, header values and threshold combinations",
     "Tests vary one criterion at a time on one dataset.",
     ["l2a_to_l2b.py"], [("frame_select", "corgidrp/l2a_to_l2b.py:frame_select")], ["returned frames, IS_BAD, FRMSELnn, HISTORY"])

prop("C16", "Unit conversion, gain, flat and photon-noise steps follow their formulas",
     "Conversion to electrons multiplies by k-gain, gain division divides by each frame's own EM gain, flat division divides by the flat, and photon noise adds the shot-noise of the counts with the EM excess-noise factor; uncertainties follow by propagating every layer and the calibration's own uncertainty, and the unit keyword is updated. "
     "The steps commute with scaling the input.",
     ["inputs", "configurations"], "all frames, calibration values and errors, gains given by any of the header keywords, and error-tracking settings",
     "Tests check one frame with constant values.",
     ["l2a_to_l2b.py"], [("convert_to_electrons / em_gain_division / flat_division / add_photon_noise", "corgidrp/l2a_to_l2b.py")], ["Image.data, err, BUNIT"])

prop("C17", "Dark subtraction uses a matching dark and propagates its errors",
     "Subtracting a dark, or the dark synthesized from noise maps as fixed pattern/gain + exposure time x dark current + clock-induced charge (for the dataset's gain and exposure time), removes it from every frame, adds its uncertainty in quadrature and merges its flags. "
     "A dark whose exposure time or gain does not match, or datasets mixing such settings, are rejected.",
     ["inputs", "configurations"], "all datasets, darks, noise maps, array types, gains and exposure times",
     "Tests check means of one mock dark.",
     ["l2a_to_l2b.py", "darks.py"], [("dark_subtraction", "corgidrp/l2a_to_l2b.py:dark_subtraction"), ("build_synthesized_dark", "corgidrp/darks.py:build_synthesized_dark")], ["Image.data/err/dq"])

prop("C18", "Desmearing inverts the read-out smear",
     "For any image, adding the smear that frame-transfer read-out produces (each row collects the scaled sum of the rows read before it) and desmearing returns the image, using each frame's own exposure time; the step is linear in the data and marks the frame as desmeared.",
     ["inputs", "configurations"], "all images, exposure times and row read-out times",
     "Tests smear one mock and compare statistics.",
     ["l2a_to_l2b.py"], [("desmear", "corgidrp/l2a_to_l2b.py:desmear")], ["Image.data"])

prop("C19", "Bad pixels become NaN exactly where a fault is flagged",
     "Bad-pixel correction sets a pixel to NaN exactly when the bad-pixel map or a fault flag of the frame marks it, records the map's flags in the frame's flags without losing any bit, and leaves all other pixels and the uncertainties unchanged.",
     ["inputs"], "all frames, flag maps with any of the nine bits, and bad-pixel maps",
     "Tests use a handful of pixels with one flag value.",
     ["l2a_to_l2b.py"], [("correct_bad_pixels", "corgidrp/l2a_to_l2b.py:correct_bad_pixels")], ["Image.data, Image.dq"])

prop("C20", "Combining frames is a masked mean or median, independent of frame order",
     "Combining frames returns, per pixel, the mean or median of the unflagged samples (scaled to a sum when asked), the error of that combination, and flags only pixels with no good sample; the result does not depend on the order of the frames. "
     "Combining subexposures groups consecutive frames and yields one frame per group.",
     ["inputs"], "all stacks, flag maps, error arrays, group sizes and combination modes",
     "Tests combine constant frames.",
     ["combine.py", "darks.py", "detector.py"], [("combine_images / combine_subexposures", "corgidrp/combine.py"), ("mean_combine", "corgidrp/darks.py:mean_combine")], ["returned frame(s)"])

prop("C21", "Photon counting recovers the mean rate from thresholded frames",
     "The photon-counted mean of a stack is, per pixel, the corrected rate computed from the fraction of unmasked frames above threshold, independent of frame order, with each group's own count of valid frames; pixels masked in all frames are flagged, darks are subtracted with errors in quadrature, and gain settings outside the photon-counting regime are rejected.",
     ["inputs"], "all stacks of thresholdable frames, masks, gains, thresholds and inversion orders",
     "Tests check one simulated stack statistically, within a loose tolerance (and that file is not part of the reliable suite).",
     ["photon_counting.py"], [("get_pc_mean", "corgidrp/photon_counting.py:get_pc_mean"), ("photon_count / corr_photon_count", "corgidrp/photon_counting.py")], ["returned dataset"])

prop("C22", "Exposure normalisation, sky coordinates and distortion keep the geometry right",
     "Normalisation divides data and all uncertainties of each frame by its own exposure time and updates the unit; the sky coordinates attached to each frame place the reference position at the astrometric calibration's boresight with its plate scale and the frame's roll plus north angle; distortion correction with no distortion leaves images unchanged and with a known distortion moves sources back to their true place.",
     ["inputs", "configurations"], "all frames, exposure times, roll angles and astrometric calibrations",
     "Tests use one calibration, one roll and constant frames.",
     ["l2b_to_l3.py", "l3_to_l4.py"], [("divide_by_exptime / create_wcs", "corgidrp/l2b_to_l3.py"), ("distortion_correction", "corgidrp/l3_to_l4.py:distortion_correction")], ["Image.data/err, BUNIT, CD matrix, CRVAL"])

prop("C23", "Cropping is an exact window with consistent position keywords",
     "Cropping returns, for each frame separately, exactly the pixels of the requested window around the frame's own centre (or the given one), for data, uncertainties and flags, and shifts every recorded position keyword so that it keeps pointing at the same sky position; centres between pixels are rounded to the nearest pixel or pixel corner the window size allows, and windows that leave the image are rejected. Cropping twice equals cropping once to the final window.",
     ["inputs", "histories"], "all frame shapes, window sizes, centres, 2-D and 3-D data, and sequences of crops",
     "Tests crop a few centred frames sharing one centre.",
     ["l3_to_l4.py"], [("crop", "corgidrp/l3_to_l4.py:crop")], ["Image arrays, STARLOCX/Y, CRPIX, DETPIX0X/Y"])

prop("C24", "North-up rotation turns every frame by its own roll about the star",
     "De-rotation turns data, uncertainties and flags of each frame by the same angle, the one that brings north up for that frame, about the frame's star position (or centre), so that a source ends at its sky position angle and separation; a frame that is already north up is unchanged, and the coordinate keywords (CD matrix, star location) are rotated consistently.",
     ["inputs"], "all frames, roll angles, star positions and source positions",
     "Tests rotate one mock image by one angle.",
     ["l3_to_l4.py"], [("northup", "corgidrp/l3_to_l4.py:northup")], ["Image.data/err/dq, CD matrix"])

prop("C25", "Satellite-spot centring finds the true star position every time",
     "From an image pair with four satellite spots the star-finding step recovers the true star position to a small fraction of a pixel for any star position, spot separation, rotation and contrast within range, records it in every science frame, drops the spot frames as documented, and gives the same answer regardless of earlier calls or of custom settings used before.",
     ["inputs", "histories"], "all star positions, spot geometries, noise levels and call sequences",
     "Tests use a single geometry and call the step once per process.",
     ["star_center.py", "l3_to_l4.py"], [("find_star", "corgidrp/l3_to_l4.py:find_star"), ("star_center_from_satellite_spots", "corgidrp/star_center.py")], ["STARLOCX/Y"])

prop("C26", "PSF subtraction uses the right frames and keeps the planet in place",
     "PSF subtraction chooses the differential-imaging mode implied by the rolls and references present, returns one plane per requested number of modes centred on the star with its position recorded, removes a stellar pattern common to science and reference frames, keeps a companion at its position angle and separation, and rejects unknown modes, missing science frames and inconsistent frames.",
     ["inputs", "configurations"], "all combinations of science and reference frames, rolls, star centres, modes and companion positions",
     "Tests run three fixed scenes.",
     ["l3_to_l4.py", "data.py"], [("do_psf_subtraction", "corgidrp/l3_to_l4.py:do_psf_subtraction"), ("PyKLIPDataset", "corgidrp/data.py:PyKLIPDataset")], ["returned frame, headers"])

prop("C27", "Noise-map and dark builders recover the planted noise maps",
     "Fitting stacks of darks at different gains and exposure times returns per pixel the fixed-pattern, clock-induced-charge and dark-current values that explain them (exactly for noise-free stacks), ignoring flagged samples; the traditional dark is the masked per-pixel mean in electrons with its error, embedded in the right detector area; inconsistent stacks are rejected.",
     ["inputs", "configurations"], "all stacks, gains, exposure times, masks and detector-region tables",
     "Tests fit one simulated data set with loose statistical tolerance.",
     ["darks.py"], [("calibrate_darks_lsq", "corgidrp/darks.py:calibrate_darks_lsq"), ("build_trad_dark", "corgidrp/darks.py:build_trad_dark")], ["returned calibration products"])

prop("C28", "Bad-pixel maps and flats mark and measure the right pixels",
     "The bad-pixel map marks as hot exactly the dark's pixels above the sigma threshold and as dead exactly the flat's pixels below the threshold, combining both marks per pixel; a flat made from flat-illumination frames is their per-pixel mean with its standard error, and on-sky flats reproduce a planted pixel response from any raster of a source.",
     ["inputs", "configurations"], "all darks, flats, thresholds and raster scans",
     "Tests plant a couple of bad pixels; the raster-scan flat test is not in the reliable suite.",
     ["bad_pixel_calibration.py", "flat.py"], [("create_bad_pixel_map / detect_hot_pixels / detect_dead_pixels", "corgidrp/bad_pixel_calibration.py"), ("create_flatfield / create_onsky_flatfield", "corgidrp/flat.py")], ["returned maps"])

prop("C29", "Pupil-image sorting selects the documented frame sets",
     "Sorting pupil images for k-gain or non-linearity calibration returns exactly the frames of the mean-frame set and the matching exposure-time/gain sets, each frame labelled with its role, whatever the order of the input files, and rejects data sets without the mean-frame or k-gain sets and unknown calibration types.",
     ["inputs"], "all collections of pupil frames with any exposure times, gains, times and order",
     "Tests sort one generated campaign in a few orders.",
     ["sorting.py"], [("sort_pupilimg_frames", "corgidrp/sorting.py")], ["returned dataset, OBSNAME"])

prop("C30", "Gain and linearity calibrations recover the detector's planted response",
     "From frames simulated with a known k-gain, read noise and non-linearity, the k-gain calibration returns the gain and the non-linearity calibration returns the relative-gain curve within their statistical precision, normalised at the documented point, with axes covering the measured counts and gains.",
     ["inputs"], "all planted gains, read noises and response curves within the documented ranges",
     "The corresponding tests are not in the reliable suite (they need unavailable data).",
     ["calibrate_kgain.py", "calibrate_nonlin.py"], [("calibrate_kgain", "corgidrp/calibrate_kgain.py"), ("calibrate_nonlin", "corgidrp/calibrate_nonlin.py")], ["KGain.value, NonLinearityCalibration.data"])

prop("C31", "Trap-pumping models and fits recover the planted traps",
     "The physical trap-pumping models and their fits are mutually inverse: release times and dipole amplitudes generated from known traps give back those traps' energies, cross sections and times, and the trap table written to the calibration product contains every trap found and converts back without loss.",
     ["inputs"], "all trap parameters, temperatures and phase times in the documented ranges",
     "The trap-pumping test takes a single simulated campaign and is not in the reliable suite.",
     ["pump_trap_calibration.py"], [("P1/P2/P3 models, fits, tau_temp, fit_cs", "corgidrp/pump_trap_calibration.py"), ("create_TrapCalibration_from_trap_dict / rebuild_dict", "corgidrp/pump_trap_calibration.py")], ["returned parameters and TrapCalibration"])

prop("C32", "Core throughput is the flux fraction in the core, and lookups return the nearest",
     "The throughput estimated for each off-axis PSF is the flux inside its half-maximum core relative to the unocculted total, unchanged by common scaling, with its position at the PSF centroid; the calibration product stores the matching PSF cutouts. "
     "Interpolating at a calibrated position returns the calibrated value, PSF and map lookups return the nearest entries relative to the mask centre, and positions outside the calibrated range are rejected.",
     ["inputs", "configurations"], "all PSF sets, positions, mask offsets and query positions",
     "Tests use a fixed grid of Gaussian PSFs.",
     ["corethroughput.py", "data.py"], [("estimate_psf_pix_and_ct / generate_ct_cal / create_ct_map", "corgidrp/corethroughput.py"), ("InterpolateCT / GetPSF / GetCTFPMPosition", "corgidrp/data.py:CoreThroughputCalibration")], ["CT values, positions, PSF cube"])

prop("C33", "Astrometric calibration recovers the true pointing, scale and orientation",
     "From images of a field of known stars the calibration returns the plate scale, north angle and pointing offset used to make them, for any offset, rotation and scale in range, source centroids follow any shift of the sources, and a fitted distortion map takes the measured star positions to their places on the sky about the image centre.",
     ["inputs"], "all fields, offsets, rotations, plate scales and source brightnesses",
     "The astrometry test is not in the reliable suite; it uses one field and one rotation.",
     ["astrom.py"], [("boresight_calibration / compute_platescale_and_northangle / centroid", "corgidrp/astrom.py")], ["AstrometricCalibration values"])

prop("C34", "Aperture photometry and flux calibration are linear and self-consistent",
     "Aperture photometry of a source is proportional to its flux, independent of a constant background when background subtraction is on and of the source's position; the flux-calibration factor equals the standard star's band flux divided by its measured count rate, so applying it to the same star returns its catalogue flux. "
     "Band flux of a constant spectrum is that constant and colour correction between equal spectra is one.",
     ["inputs", "configurations"], "all sources, backgrounds, positions, filters, spectra and aperture settings",
     "Tests need downloaded spectra (absent from the reliable suite) or use one synthetic source.",
     ["fluxcal.py"], [("aper_phot / phot_by_gauss2d_fit", "corgidrp/fluxcal.py"), ("calibrate_fluxcal_aper / calibrate_fluxcal_gauss2d", "corgidrp/fluxcal.py"), ("calculate_band_flux etc.", "corgidrp/fluxcal.py")], ["flux, error, FluxcalFactor"])

prop("C35", "Neutral-density calibration recovers the filter's optical density",
     "The optical density measured at each dither position is minus the logarithm of the ratio of attenuated to unattenuated flux of the same star, at the source's position, for any star brightness; interpolation returns the measured values at measured points and stays within them between points, and high-variance sets are flagged.",
     ["inputs"], "all densities, star brightnesses, dither patterns and query positions",
     "The corresponding tests need downloaded spectra and are not in the reliable suite.",
     ["nd_filter_calibration.py", "data.py"], [("create_nd_filter_cal", "corgidrp/nd_filter_calibration.py"), ("interpolate_od", "corgidrp/data.py:NDFilterSweetSpotDataset")], ["NDFilterSweetSpotDataset values"])

prop("C36", "Fluxes and magnitudes of sources follow from counts and calibration",
     "A source's flux is its photometry times the flux calibration factor with relative errors added in quadrature, its apparent magnitude is the Vega-zero-pointed logarithm of that flux, and conversion of an image to flux units scales data and every uncertainty layer accordingly.",
     ["inputs", "configurations"], "all sources, calibration factors and errors, colour corrections and throughput maps",
     "Tests need downloaded spectra or one synthetic star.",
     ["l4_to_tda.py", "fluxcal.py"], [("determine_flux / determine_app_mag / convert_to_flux", "corgidrp/l4_to_tda.py")], ["headers FLUX, APP_MAG; Image.data/err"])

prop("C37", "Source finding and companion measurement report the true companions",
     "Source finding reports every isolated companion above the signal-to-noise limit at its true pixel and nothing well below it, for any positions and brightnesses, independent of image normalisation, and companion measurement turns the recorded detections back into the planted positions and brightness.",
     ["inputs"], "all companion positions, brightnesses and noise maps",
     "The find-source and measure-companion tests are not in the reliable suite.",
     ["find_source.py", "l4_to_tda.py", "measure_companions.py"], [("find_source", "corgidrp/l4_to_tda.py:find_source"), ("measure_companions", "corgidrp/measure_companions.py")], ["snyxNNN headers, result table"])

prop("C38", "Injection, noise and throughput estimates are geometrically consistent",
     "Injecting a companion adds exactly the scaled PSF at the requested separation and position angle in the frame's own orientation; noise at a separation is the standard deviation in the annulus there; separations, position angles and pixel offsets convert back and forth; flux-ratio noise and throughput tables follow from them per frame and interpolate between computed separations, and PSF subtraction attaches the throughput tables of its own frames.",
     ["inputs", "configurations"], "all positions, angles, PSFs, annuli, rolls and requested separations",
     "Tests evaluate one scene.",
     ["klip_fm.py", "l4_to_tda.py"], [("inject_psf / measure_noise / seppa2dxdy / get_polar_dist / meas_klip_thrupt", "corgidrp/klip_fm.py"), ("compute_flux_ratio_noise", "corgidrp/l4_to_tda.py")], ["returned frames, arrays, extension data"])

prop("C39", "Parameter validation accepts exactly the documented values",
     "Each parameter validator accepts a value exactly when it has the documented kind (finite real, positive, integer, string, array of given dimension...) and otherwise raises its documented error, never altering the value.",
     ["inputs"], "all values of Python and numpy types",
     "Tests list a few values per validator.",
     ["check.py"], [("validators", "corgidrp/check.py")], ["return/exception"])

prop("C40", "Settings are honoured, and setting up loses neither settings nor calibrations",
     "The pipeline reads every option of the user's settings file as written, uses the documented default for those not given and refuses what is neither true nor false; setting up at any time creates only what is missing, registers the default calibrations and every calibration file of the loaded folders once each, and changes no settings file and no registered calibration; "
     "a run of the operations interface gives exactly the files of the same steps called by hand and leaves the settings as they were.",
     ["configurations", "histories"], "all settings files, and all histories of setting up, editing, loading, deleting and processing",
     "Tests set up once, from the existing home directory.",
     ["__init__.py", "ops.py", "caldb.py"], [("create_config_dir / update_pipeline_settings", "corgidrp/__init__.py"), ("step_1_initialize / step_2_load_cal / step_3_process_data", "corgidrp/ops.py"), ("initialize", "corgidrp/caldb.py:initialize")], ["settings file, module settings, database rows, output files"])

W = "property-based testing (Hypothesis): "
TECH["C01"] = W + "stateful operation sequences against an array model"
TECH["C02"] = W + "metamorphic (edit one side, compare the other with its snapshot)"
TECH["C03"] = W + "save/load round trips of generated products"
TECH["C04"] = W + "operation sequences against a layer-by-layer model"
TECH["C06"] = W + "generated provenance graphs against a set model, differential runs of two interpreters"
TECH["C07"] = W + "generated calls of every step, invariant on the arguments before and after"
TECH["C08"] = W + "generated calls of every frame-wise step with random flags and marks, invariant between input and output"
TECH["C09"] = W + "stateful operation histories against a dictionary model"
TECH["C10"] = W + "generated file lists, templates and databases against a decision table"
TECH["C11"] = W + "generated recipes, differential against calling the functions by hand"
TECH["C40"] = W + "stateful histories of setting up and editing against a model of settings and database"
