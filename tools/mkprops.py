"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
S = "src/fluidimage/"
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Splitting a computation over processes partitions it exactly",
 "For every set of work items (a range with any positive step, or any list of items) and every number of processes, the parts handed to the processes, taken in order, are exactly the original items: none lost, none done twice, order kept. The sizes of the parts differ by at most one, empty parts launch no process, and the announced number of expected results equals the number of items. Item indices written to a file for a process are read back unchanged.",
 ["inputs", "configurations"], "all start/stop/step values and lists, all numbers of processes, with and without a list of indices to be computed",
 "Tests split a few short series; off-by-one errors only show for particular remainders of (number of items) modulo (number of processes).",
 ["topologies/splitters.py", "topologies/base.py"],
 [("split_range", "topologies/splitters.py:split_range"), ("split_list", "topologies/splitters.py:split_list"),
  ("parameters of the sub-computations", "topologies/splitters.py:SplitterFromSeries._iter_over_new_params_from_ranges, SplitterFromImages._iter_over_new_params_from_ranges"),
  ("index files", "topologies/splitters.py:SplitterCompleteAware.save_indices_files, topologies/base.py:_tuple_ints_from_str")])

prop("C02", "PIV grid and interrogation windows stay inside the padded images",
 "For every image larger than the first window along both axes, all window shapes and every overlap smaller than one (steps of at least one pixel), the vector positions form a regular increasing grid inside the image, and every interrogation window centred on a grid point has exactly the declared shape and reads only pixels of the padded image. When an approximate displacement is given for a vector, the two windows of this vector are shifted relative to each other by exactly this displacement, the vector is located midway between their centres and both centres lie in the image whenever this is possible by moving the shift onto one window. The displacement finally reported is the shift of the windows plus the correlation displacement.",
 ["inputs", "configurations"], "all image shapes at least as large as the window, all window shapes (odd and even, rectangular), all overlaps, all integer displacements per vector",
 "Tests use a handful of image and window sizes with small displacements; border cases (odd windows, last grid point, displacement larger than the distance to the border) depend on combinations never sampled.",
 ["works/piv/singlepass.py"],
 [("grid", "works/piv/singlepass.py:BaseWorkPIV._prepare_with_image"), ("window bounds", "works/piv/singlepass.py:BaseWorkPIV._init_crop, _crop_im0, _crop_im1, _pad_images"),
  ("window shift", "works/piv/singlepass.py:WorkPIVFromDisplacement._calcul_positions_vectors_subimages"), ("loop over the vectors", "works/piv/singlepass.py:BaseWorkPIV._loop_vectors")])

prop("C03", "Correlation-map positions and displacements are in exact correspondence",
 "For every correlation method, converting a position in the correlation map into a displacement and back gives the same position, and the position announced as 'no displacement' converts to a zero displacement. Moving the peak by one pixel changes the displacement by exactly one pixel along the same axis, x and y never being exchanged. The origin used by a method is the position of the peak of the correlation of an image with itself, so identical windows give exactly zero displacement.",
 ["inputs", "configurations"], "all correlation methods, all window shapes (even, odd, rectangular), all map positions",
 "Tests check a few window sizes per method with a tolerance of the order of a pixel; an origin error for one parity or one axis is invisible there.",
 ["calcul/correl.py"],
 [("index/displacement conversion", "calcul/correl.py:CorrelBase.compute_displacement_from_indices, compute_indices_from_displacement, get_indices_no_displacement"),
  ("origins", "calcul/correl.py:CorrelBase.__init__, CorrelScipySignal._finalize_init, CorrelScipyNdimage._finalize_init, CorrelPythran._finalize_init")])

prop("C04", "The selected correlation peak is the maximum of the allowed region",
 "The peak selected in a correlation map is never an invalid (NaN) value, lies in the search region and no valid value of the region is larger. A peak touching the border of the map or an invalid value is reported as an error, never silently accepted; a maximum displacement restricts the search to positions whose displacement does not exceed it, and allowed positions are never removed from the search. Secondary peaks are searched outside of the neighbourhoods of the previous ones and the map of the caller's result is reported with the same maximum divided by the norm.",
 ["inputs", "configurations"], "all maps (any shape, any placement of invalid values), all search limits, all numbers of peaks",
 "Tests use smooth maps with one clear interior peak; ties, peaks at borders, invalid values and tight search limits are combinations that sampling does not reach.",
 ["calcul/correl.py"],
 [("argmax ignoring nan", "calcul/correl.py:nan_indices_max, _is_there_a_nan"), ("normalisation and errors", "calcul/correl.py:_compute_indices_max"),
  ("search limits", "calcul/correl.py:CorrelFFTBase._finalize_init, parse_displacement_max"), ("second chance and secondary peaks", "calcul/correl.py:CorrelBase.compute_displacements_from_correl")])

prop("C05", "The direct correlation equals its definition for every window shape",
 "For every pair of images and every maximum displacement allowed by their shapes, each value of the directly computed correlation map is the sum of products of overlapping pixels for the displacement of this map position, normalised by the number of overlapping pixels and multiplied by the size of the second image. No pixel outside of the images is read and every map position is written exactly once. The returned norm is the product of the root sums of squares of the two images.",
 ["inputs"], "all image shapes (second not larger than first), all maximum displacements, all pixel values",
 "Tests compare one or two shapes with a tolerance on the peak position only.",
 ["calcul/correl.py"],
 [("direct correlation", "calcul/correl.py:correl_numpy"), ("norm", "calcul/correl.py:_norm_images")])

prop("C06", "Reordering of Fourier correlation maps is an exact permutation",
 "The map obtained from the Fourier method is the periodic correlation with both axes reversed and recentred: every value of the raw map appears exactly once, at the position prescribed by reversing both axes and exchanging the halves, for every parity of the two sizes. The energy computed from the half spectrum counts the first and last columns once and all other columns twice.",
 ["inputs"], "all array shapes (all parities, including sizes one and two) and all values",
 "Tests compare with the reference for a few shapes only.",
 ["calcul/correl.py", "calcul/fft.py"],
 [("reordering", "calcul/correl.py:_like_fftshift"), ("energy", "calcul/fft.py:_compute_energy_from_fourier")])

prop("C07", "Sub-pixel refinement moves a peak by a bounded, unbiased amount",
 "For every method and every correlation map, the refined position of a peak is either reported as an error or at a distance from the integer peak bounded by the documented limit; peaks too close to the border of the map for the method are always reported as errors and never read outside of the map. Without refinement the position is unchanged, and a neighbourhood symmetric about the peak is not displaced. Along each axis the Gaussian refinement returns the exact centre of an exactly Gaussian peak and does not exchange x and y.",
 ["inputs"], "all maps, peak positions, methods and neighbourhood sizes",
 "Tests check a few synthetic peaks with loose tolerances.",
 ["calcul/subpix.py", "calcul/correl.py"],
 [("refinement", "calcul/subpix.py:SubPix.compute_subpix, SubPix.prepare_subpix"), ("Gaussian fit", "calcul/subpix.py:compute_subpix_2d_gaussian2"), ("use", "calcul/correl.py:CorrelBase.apply_subpix")])

prop("C08", "A vector is rejected if and only if an error explains it",
 "After the validation of a vector field, each vector that fails a criterion (error during the correlation, correlation too small, displacement too large, too different from the mean of its neighbours) is not-a-number, carries an explanation naming the criterion it failed (both for an error during the correlation and a correlation too small; the two others apply to vectors not yet rejected), and its original value is kept. All the other vectors are unchanged and carry no explanation. A vector is replaced only by a secondary peak which satisfies the same limits; it is then no longer flagged as wrong, and its previous value is kept.",
 ["inputs", "configurations"], "all vector fields, all sets of previous errors, all thresholds including disabled ones, any number of secondary peaks",
 "Tests run one image pair; combinations of criteria (disabled ones, several failing for one vector, replaced peaks) are not exercised.",
 ["works/piv/fix.py"],
 [("validation", "works/piv/fix.py:WorkFIX.calcul")])

prop("C09", "The mean over neighbours uses exactly the valid nearest neighbours",
 "For every grid and every pattern of missing vectors, the value returned for a vector is the mean of the valid vectors among its (at most eight) nearest neighbours on the grid, itself excluded; it is not-a-number if the vector itself is missing or has no valid neighbour. A vector with one missing component counts as missing for both components, and the input arrays are not modified.",
 ["inputs"], "all grid shapes at least two by two, all patterns of missing values, all values",
 "Tests check one small array; corners, edges and core are separate code, and the patterns of missing values are exponentially many.",
 ["calcul/mean_neighbors.py"],
 [("mean over neighbours", "calcul/mean_neighbors.py:_mean_neighbors, mean_neighbors_xy")])

prop("C10", "Positions of cropped images are always reported in the original frame",
 "When images are cropped, the pixel at position p of the cropped image is the pixel at p plus the crop origin of the original image, positions reported to the user are in the frame of the original image, and converting positions between the two frames in one direction and back is the identity. Axes are never exchanged and an absent bound means zero offset.",
 ["inputs", "configurations"], "all crop strings with two slices (bounds absent or non-negative, no step), all positions",
 "Tests use one crop; crops with a missing bound, spaces or different offsets along the two axes are not sampled.",
 ["works/with_mask.py", "data_objects/piv.py", "postproc/piv.py"],
 [("frame conversions", "works/with_mask.py:BaseWorkWithMask._xymasked_from_xyoriginalimage, _xyoriginalimage_from_xymasked"),
  ("crop", "data_objects/piv.py:get_slices_from_strcrop, get_slice_from_strslice, ArrayCouple._mask_array")])

prop("C11", "Each queued item is processed once, in order, and failures stay isolated",
 "Whatever the topology, each item put in a queue is taken exactly once, oldest first, given to the work reading this queue, and its result is stored under the same key in the output queue. An item whose work raises an exception, or which is itself a previously raised exception, produces an exception under its own key and changes nothing for the other items. The number of running workers always returns to its previous value when a worker ends, a full output queue or a busy executor starts no new worker, and an executor stops only when all queues are empty and no worker runs.",
 ["inputs", "schedules", "fault_sequences"], "all queue contents, all works (raising or not, any kind), each step of the executors from every state",
 "Tests run small topologies that succeed; the position of a failing item and the states of the queues at each step are not enumerated.",
 ["topologies/base.py", "executors/exec_sequential.py", "executors/exec_async.py", "executors/base.py"],
 [("queues and works", "topologies/base.py:Queue, Work.check_exception, Work.prepare_argument"), ("sequential loop", "executors/exec_sequential.py:ExecutorSequential._run_works"),
  ("asynchronous workers", "executors/exec_async.py:ExecutorAsync.async_run_work_io, async_run_work_cpu, update_has_to_stop"), ("first works", "executors/base.py:ExecutorBase.exec_one_shot_works")])

prop("C12", "Couples and subsets contain the right images, once, whatever the order",
 "Whatever the order in which images become available, each requested couple (or subset) of images is produced exactly once, under its own key, with its images in the requested order, as soon as they are all available. An image is kept as long as a couple still needs it and dropped when none does. If an image could not be read, the couples using it produce this error and the other ones are produced normally.",
 ["inputs", "schedules"], "all sets of couples (sharing images or not), all orders of arrival of the images, all sets of unreadable images",
 "Tests process one short series in one order of arrival.",
 ["topologies/piv.py", "topologies/preproc.py", "topologies/base.py"],
 [("couples", "topologies/piv.py:TopologyPIV.make_couples"), ("subsets", "topologies/preproc.py:TopologyPreproc.make_subsets"), ("still needed", "topologies/base.py:Queue.is_name_in_values")])

prop("C13", "Completing a computation computes exactly the missing results",
 "In 'complete' mode the set of items to be computed is exactly the set of items whose result file does not exist in the result directory, in order, each once; nothing already computed is recomputed and nothing missing is skipped. With an explicit list of indices exactly the listed items are computed, and without it all of them. The file name used to decide that a result exists is the name under which the result is saved (for a subset of preprocessed images, the last one which is saved).",
 ["inputs", "histories", "crash_points"], "all sets of already existing result files (any interruption of a previous computation), all series, all saving modes",
 "Tests complete one computation with one missing result; the subsets of existing files are exponentially many.",
 ["topologies/base.py", "topologies/piv.py", "topologies/preproc.py", "data_objects/piv.py", "data_objects/preproc.py"],
 [("missing series", "topologies/piv.py:TopologyPIV.compute_indices_to_be_computed, topologies/preproc.py:TopologyPreproc.compute_indices_to_be_computed, topologies/base.py:TopologyBaseFromSeries.init_series"),
  ("missing images", "topologies/base.py:TopologyBaseFromImages.compute_indices_to_be_computed, fill_queue_paths"),
  ("names", "data_objects/piv.py:get_name_piv, data_objects/preproc.py:get_name_preproc")])

prop("C14", "The result directory follows the saving mode and never replaces another",
 "The directory returned for the results exists, is the requested one (or the input directory name followed by a dot and the postfix), and the mode returned is never 'ask'. With the mode 'new_dir', a directory which already exists is never reused, the smallest free number being appended; with the other modes the name is not changed. The interactive question is asked only if the directory exists, the answer selects the corresponding mode (in lower or upper case) and 'stop' stops; an unknown mode is refused.",
 ["inputs", "histories"], "all sets of existing directories, all modes, all sequences of answers",
 "Tests cover one or two modes with an empty directory and never the interactive question.",
 ["topologies/base.py"],
 [("result directory", "topologies/base.py:prepare_path_dir_result")])

prop("C15", "The mean image does not depend on how the sums are grouped",
 "For images of non-negative integers (whose sum is smaller than 2**32), every number of images and every order of arrival and grouping (within a process and between processes), the sum that is finally divided is the exact sum of all the images, and the divisor is the number of images. Each reduction step conserves the total sum and the total count, no partial sum is lost or counted twice, and the number of recorded results equals the number of images minus one per process plus the final result.",
 ["inputs", "schedules"], "all numbers of images, all orders, all splittings over processes",
 "Tests average a few images; groupings by four and by two depend on the number of images modulo four and on the order of arrival.",
 ["topologies/mean.py"],
 [("reductions", "topologies/mean.py:TopologyMeanImage.reduce_queue_tmp_arrays4, reduce_queue_tmp_arrays2"), ("use", "topologies/mean.py:TopologyMeanImage.main, final_seq_work")])

prop("C16", "Thin-plate-spline subdomains cover all points with normalised weights",
 "For every set of points, each point belongs to at least one subdomain, the weights of the subdomains containing it are positive and, once normalised, sum to one; a field that all subdomains reproduce is therefore reproduced. The interpolation matrix is, for each pair of points, r squared times log r (zero for coincident points), followed by a row of ones and the coordinates. The interpolated value at a position combines exactly the subdomains containing this position.",
 ["inputs", "configurations"], "all sets of points, subdomain sizes and new positions in the box of the points",
 "Tests use one field; the number of subdomains, points on subdomain borders and empty subdomains depend on sizes not sampled.",
 ["calcul/interpolate/thin_plate_spline.py", "calcul/interpolate/thin_plate_spline_subdom.py"],
 [("subdomains", "calcul/interpolate/thin_plate_spline_subdom.py:ThinPlateSplineSubdom.__init__, init_with_new_positions, _compute_coef_norm"),
  ("interpolation", "calcul/interpolate/thin_plate_spline_subdom.py:ThinPlateSplineSubdom.interpolate, compute_tps_weights_subdom"),
  ("matrix", "calcul/interpolate/thin_plate_spline.py:compute_tps_matrix_pythran, compute_tps_weights")])

prop("C17", "Calibrations map pixels and physical space consistently",
 "The simple calibration is affine: the reference pixel maps to the reference physical position, the two calibration points are at the given distance, and displacements are differences of positions. For the Tsai model without distortion, going from physical positions in a calibrated plane to pixels and back to this plane is the identity, up to the documented orientation of the vertical pixel axis. The equation and the base computed for an inclined plane are those of this plane: the base is orthonormal with its last vector along the normal.",
 ["inputs", "configurations"], "all calibration parameters in their valid domain and all positions",
 "Tests use one calibration file and a few points.",
 ["calibration/calib2d_simple.py", "calibration/calib_tsai.py", "calibration/util.py"],
 [("simple calibration", "calibration/calib2d_simple.py:Calibration2DSimple"), ("Tsai model", "calibration/calib_tsai.py:Calibration.pix2phys, phys2pix"), ("planes", "calibration/util.py:get_plane_equation, get_base_from_normal_vector")])

prop("C18", "Operations on vector fields keep each vector at its position",
 "Building a field with decreasing axes gives increasing axes, each vector staying attached to its coordinates. Extraction, truncation, square extraction and regularisation return the sub-array of vectors whose coordinates are the corresponding sub-arrays of the axes (a square extraction being square, centred and of the announced size), and sums, differences, products, quotients and time averages act vector by vector without changing the operands. Reshaping a one-dimensional result on its grid puts each vector at the node having its coordinates.",
 ["inputs"], "all grid shapes and orientations, all values, all bounds and operands",
 "Tests use one square-ish field; rectangular fields, decreasing axes and odd sizes are separate branches.",
 ["postproc/vector_field.py", "postproc/util.py"],
 [("orientation", "postproc/vector_field.py:VectorFieldOnGrid.__init__"), ("extraction", "postproc/vector_field.py:VectorFieldOnGrid.extract, truncate, extract_square, regularize_grid"),
  ("arithmetic", "postproc/vector_field.py:VectorFieldOnGrid.__add__, __sub__, __mul__, __truediv__, ArrayOfVectorFieldsOnGrid.compute_time_average"), ("reshaping", "postproc/util.py:reshape_on_grid_final")])

prop("C19", "Preprocessing tools are applied in order and respect their bounds",
 "Exactly the enabled tools are applied, each once, in the requested sequence (or the default order), each with its own parameters and on the output of the previous one. A global threshold returns every pixel clipped to the given interval (bounds which the type of the image can represent), and the sliding filters return the input minus the weighted local statistic, never negative, without modifying the input image. Several images are processed like each of them alone, in the same order, and a temporal window is accepted if and only if it spans more than one image.",
 ["inputs", "configurations"], "all sets of enabled tools and sequences, all images and parameters",
 "Tests call each tool once with default parameters.",
 ["works/preproc/_toolbox_py.py", "works/preproc/toolbox.py", "works/preproc/io.py"],
 [("sequence of tools", "works/preproc/toolbox.py:PreprocToolsBase.apply"), ("tools", "works/preproc/_toolbox_py.py"), ("several images", "works/preproc/io.py:iterate_multiple_imgs")])

prop("C20", "Saved PIV results are read back as they were",
 "Every array of a result is saved in single precision (integers and texts as they are), and every field of a result that is saved (positions, displacements, errors with the index of their vector, rejected values, spline weights of each subdomain in the order of the subdomains, passes in order) is read back equal and attached to the same vector and pass, whatever the number of vectors, errors, subdomains and passes. The numerical code stored for an error is the one of the first failed criterion. The light version of a result contains the x and y positions and displacements of the requested pass, unexchanged.",
 ["inputs"], "all numbers of vectors, errors, subdomains (more than ten included) and passes",
 "Tests save and load one result with few subdomains.",
 ["data_objects/piv.py"],
 [("save", "data_objects/piv.py:HeavyPIVResults._save_in_hdf5_object"), ("load", "data_objects/piv.py:HeavyPIVResults._load_from_hdf5_object, MultipassPIVResults._load"), ("light result", "data_objects/piv.py:MultipassPIVResults.make_light_result")])

prop("C21", "UVmat instructions are translated into the same series of couples",
 "For every set of UVmat instructions of a supported kind, the series of couples that will be processed is the one described: first index, step and inclusive last index become the corresponding half-open range, the subset string selects the couple of images of the chosen mode (with the actual fixed index, for a series over a numbered second index; a pair over the second index is the pair a-b), and absent increments or last indices have their documented defaults. Unsupported modes are refused, never silently misread; the window size, thresholds and number of passes are those of the instructions, the window size being made even.",
 ["inputs", "configurations"], "all index ranges, pair modes and optional fields",
 "Tests translate one instruction file.",
 ["uvmat.py"],
 [("translation", "uvmat.py:ActionBase.set_params_series, ActionPIVFromUvmatXML.params_from_uvmat_xml")])

prop("C22", "Unwrapping the surface height only adds whole periods",
 "The correction that makes the phase of a frame consistent with the previous one adds a whole number of periods to the frame, the same for all pixels, and the remaining jump of the reference pixel never exceeds half a period in absolute value. A frame that is already consistent is not modified.",
 ["inputs"], "all phases of two successive frames",
 "Tests process a few images without phase jumps.",
 ["works/surface_tracking.py"],
 [("correction", "works/surface_tracking.py:WorkSurfaceTracking.correctcouple")])

prop("C23", "Every result is recorded once, and progress counts are exact",
 "Whenever results are recorded during a computation, the names recorded so far are exactly the names of the results produced so far, in order, each exactly once, and the recorded count is the number of results. Recording again without new results changes nothing.",
 ["inputs", "histories"], "all sequences of results produced between successive recordings",
 "Tests record a couple of results at once; interleavings of production and recording are not enumerated.",
 ["executors/base.py"],
 [("recording", "executors/base.py:ExecutorBase._save_results_names, _init_results_log")])

prop("C24", "Job directories and locks of concurrent computations never collide",
 "The job directory chosen for a computation never exists beforehand, and the lock file of the job lies in this directory. Taking the lock fails if it is already taken and otherwise creates it; releasing it removes it and writes the end time exactly when it was held, releasing twice being harmless.",
 ["inputs", "histories"], "all sets of existing job directories, all sequences of lock operations",
 "Tests never start two computations in the same second in one directory.",
 ["executors/base.py"],
 [("paths", "executors/base.py:ExecutorBase._init_log_path, _save_job_data"), ("lock", "executors/base.py:ExecutorBase._save_lock_file, _release_lock")])

prop("C25", "An elapsed time is displayed exactly, in normalised units",
 "For every duration of at least one minute, the displayed hours, minutes and seconds are whole numbers which add up to the duration rounded down to a whole second, minutes and seconds being less than sixty. A shorter non-negative duration is displayed in seconds only, with its value to the displayed precision.",
 ["inputs"], "all durations",
 "Tests check a few durations.",
 ["util/util.py"],
 [("formatting", "util/util.py:format_time_in_seconds")])

prop("C26", "An interrupted computation can be completed to the same results",
 "After a computation is killed at any point, completing it yields the same set of result files as an uninterrupted computation, no file being half written.",
 ["crash_points", "histories"], "all points at which a process can be killed",
 "Tests never kill a computation.",
 ["executors/base.py", "data_objects/piv.py", "topologies/base.py"],
 [("saving", "data_objects/piv.py:MultipassPIVResults.save"), ("completion", "topologies/base.py:TopologyBaseFromSeries.init_series")])

prop("C27", "Asynchronous executors always terminate, for every schedule",
 "For every interleaving of the asynchronous tasks, processes and threads, an execution of a topology terminates after every item has been processed, without deadlock.",
 ["schedules"], "all interleavings",
 "Tests see one schedule per run.",
 ["executors/exec_async.py", "executors/exec_async_servers.py", "executors/servers.py", "executors/base.py"],
 [("asynchronous loops", "executors/exec_async.py:ExecutorAsync.start_async_works"), ("servers", "executors/servers.py:WorkerServer")])

prop("C28", "Measured displacements are accurate to a fraction of a pixel",
 "For synthetic particle images displaced by a known field, the displacement reported is within a stated fraction of a pixel of the true one, whatever the correlation and sub-pixel methods.",
 ["inputs", "configurations"], "all particle images and displacement fields of a stated class",
 "Tests check one field with a loose tolerance.",
 ["works/piv/multipass.py", "calcul/correl.py", "calcul/subpix.py"],
 [("multipass PIV", "works/piv/multipass.py:WorkPIV.calcul")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
