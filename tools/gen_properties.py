import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
S="forcepho/superscene.py"
p("C01","Outstanding regions never share a source",
 "While a region is checked out, none of its active or fixed sources belongs (as active or as fixed) to any other outstanding region, for both the circular and the friends-of-friends scene managers. A checkout that would break this is refused: it returns no active and no fixed sources and leaves the master catalog and the counters unchanged. Once every outstanding region that blocks a seed is checked in, checking out that seed succeeds again.",
 ["histories","inputs"],"every sequence of seeded checkouts and check-ins (in any order of return) over enumerated source layouts, sizes and patch limits",
 "The demos check out one region once; no test holds two regions at the same time, and the conflict depends on which regions are outstanding and on the layout.",
 [S],[("checkout marks active/fixed rows",S+":SuperScene.checkout_region, LinkedSuperScene.checkout_region"),("proposed scene",S+":get_circular_scene, grow_scene, grow_source")],
 ["return value of checkout_region","sourcecat is_active/is_valid columns","n_active / n_fixed"],
 [("is_valid/is_active","row is free / being fitted",S)])
p("C02","Check-in publishes exactly the returned sources and frees exactly that region",
 "Checking a region in overwrites the fitted parameters (all bands and shape parameters) of exactly its active sources with the returned values, adds the reported iterations to their iteration count and one to their patch count when iterations were run, replaces their bounds and covariances only when new ones are supplied, and appends the task id to the logs; every other row, bound and covariance is untouched. It makes exactly that region's active and fixed sources available again and lowers the active and fixed counts by their numbers, so that after every outstanding region is returned nothing is active, everything is available and both counts are zero. Checkout and the lookup of bounds and covariances hand out copies, so editing them changes nothing in the master catalog until check-in.",
 ["histories","inputs"],"every interleaving of checkouts and check-ins with every combination of the optional check-in arguments, in every row order, over enumerated layouts and band counts",
 "Tests perform at most one check-in, with one source, and never look at the rest of the catalog.",
 [S],[("parameter and metadata update",S+":SuperScene.checkin_region"),("bounds/covariances lookup",S+":SuperScene.bounds_and_covs"),("reset",S+":SuperScene.reset")],
 ["sourcecat, bounds_catalog, covariance_matrices, sourcelog, patchlog"])
p("C03","Seeds are drawn from available sources only, favouring unfinished ones",
 "The seed probabilities of a scene manager are finite, non-negative and sum to one in every reachable state; whenever at least one source is available, every unavailable source has probability zero, every available source whose iteration count is within the representable range has positive probability, and a source with fewer iterations is never less likely than one with more. With no source available a random checkout is refused instead of failing. The scene reports that work remains exactly while some source has fewer iterations than the target, and reports being sparse exactly while the active fraction is below the configured maximum.",
 ["histories","inputs"],"every reachable checkout/check-in state of the enumerated layouts, and every assignment of availability and iteration count from a finite alphabet",
 "Seed draws are random and the tests draw once from a fresh scene in which every source is available.",
 [S],[("seed weights",S+":exp_weight, sigmoid_weight, seed_weight, draw_center"),("stopping rules",S+":undone, sparse")],
 ["seed_weight()","np.random.choice arguments","undone","sparse"])
p("C04","Checked-out regions are well-formed and respect friends-of-friends groups",
 "A friends-of-friends checkout returns between one and the configured maximum number of distinct active sources including the seed, in a circle that encloses every active source out to its radius of influence plus the buffer, and fixed sources that are distinct, not active, at most the requested number, and are the closest overlapping sources first. The groups are exactly the connected components of the pairwise overlap relation (separation smaller than the sum of the radii of influence), the group catalog partitions the sources accordingly, and in strict mode no group is split unless it is the first one and does not fit. A circular checkout returns the sources with the smallest outer extent around the seed, at most the maximum, all lying with their extent inside the returned radius, and at least the minimum radius.",
 ["inputs","configurations"],"every enumerated layout of up to six sources, radii, patch limits, strictness and seed",
 "Tests check out isolated sources; chains of overlaps, truncation, ties and strict mode are never exercised.",
 [S,"forcepho/region.py"],[("friends of friends",S+":grow_source, grow_scene, find_overlaps, make_group_catalog, overlap_circle"),("circular scene",S+":get_circular_scene")],
 ["checkout_region return value","make_group_catalog()"])
p("C05","The task queue delivers every result once under any completion order",
 "Whatever order and batching the workers finish in, every submitted task is sent to exactly one idle worker, its result is returned by exactly one collect call, a worker never holds two tasks, and at all times each worker is either idle or busy, never both. Submitting with no idle worker, blocking with nothing outstanding and closing with work outstanding are refused without losing state; a blocking collect returns at least one result and collecting all returns every outstanding one. Closing sends exactly one stop message to each worker.",
 ["schedules","histories"],"every sequence of submit/collect/close calls and every subset of completed workers at every collect, for one to three workers",
 "No test imports the dispatcher; results depend on message timing that a single run samples once.",
 ["forcepho/dispatcher.py"],[("queue",  "forcepho/dispatcher.py:MPIQueue.submit, collect, closeout")],
 ["messages sent on the communicator","return values of collect","idle/busy lists"],
 [("idle/busy","workers without/with a task","forcepho/dispatcher.py:MPIQueue")])
p("C06","A parallel run merges every patch exactly once and ends complete",
 "In a run of the parent loop with any number of workers and any order and batching of their answers, every dispatched patch is checked in exactly once with its own returned parameters, its own covariances and its own task id, including answers that arrive after the last patch was dispatched. When the loop ends every source has reached the target iterations, no source is left checked out, all workers have been told to stop, and the saved state and patch log describe the same run. No two patches in flight share a source, and each worker answers each task it receives and stops on the stop message.",
 ["schedules","histories"],"every completion schedule of the workers' answers (bounded number of deviations from first-come order) and every seed choice up to a bound, on enumerated small scenes",
 "The dispatcher is never run by the tests, and a real MPI run samples one schedule.",
 ["forcepho/dispatcher.py",S],[("parent event loop","forcepho/dispatcher.py:do_parent"),("worker loop","forcepho/dispatcher.py:do_child")],
 ["check-ins on the scene","state file and patch log","messages to workers"])
p("C07","A crash while saving never destroys the saved scene",
 "If the process dies, or a write fails, at any point while the scene state is being saved (explicitly, on flush at check-in, or on leaving the context), each of the state catalog and the log file on disk is afterwards either the complete previous version or the complete new one, and is readable. A completed save reproduces the in-memory catalog and logs exactly, next to whatever name the state file has. Leaving the context saves the current state also when an exception is propagating, and does not swallow it.",
 ["crash_points","fault_sequences"],"every point at which the on-disk state changes during a save, every size at which a write can be cut short, for first and repeated saves, over enumerated file names and histories",
 "Tests save once and never interrupt the save.",
 [S],[("state output",S+":SuperScene.writeout, __exit__, checkin_region(flush)")],
 ["files in the state directory after the crash"])
p("C08","Parameter vectors, proposals, catalogs and chains agree on every entry",
 "For every number of sources and bands, the flat parameter vector orders, per source, all band fluxes and then the shape parameters, and writing then reading it returns the same numbers in the same sources; the packed proposal, the exported catalog, the bounds vectors, the chain catalog, the sample catalog, the block covariances and the gradient vector all use that same correspondence. Sky offsets are removed and restored exactly once, so catalogs built from chains are in absolute coordinates. Building a scene from a catalog and exporting it again returns the catalog's parameters, and changing one source never changes another.",
 ["inputs","configurations"],"all source counts, band counts, band orders, source types and catalog column orders in the bounds, with all-distinct parameter values",
 "Tests use one or two sources in one or two bands, where many permutations coincide.",
 ["forcepho/sources.py","forcepho/model.py","forcepho/utils/chain.py","forcepho/utils/__init__.py",S,"forcepho/fitting.py"],
 [("scene vector","forcepho/sources.py:Scene.set_all_source_params, get_all_source_params, get_proposal, to_catalog, from_catalog"),("chain catalogs","forcepho/utils/chain.py:make_chaincat, get_sample_cat"),("bounds vectors",S+":bounds_vectors"),("gradient stacking","forcepho/model.py:FastPosterior.stack_grad"),("blocks","forcepho/utils/__init__.py:extract_block_diag")],
 ["return values of these functions"])
p("C09","The posterior depends on the position, never on the call history",
 "After any history of calls to the probability, gradient, negative-log-probability and residual functions, in any order, with repeated, mutated-in-place or revisited positions, each call returns exactly what a freshly built model returns at that position. The combined and separate probability and gradient calls agree, the negative form is their exact negation, and switching the volume correction or the prior on or off takes effect at the next call. Evaluations do not modify the caller's position array nor the returned arrays of earlier calls.",
 ["histories"],"every call sequence up to the depth bound over an alphabet of methods, positions, in-place mutations and mode switches",
 "Tests call the posterior at fresh positions along one sampler trajectory, so a stale cache is never observable.",
 ["forcepho/model.py"],[("cache","forcepho/model.py:Posterior.lnprob, lnprob_grad, nll, lnprob_and_grad; FastPosterior.evaluate")],
 ["return values of the posterior methods"],[("cached position and values","last evaluated point","forcepho/model.py:Posterior")])
p("C10","Bounded transforms and priors form a consistent density",
 "For every vector of bounds with lower below upper and every finite unconstrained position, the constrained parameters lie within the bounds, increase with the position, and the inverse maps them back; the reported Jacobian, log-determinant and its gradient are mutually consistent and finite for any number of parameters. Every usable prior's gradient is the derivative of its log-probability and is scaled to its range. The posterior equals likelihood plus prior (plus the log-determinant when sampling), with the gradient transformed by the same Jacobian.",
 ["inputs","configurations"],"all combinations of bounds (including zero-valued and negative ones), positions and dimensions in finite alphabets",
 "Tests use a handful of parameters and positions near the centre of the prior.",
 ["forcepho/model.py","forcepho/priors.py"],[("transforms","forcepho/model.py:Transform, BoundedTransform, Posterior.make_transform"),("priors","forcepho/priors.py:LogPrior, ExpBeta"),("assembly","forcepho/model.py:FastPosterior.evaluate")],
 ["return values"])
p("C11","Likelihood and residuals equal the Gaussian-mixture image model",
 "For every scene, set of bands and exposures and pixel data within the limits, the residual of every pixel is the data minus the sum over sources of flux times the source mixture convolved with the exposure's point-spread mixture, evaluated at that pixel through that exposure's astrometry and flux calibration, and the chi-square of a band is the weighted sum over exactly that band's pixels. Pixels of zero weight contribute nothing, sources are interchangeable, the contribution of each source is proportional to its flux, and data of one band or exposure never influences another. The fast kernel agrees with the slow reference implementation.",
 ["inputs","configurations"],"all combinations of source counts, band and exposure layouts, point-spread mixtures, shapes, offsets and weights from finite alphabets",
 "Tests compare one or two images by eye or to a loose tolerance.",
 ["forcepho/src/compute_gaussians_kernel.cc","forcepho/src/common_kernel.cc","forcepho/src/matrix22.cc","forcepho/src/patch.cc","forcepho/src/proposal.cu","forcepho/proposal.py","forcepho/patches/patch.py","forcepho/slow/gaussmodel.py","forcepho/sources.py"],
 [("kernel","forcepho/src/compute_gaussians_kernel.cc"),("convolution of mixtures","forcepho/src/common_kernel.cc"),("packing","forcepho/patches/patch.py"),("slow model","forcepho/slow/gaussmodel.py")],
 ["chi2 and residual arrays returned by the proposer"])
p("C12","Likelihood gradients are the derivatives of the likelihood",
 "The gradient of the chi-square with respect to every flux, position and shape parameter of every source, in every band and summed over exposures, equals the derivative of the chi-square that the same code computes. Pixels of zero weight contribute nothing to it, and the flux gradient in one band is independent of the other bands. This holds for the fast kernel and for the slow reference implementation.",
 ["inputs","configurations"],"all combinations of source counts, band/exposure layouts and parameter values from finite alphabets, every parameter perturbed",
 "Tests look at no gradients; a sampler with a wrong gradient still runs.",
 ["forcepho/src/compute_gaussians_kernel.cc","forcepho/src/common_kernel.cc","forcepho/src/matrix22.cc","forcepho/slow/gaussmodel.py","forcepho/slow/likelihood.py","forcepho/sources.py","forcepho/model.py"],
 [("kernel derivatives","forcepho/src/compute_gaussians_kernel.cc, common_kernel.cc"),("amplitude derivatives","forcepho/sources.py:Galaxy.damplitude_drh, damplitude_dsersic")],
 ["chi2 derivatives returned by the proposer; lnprob_grad"])
p("C13","Subtracting fixed sources is exact, block-independent and repeatable",
 "Preparing a patch subtracts every big and fixed source exactly once from the pixel data, whatever their number and however they are split into blocks, and leaves the active sources' model ready, with the same result as fitting data from which they had been subtracted beforehand. Preparing again after rebuilding the pixel data gives the same model, whatever was prepared before, and preparing again without rebuilding is refused rather than subtracting twice. Weights, pixel positions and the caller's catalogs are never changed.",
 ["histories","configurations"],"all splits of up to four sources into big, fixed and active, all block sizes, and all call histories of build and prepare up to the depth bound",
 "Tests prepare a patch once with no or few fixed sources.",
 ["forcepho/patches/device_patch.py","forcepho/patches/patch.py"],[("block subtraction","forcepho/patches/device_patch.py:subtract_fixed, prepare_model"),("pointer swap","forcepho/patches/device_patch.py:CPUPatchMixin.swap_on_device")],
 ["data and residual arrays, posterior values"])
p("C14","Linear flux solutions recover the fluxes that made the data",
 "For data generated as a sum of the modelled sources, the linear flux optimisation returns, per band in band order, the generating fluxes whatever the fluxes in the supplied catalog (including zero or negative ones), with a precision matrix equal to the weighted inner products of the unit-flux source images. The unit-flux images reproduce the model image when multiplied by the fluxes, and zero-weight pixels do not influence the result. In general the result is the weighted least-squares optimum.",
 ["inputs","configurations"],"all combinations of source counts, bands, exposures, true fluxes and catalog fluxes from finite alphabets",
 "No test calls the linear optimisation.",
 ["forcepho/fitting.py","forcepho/patches/device_patch.py"],[("least squares","forcepho/fitting.py:optimize_one_band, optimize_fluxes"),("design matrix","forcepho/patches/device_patch.py:design_matrix")],
 ["returned fluxes and precisions"])
p("C15","A patch packs every region pixel of every overlapping exposure exactly once",
 "Building a patch packs, in band order and within a band in exposure order, exactly the pixels with a corner inside the region, of every exposure in the requested bands that has such pixels, each once, with its own coordinates, value (minus the configured background) and inverse uncertainty; the band and exposure index arrays partition the pixel array. Pixels with non-finite data or unusable uncertainty get zero weight, padding pixels have zero weight and negative coordinates, and a signal-to-noise cap lowers weights only where it applies. An exposure without pixels in the region is left out, and a region without any is an error.",
 ["inputs","configurations"],"all combinations of image sizes, offsets, bands, bad-pixel patterns, paddings and region radii from finite alphabets, for file-, store- and dictionary-backed patches",
 "Tests use one region fully inside one image per band.",
 ["forcepho/patches/pixel_patch.py","forcepho/patches/patch.py","forcepho/region.py"],[("packing","forcepho/patches/pixel_patch.py:PixelPatch.build_patch, pack_pix"),("exposure and pixel selection","forcepho/patches/pixel_patch.py:StorePatch, FITSPatch, DirectPatch find_exposures/find_pixels"),("splitting","forcepho/patches/patch.py:split_pix, split_band")],
 ["xpix, ypix, data, ierr, band_start, band_N, exposure_start, exposure_N"])
p("C16","Pixel, metadata and point-spread stores return what was put in",
 "Adding exposures to the pixel store and reading them back returns, for every pixel, the background-subtracted and calibrated value and inverse uncertainty at its own coordinates, with masked, bad-bit and non-finite pixels at zero weight; adding an exposure again replaces it, other exposures are untouched, and the caller's arrays are not modified. The metadata store finds exactly the exposures of the requested bands whose image contains a position, and its headers survive writing and reading. A point-spread lookup returns the mixture of the nearest tabulated location of that band. Exposures are named by the path of their image below the frame directory, and the table of the metadata store lists every exposure with its own values.",
 ["histories","inputs"],"all sequences of add/re-add/reopen up to the depth bound over image shapes, masks and calibration options, and all positions on grids over square and non-square images",
 "No test writes or reads a store.",
 ["forcepho/patches/storage.py"],[("pixel store","forcepho/patches/storage.py:PixelStore.add_exposure, superpixelize, pixel_coordinates"),("metadata store","forcepho/patches/storage.py:MetaStore"),("psf store","forcepho/patches/storage.py:PSFStore")],
 ["HDF5/JSON contents, find_exposures, lookup"])
p("C17","Sky-region overlap and containment are geometrically exact",
 "Two convex regions are reported as overlapping exactly when their bounding polygons share a point, in either order of the arguments, and a point is reported inside a convex polygon exactly when it is strictly inside, for either vertex orientation. A region selects exactly the (super-)pixels with at least one corner inside it, a region's bounding box contains the region, and a region overlaps an image exactly when its bounding box meets the image's sky bounding box.",
 ["inputs"],"all pairs of rectangles and convex polygons on integer grids, all grid points, all circles and pixel grids in the bounds",
 "The doctests sample three rectangles and three points.",
 ["forcepho/region.py"],[("separating axes","forcepho/region.py:polygons_overlap"),("point in polygon","forcepho/region.py:polygon_contains"),("pixel selection","forcepho/region.py:CircularRegion.contains, RectangularRegion.contains, overlaps, bounding_box")],
 ["return values"])
p("C18","Results on disk reproduce the run",
 "A patch result written to disk and read back has the same chain, active, fixed and bounds catalogs, region, bands and covariance, and yields the same sample catalogs; residual files placed into images put every packed pixel at its own coordinates and touch no other pixel. Combining the patches of a run gives, for every source, the samples, probability and patch id of the last patch in run order in which it was active, and the images show the last patch in run order for every pixel. Sources fitted in several patches are reported with exactly the chains of those patches, and with the mean and spread of the last samples of each.",
 ["histories","inputs"],"all run orders and patch numberings (including more than ten patches), overlap patterns, source counts and band counts in the bounds",
 "Tests write one patch and never combine several.",
 ["forcepho/fitting.py","forcepho/postprocess.py","forcepho/utils/io.py","forcepho/utils/__init__.py","forcepho/utils/chain.py"],
 [("result files","forcepho/fitting.py:Result.fill, dump_to_h5, read_from_h5"),("residual files","forcepho/utils/io.py:write_residuals; forcepho/postprocess.py:Residuals.fill_images"),("run combination","forcepho/postprocess.py:postsample_catalog, write_images, find_multipatch, flux_unc_linear")],
 ["files and returned catalogs"])
p("C19","Prior bounds always bracket the catalog values",
 "For every catalog and every bounds option, the lower bound of each parameter is below its upper bound, flux and position bounds strictly contain the catalog value (also for zero and negative fluxes) and have the requested width, and shape bounds equal the requested ranges. Adjusting bounds only widens them and moves catalog fluxes only when they are outside, to just inside their own bounds. Checking bounds raises exactly when some parameter of some source is not strictly inside.",
 ["inputs","configurations"],"all combinations of fluxes, uncertainties, positions, widths and options from finite alphabets",
 "Tests build bounds for one bright source.",
 [S],[("bounds",S+":make_bounds, flux_bounds, adjust_bounds, check_bounds")],
 ["returned bounds catalog"])
p("C20","Configuration layers override each other in the documented order",
 "Every option takes its command-line value if given there (in any accepted spelling, and even if it equals the default), else its value in the configuration file, else its default; options only present in the file are kept. Store file names are placed under the store directory once, environment variables in text options are expanded, lists become arrays and data-type names become data types. The bounds settings handed to the scene contain exactly the range and width options that are set.",
 ["configurations"],"all subsets of layers for representative options of every kind, and all argument spellings and orders",
 "No test reads a configuration file.",
 ["forcepho/config.py"],[("layering","forcepho/config.py:parse_all, new_args, update_config, rectify_config, read_config, yaml_to_namespace, make_bounds_kwargs")],
 ["returned namespace"])
p("C21","Catalog ingestion keeps every source and normalises angles and shapes",
 "Rectifying an input catalog keeps every source in order with all its band fluxes and identifiers, clips each shape parameter into its requested range and leaves values already inside unchanged, and rejects missing bands and non-finite values; it never modifies the input. Position angles are converted to the same line orientation (equal modulo half a turn, after the requested quarter-turn and sign reversal) within a quarter turn of zero. Setting a scene's catalog numbers the sources consecutively and makes all of them available, and a scene's original copy never changes.",
 ["inputs","configurations"],"all combinations of angles on a grid over several turns, shape values around the limits, column orders and options",
 "Tests ingest catalogs that are already clean.",
 [S],[("rectification",S+":rectify_catalog, sourcecat_dtype, SuperScene.set_catalog"),("angles",S+":convert_pa")],
 ["returned catalog"])
p("C22","Scenes beyond the compiled limits are refused before evaluation",
 "Every evaluation within the compiled limits on sources, bands and mixture radii writes only inside its own arrays and returns results for exactly its own sources and bands; a scene or patch exceeding a limit is refused with an error before any kernel code runs. The host-side structures (patch, source and response) have exactly the layout, sizes and limits that the kernel was compiled with.",
 ["inputs","configurations"],"all source, band and radius counts up to and beyond the limits, and every field of every structure",
 "Tests stay at one or two sources and bands, far from the limits.",
 ["forcepho/proposal.py","forcepho/kernel_limits.py","forcepho/src/kernel_limits.h","forcepho/src/patch.cc","forcepho/src/proposal.cu","forcepho/patches/patch.py"],
 [("limits","forcepho/kernel_limits.py, forcepho/src/kernel_limits.h"),("structures","forcepho/proposal.py dtypes; forcepho/patches/patch.py:PatchBase"),("dispatch","forcepho/proposal.py:CPUProposer.evaluate_proposal")],
 ["returned arrays, exceptions, sanitizer reports"])
p("C23","Local astrometry reproduces the image's sky-to-pixel mapping",
 "For every source and exposure, the packed reference pixel, reference coordinate and local matrices predict the pixel position of any sky position near the source as the image's world-coordinate system does, with distortion or without, at any declination, orientation, handedness and pixel scale. The angular-scale matrix and the coordinate matrix differ exactly by the cosine-of-declination and arcsecond factors, and removing then restoring the sky zero-point returns the original source positions. Converting sky to pixel coordinates from a residual file uses the same mapping.",
 ["inputs","configurations"],"all combinations of declinations, rotations, parities, pixel scales, distortion on/off, reference offsets and sky offsets from finite alphabets",
 "Tests use one undistorted, unrotated image.",
 ["forcepho/utils/wcs.py","forcepho/patches/patch.py"],[("local scale","forcepho/utils/wcs.py:scale_at_sky, sky_to_pix"),("packing","forcepho/patches/patch.py:_pack_astrometry, zerocoords, unzerocoords")],
 ["CW, D, crpix, crval arrays"])
p("C24","Optimisation and sampling stay in bounds and report what was evaluated",
 "The sampling and optimisation drivers evaluate a model only at finite positions inside its bounds, beginning at the given start. Every row of a returned chain is a position that was evaluated, in constrained parameters and inside the bounds; the chain holds exactly the requested draws (and the tuning rows when kept) with the matching ln-probabilities, and the reported call count and starting position are right; the same seed reproduces the chain. The sampler's mass matrix is the supplied covariance, else the covariance of the supplied trace, else the identity, changed only by a common addition to its diagonal when it is not positive definite, and the caller's arrays are never modified. Optimisation never returns a worse point than its start, and what it reports is the objective at the returned position. The optimisation task returns the catalog at the optimum, with linearly optimised fluxes and bounds from their uncertainties when asked, leaving other columns, the region, the fixed sources and the caller's catalog alone; the sampling task starts at the catalog's values with the task's mass matrix. What both tasks work on is the posterior of that task alone: tasks run one after another on one patcher answer as on a new one.",
 ["inputs","configurations"],"every combination of dimension, bounds, start, initial covariance, number of draws and warm-up and driver option from finite alphabets",
 "No test runs a sampler or an optimiser; results depend on bounds, starts and covariances that one run samples once.",
 ["forcepho/fitting.py","forcepho/tasks.py"],[("samplers","forcepho/fitting.py:run_lmc, get_pot"),("optimisers","forcepho/fitting.py:run_opt, run_opt_bounded"),("tasks","forcepho/tasks.py:optimize, sample")],
 ["evaluated positions, Result attributes, returned catalogs"])
p("C25","PSF mixtures describe the PSF image they were fitted to",
 "Fitting an image with a mixture of Gaussians by expectation-maximisation returns, for every start that does not degenerate, positive amplitudes that sum to one, positive widths and correlations below one, with the mean and second moments of the image; the reported likelihood, model image and residual norms are those of the returned mixture, a smaller threshold never gives a worse fit, starts do not influence each other, asking for one answer returns the one with the smallest residual, and the image is left alone. Converting a fit gives the same mixture in detector pixels with x along the columns, relative to the given centre, also for non-square images and cut-outs, and the mixture file holds what is returned. A PSF asked for by its full width at half maximum has that width, and one read from a file is the stored one.",
 ["inputs","configurations"],"every combination of image shape, true mixture, number of components, start, threshold, cut-out, oversampling and file format from finite alphabets",
 "No stable test fits or converts a mixture; results depend on the shape of the image and on the start.",
 ["forcepho/mixtures/psf_mix_em.py","forcepho/mixtures/utils_em.py","forcepho/slow/psf.py"],
 [("EM","forcepho/mixtures/psf_mix_em.py:fit_mvn_mix"),("file","forcepho/mixtures/utils_em.py:psf_mixture"),("conversion","forcepho/slow/psf.py:params_to_gauss, make_psf, get_psf, PointSpreadFunction")],
 ["answers of fit_mvn_mix, mixture file, PSF objects"])
p("C26","Posterior summaries and profile quantities follow from the samples",
 "A percentile catalog holds, for every source and sampled column, the requested percentiles of that source's samples in the requested order, keeps the other columns, and records the percentiles and columns, from an array or from a file. Combining sources sums the fluxes and averages the positions of exactly the members of each group, sample by sample. Tables are written and appended without loss (replacing an earlier file of that name), file by file in the given order, each extension under its name with its header keywords, and inputs are left alone. The flux fraction within a radius, the Kron radius (also within a maximum radius), the surface brightness at the half-light radius and the isophotal radius of a Sersic profile are the corresponding integrals of that profile.",
 ["inputs","configurations"],"every combination of row count, sample count, bands, percentile list, group definition, file list, Sersic index, size, aperture and flux from finite alphabets",
 "No test calls these functions.",
 ["forcepho/utils/catalog.py","forcepho/utils/profile.py"],
 [("percentiles and groups","forcepho/utils/catalog.py:pctile_cat, combine_chains"),("tables","forcepho/utils/catalog.py:write_table, append_catalogs"),("profiles","forcepho/utils/profile.py")],
 ["returned catalogs, files, numbers"])
p("C27","Reference sources and work plans render what their parameters describe",
 "Every kind of source object (star, simple, multi-component, Sersic, fixed-profile and conformal-shear galaxies) rendered on a postage stamp gives the image of its parameters: the flux of the stamp's band times the calibration, its profile mixture sheared, rotated and convolved with the stamp's point-spread mixture (given in pixels or arcseconds), at the position the stamp's astrometry assigns, with derivatives for every parameter of that kind, whether rendered by the source, by the stamp, or from the per-stamp metadata of the source. A work plan's image, residual, ln-likelihood and gradient are those of the sum of its sources: sources off the stamp contribute nothing, fixed ones their light but no gradient, active ones both, in the fast and the plain plan alike and whatever was evaluated before. Parameter vectors set and read per band or for all bands address exactly those entries and vectors of the wrong length are refused. The circular profile integrates the same mixture; shear and axis-ratio parameterisations describe the same galaxy; a stamp converts between sky and pixel consistently and writes its image, uncertainty and astrometry unchanged.",
 ["inputs","configurations","histories"],"every combination of source kind, bands, stamp astrometry, point-spread units and components, every assignment of off / fixed / active to the sources of a plan, and every sequence of calls to a small depth",
 "The slow tests compare one galaxy with galsim, which is not available, and never mix fixed and active sources, units, or source kinds.",
 ["forcepho/sources.py","forcepho/slow/gaussmodel.py","forcepho/slow/likelihood.py","forcepho/slow/stamp.py","forcepho/slow/psf.py"],
 [("sources","forcepho/sources.py:Source.render, Galaxy, SimpleGalaxy, Star, ConformalShearGalaxy, Scene.param_indices"),("rendering","forcepho/slow/gaussmodel.py:convert_to_gaussians, get_gaussian_gradients, compute_gaussian"),("plans","forcepho/slow/likelihood.py:WorkPlan, FastWorkPlan, plan_sources, lnlike_multi, make_image"),("stamps","forcepho/slow/stamp.py:PostageStamp")],
 ["images, gradients, ln-likelihoods, files"])
p("C28","The GPU kernel computes the image model under every thread schedule",
 "For every patch whose exposures are whole warps of pixels, every block size of whole warps up to the default and every order in which the threads, warps and blocks of a launch proceed, the CUDA kernel terminates and returns, band by band, the chi-square, the derivatives with respect to all parameters of all sources, and (when asked for) the residual of every pixel that the image model and the CPU kernel give; fewer, as many and more pixels than threads, several exposures per band and zero-weight pixels included. No two threads touch the same memory, one of them writing, without synchronisation; all threads of a block reach every barrier and all lanes every warp operation; the kernel stays inside the arrays and the shared memory it was given, reads nothing before it is set, and writes to nothing but its outputs.",
 ["schedules","inputs","configurations"],"every order of the atomic additions of a block (up to equivalence) for two warps, every order within a number of delays for more, all small patches and launch geometries",
 "No test runs the CUDA kernel, there is no GPU here, and on one a race or a missing lane shows only in some launches.",
 ["forcepho/src/compute_gaussians_kernel.cu","forcepho/src/common_kernel.cc","forcepho/proposal.py"],
 [("kernel","forcepho/src/compute_gaussians_kernel.cu:EvaluateProposal, CreateImageGaussians, Accumulator"),("launch","forcepho/proposal.py:GPUProposer")],
 ["chi-square, derivatives, residual arrays; memory accesses"])
p("C29","Patches on a GPU hold what was packed, whatever was done before",
 "Patches with the GPU mix-in behave as the same patches on the CPU in every sequence of building, preparing (with or without fixed and big sources, in any block size), evaluating, retrieving data or residuals, computing design matrices, sending again, and freeing: same ln-probability, gradient, residuals, data and design matrices, the same refusal to subtract twice, for patches that read the pixel store or FITS images or are given their pixels. Every array the device-side structure points to is allocated, complete and holds what was packed; memory is used or freed only while it is allocated; freeing a patch releases everything it has on the device, and a freed or rebuilt patch can be prepared again. Scenes with more sources than the kernel was compiled for are refused before launch.",
 ["histories","inputs"],"all sequences of 9 operations to depth 4 (5), regions x band requests x sources x block sizes, numbers of sources around the compiled limit",
 "No test uses the GPU classes; use of freed or stale device memory depends on the sequence of calls.",
 ["forcepho/patches/device_patch.py","forcepho/patches/patch.py","forcepho/proposal.py"],
 [("device memory","forcepho/patches/device_patch.py:GPUPatchMixin"),("sequence","forcepho/patches/device_patch.py:DevicePatchMixin.subtract_fixed, design_matrix"),("launch","forcepho/proposal.py:GPUProposer")],
 ["ln-probabilities, gradients, retrieved arrays, device allocations"])
p("C30","Corner plots show the samples they are given",
 "Quantiles of samples lie between the extremes, never decrease with the requested fraction, are the smallest and largest sample at 0 and 1, equal the linearly interpolated percentiles for equal weights, do not depend on the order of the (weighted) samples or the unit of the weights, and enclose the requested fraction of the weight up to single samples; fractions outside 0 to 1 and weights of another number are refused. Ranges are kept as given or are the equal-tailed quantiles. The two-dimensional density counts every sample within range in its cell with its weight, smoothing keeps the total and the place, cells are at their positions, and each contour level encloses the stated fraction of the density. In a corner plot every diagonal panel shows the histogram of its parameter (scaled to a peak if asked), every panel of the chosen triangle the parameters of its column and row over their ranges, the other triangle nothing, and labels, titles, quantile lines, marked points and true values are in the panels of their parameters. Samples and weights are left alone.",
 ["inputs","configurations"],"every order of up to 5 (6) samples with weights from a finite alphabet, every range request, clouds x smoothing x levels, and every combination of the drawing options",
 "No test calls these functions, and a figure in the wrong panel or a biased quantile raises no error.",
 ["forcepho/utils/corner.py"],
 [("quantiles and ranges","forcepho/utils/corner.py:_quantile, quantile, get_spans"),("densities","forcepho/utils/corner.py:twodhist, marginal"),("panels","forcepho/utils/corner.py:corner, allcorner, show_extras, prettify_axes, scatter")],
 ["returned numbers, artists on the axes"])
p("C31","Gaussian approximations of Sersic profiles are measured against the profile",
 "The Sersic profile is the exponential law normalised at the radius that encloses half of its light, the radius of a fraction of the light encloses that fraction, and the smoothed profile is the convolution of the profile with the round Gaussian (indices 1 to 4, smoothing up to half of the half-light radius), joining the profile itself far out. The light of a mixture within a radius, its profile, and the distance between a mixture and a profile (with its penalties on steps and on wings) are the corresponding sums, for given and for free dispersions; a mixture is at distance zero from itself. A fit returns one amplitude (and, with free dispersions, one dispersion) per Gaussian, reports the distance of what it returns, which is between the optimum and that of no Gaussians at all, and the file and the table of a grid of fits hold, for each index and size in order, the normalised amplitudes, the profiles, the model of these amplitudes and their distance.",
 ["inputs","configurations"],"every combination of index, size, smoothing, dispersions and amplitudes from finite alphabets; grids of fits",
 "No test calls these functions.",
 ["forcepho/mixtures/sersic_mix_oned.py"],
 [("profiles","forcepho/mixtures/sersic_mix_oned.py:sersic_profile, rfrac_from_halfn, gauss_cfd, normal_oned"),("fits","forcepho/mixtures/sersic_mix_oned.py:chisq, fit_gaussians, fit_profiles, amplitude_table")],
 ["returned numbers, files"])
p("C32","Figures of chains and residuals show the fitted values",
 "A figure of the chain of a source has one panel per requested band and shape parameter, in order and labelled with it, showing exactly that source's samples of it in absolute coordinates over that source's own bounds (or over the requested span of the samples when there are none) and marking its true value where given; the document of all chains of a result has one such page per source, for any number of bands, with or without tuning samples and bounds. The figure of an exposure's residuals shows data, residual and model of every pixel at its own coordinates on one common scale, with the residual of zero-weight pixels left blank, marks sources at the pixels where they are, in the style asked for and whatever was marked before, and the document of all residuals shows every patch of the run once, in order. The half-light radius of combined sources is, for each requested posterior sample, that of the summed image of exactly the chosen sources in the chosen band.",
 ["inputs","configurations","histories"],"every combination of small results (sources, bands, samples, tuning, bounds) and options, every small set of pixels with padding and zero weights, every short sequence of marking calls, every number of patches and patches per page, every selection of sources, samples and steps from finite alphabets",
 "No test draws anything, and a value in the wrong panel or at the wrong place raises no error.",
 ["forcepho/fitting.py","forcepho/postprocess.py"],
 [("chains","forcepho/fitting.py:Result.show_chain; forcepho/postprocess.py:chain_pdf"),("residuals","forcepho/postprocess.py:Residuals.show, Residuals.mark_sources, show_exp, residual_pdf"),("sizes","forcepho/postprocess.py:combined_rhalf, forcepho_slow_model")],
 ["artists on the axes, saved figures, returned numbers"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
