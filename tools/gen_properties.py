#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

add("P01","Model image is the exact per-pixel sum of its components",
 "A computed model image holds, at every pixel, the sum of the brightness of every non-point-source component evaluated at that pixel's own one-based column/row coordinates, where each component receives its own consecutive slice of the parameter list and the centre of the function set it belongs to, and point sources are added exactly once after PSF convolution. Every pixel is written exactly once and independently of every other pixel, so the image does not depend on the number of threads or the work-sharing chunk size. The single-component image is made the same way with that one component only.",
 ["inputs","configurations","schedules"],
 "all image sizes, numbers of function sets and components, parameter vectors, PSF sizes, thread counts and chunk sizes",
 "The tests compare a few small configurations (one or two components, one size) after the fact; they cannot range over image shapes, component counts, parameter layouts and schedules.",
 ["core/model_object.cpp"],
 [("model image generation","ModelObject::CreateModelImage"),("single-component image","ModelObject::GetSingleFunctionImage"),
  ("model set-up of image geometry","ModelObject::SetupModelImage"),("function-set bookkeeping","ModelObject::AddFunction / DefineFunctionSets")])
add("P02","Masked pixels never influence the fit",
 "A pixel that the mask marks bad (under either mask convention) contributes exactly nothing to any fit statistic, deviate vector or valid-pixel count, whatever value, including NaN or infinity, the data, error map or noise model has there. Every unmasked pixel counts exactly once. Before fitting, unmasked pixels whose data value or user-supplied error value is not finite are taken out of the fit and of the valid-pixel count like masked ones; if an unmasked pixel is then left with a negative or non-finite weight, or no valid pixel is left, preparation for fitting fails instead of using it silently.",
 ["inputs","histories"],
 "all masks, data values (including NaN/inf), weights, mask conventions, and orders of supplying mask/errors",
 "Tests use tiny hand-made 2x2 to 10x10 images with benign values in masked pixels; independence of every possible masked value is a 2-safety property over all inputs.",
 ["core/model_object.cpp"],
 [("mask storage and convention","ModelObject::AddMaskVector"),("mask applied to weights","ModelObject::ApplyMask"),
  ("data vetting","ModelObject::VetDataVector"),("weight vetting","ModelObject::CheckWeightVector"),
  ("preparation","ModelObject::FinalSetupForFitting")])
add("P03","Fit statistics and deviates have their defining values",
 "The reported chi-squared, Cash and Poisson-MLR statistics equal their defining sums over the data pixels with the model sampled at the same pixel, and the deviates vector handed to the Levenberg-Marquardt solver has exactly one entry per data pixel whose sum of squares equals the scalar statistic (chi-squared or Poisson-MLR, the latter for a model that is positive everywhere; where the model is not positive its logarithm is replaced by log(1e-25)) for the same parameters. With a PSF the padding border never enters the statistic; in bootstrap mode the same formulas hold over the resampled pixel list.",
 ["inputs","configurations"],
 "all data/model/weight images, image shapes, PSF paddings, parameter vectors, with and without bootstrap resampling",
 "Unit tests check a few 4-pixel examples; they do not vary shape, padding and resampling together, and sums over arbitrary images need induction.",
 ["core/model_object.cpp","core/mp_enorm.cpp"],
 [("chi-squared","ModelObject::ChiSquared"),("Cash / Poisson-MLR","ModelObject::CashStatistic"),
  ("deviates","ModelObject::ComputeDeviates"),("dispatch","ModelObject::GetFitStatistic"),
  ("log-factorial-like extra terms","ModelObject::GenerateExtraCashTerms"),("Poisson-MLR deviate","ModelObject::ComputePoissonMLRDeviate")])
add("P04","Pixel weights follow the supplied noise information",
 "The per-pixel weight is 1/sigma for an error map holding sigmas, 1/sqrt(variance) for one holding variances, and the square root of the supplied value for a weight map; without an error map it is derived from data (or, when requested, from the current model) as 1/sqrt((value + sky)/effective gain + ncomb * readnoise^2 / (effective gain)^2) with effective gain = gain * exposure time * ncomb, where the data-based form treats a negative data + sky as zero. Masked pixels have weight zero. Every pixel's weight depends only on that pixel.",
 ["inputs","configurations"],
 "all images, gains, read noises, exposure numbers, error-map types and image shapes",
 "Tests check a handful of constant images; the per-pixel formula for every image, gain and shape is a universal statement.",
 ["core/model_object.cpp"],
 [("error map conversion","ModelObject::AddErrorVector"),("data-based errors","ModelObject::GenerateErrorVector"),
  ("model-based errors","ModelObject::UpdateWeightVector"),("gain/noise scaling","ModelObject::AddImageCharacteristics")])
add("P05","PSF convolution is set up so that it is a true image convolution",
 "For every image and PSF size the padded arrays are large enough that no light wraps around into the image, the PSF is normalised to unit sum (unless normalisation is disabled) and placed so that its centre pixel lands on the origin with every PSF pixel copied exactly once and all other padded pixels zero. The image is zero-padded, multiplied with the PSF transform frequency by frequency, rescaled by the padded size, and copied back pixel for pixel, so convolving neither shifts, scales nor mixes rows.",
 ["inputs","configurations"],
 "all image sizes and PSF sizes (odd/even, non-square, PSF larger than image) and pixel values",
 "Regression tests convolve two or three fixed images with one square PSF; non-square/even sizes and every pixel index are outside what they reach.",
 ["core/convolver.cpp"],
 [("padding and allocation","Convolver::DoFullSetup"),("wrap-around placement","Convolver::ShiftAndWrapPSF"),
  ("convolution","Convolver::ConvolveImage"),("input set-up","Convolver::SetupPSF / SetupImage")])
add("P06","Oversampled regions replace exactly their own pixels with block means",
 "An oversampled region replaces exactly the main-image pixels inside the requested section, each by the mean of the corresponding block of oversampled pixels at the matching position, and leaves every other pixel untouched. Oversampled pixels are evaluated at the sub-pixel coordinates that tile the main pixel uniformly, for every region position, shape, oversampling scale and PSF padding.",
 ["inputs","configurations"],
 "all region corners and shapes (including non-square), oversampling scales, oversampled-PSF sizes and main-image paddings",
 "Tests use square regions and scale 3 or 5 on small images; wrong row/column mix-ups show only with other shapes.",
 ["core/downsample.cpp","core/oversampled_region.cpp","core/psf_oversampling_info.cpp"],
 [("block average","DownsampleAndReplace"),("region geometry and coordinates","OversampledRegion::SetupModelImage / ComputeRegionAndDownsample"),
  ("oversampling descriptor","PsfOversamplingInfo")])
add("P07","Output images line up pixel for pixel with the data",
 "The model, residual, weight and expanded-model images handed back to the user have the data image's dimensions, and the value at each pixel belongs to the same pixel of the data: model and residual are cropped out of the PSF-padded model at the padding offset, residual = data - model, and the weight image holds the inverse-variance style weight in use (zero where masked).",
 ["inputs","configurations"],
 "all image shapes, PSF paddings and histories of calls requesting output images",
 "Existing tests compare images mostly without PSF padding or with square padding.",
 ["core/model_object.cpp"],
 [("cropped model","ModelObject::GetModelImageVector"),("residual","ModelObject::GetResidualImageVector"),
  ("weight image","ModelObject::GetWeightImageVector"),("data copy","ModelObject::GetDataVector")])
add("P08","Image functions produce their documented profile",
 "Each image function returns, at any position, the documented analytic brightness for its parameters: centred on the given position, position angle counter-clockwise from +y, elliptical (or generalised elliptical) isophotes with the given axis ratio, and proportional to its intensity parameters. Sub-pixel integration near the centre is the mean of the same profile over a regular grid inside the pixel, so switching it on never shifts or rescales the profile; functions defined in three dimensions return the line-of-sight integral of their documented density, inclined as given. Evaluating a position changes nothing in the function, so positions can be evaluated in any order or by several threads at once.",
 ["inputs"],
 "all parameter values in each function's valid domain and all pixel positions",
 "The unit tests sample a few functions at a few positions with round numbers; most functions have no test of rotated, off-axis or non-default shapes.",
 ["function_objects/"],
 [("per-function set-up and value","*::Setup / *::GetValue / *::CalculateIntensity"),("generalised ellipse","helper_funcs.cpp")])
add("P09","Pixel scale, rotation and intensity scale adjust every function alike",
 "When a function of the standard build is evaluated for an image with its own pixel scale, rotation and intensity scale, the result equals evaluating the same function with every length parameter divided by the pixel scale (and every inverse length multiplied by it), the position angle decreased by the image rotation, every intensity or total-counts parameter multiplied by the intensity scale and all other parameters unchanged. The list of adjusted parameters a function reports holds exactly those values and touches no other function's parameters; with the default image description nothing changes.",
 ["inputs","configurations"],
 "all image functions, parameter values and image descriptions",
 "Multi-image tests use two or three functions; the adjustment must agree for every function and every parameter.",
 ["function_objects/"],
 [("adjusted parameters","*::AdjustParametersForImage"),("use during set-up","*::Setup"),("image description","FunctionObject::SetImageParameters")])
add("P10","Reported fluxes are those of the components of the model",
 "The total flux reported for a model is the sum of the fluxes of its components, each being either that component's analytic total for its own parameters or the sum of its brightness over the pixels of the requested grid with the component placed in its middle (at half the grid size), with background-type components contributing nothing, and every component computed with its own slice of the parameter list.",
 ["inputs","configurations"],
 "all models, parameter vectors and flux-grid sizes",
 "A single test checks a single configuration within a tolerance.",
 ["core/model_object.cpp","function_objects/"],
 [("flux estimation","ModelObject::FindTotalFluxes"),("analytic totals","*::TotalFlux")])
add("P11","Bootstrap resampling draws only valid pixels, uniformly",
 "Every bootstrap sample consists of exactly as many entries as there are valid pixels (unmasked, with positive weight), each the index of a valid pixel inside the image, with every valid pixel able to be drawn; the statistic and deviates in bootstrap mode touch only those pixels. Best-fit rows stored from bootstrap iterations keep parameter order and refer to the original image, and the summary statistics reported are those of exactly the successful iterations.",
 ["inputs","histories"],
 "all masks, image sizes and random-generator outputs in its documented range",
 "Random resampling is sampled a handful of times by tests; the extreme generator outputs never occur.",
 ["core/model_object.cpp","core/mersenne_twister.cpp","core/bootstrap_errors.cpp"],
 [("bootstrap preparation","ModelObject::UseBootstrap"),("resampling","ModelObject::MakeBootstrapSample"),("generator range","genrand_real2")])
add("P12","Solvers honour fixed parameters and limits",
 "Every parameter vector on which a solver evaluates the model has each limited parameter within its limits and each fixed parameter at its given value, and the returned best-fit vector satisfies the same. The limits each solver works with are exactly the ones the user supplied, parameter by parameter.",
 ["inputs","histories"],
 "all parameter limits, start vectors, fit statistics and random sequences",
 "Solver runs in tests are few and rarely touch a boundary; the guarantee covers every iteration of every run.",
 ["solvers/DESolver.cpp","solvers/diff_evoln_fit.cpp","solvers/levmar_fit.cpp","solvers/nmsimplex_fit.cpp","solvers/nlopt_fit.cpp","solvers/mpfit.cpp"],
 [("DE bounds","DESolver::Solve / Setup"),("limit marshalling","DiffEvolnFit, LevMarFit, NMSimplexFit, NLOptFit"),("LM clipping","mpfit")])
add("P13","Random numbers and summary statistics are what they claim to be",
 "The uniform generators return values in their documented intervals for every internal state and the generator follows the reference MT19937 recurrence; mean, standard deviation, confidence-interval indices, AIC and BIC equal their textbook definitions for every sample.",
 ["inputs","histories"],
 "all seeds, generator states, samples and sample sizes",
 "Tests compare a few numbers; interval end points and recurrence positions are hit with probability ~2^-32.",
 ["core/mersenne_twister.cpp","core/statistics.cpp"],
 [("recurrence","genrand_int32 / init_genrand"),("intervals","genrand_real1 / genrand_real2"),("summary statistics","Mean, StandardDeviation, ConfidenceInterval, AIC_corrected, BIC")])
add("P14","PSF interpolation for point sources stays inside the PSF and is exact at pixels",
 "Point-source interpolation reads only existing PSF pixels for every query position and PSF shape, uses rows and columns in the right order, gives zero well outside the PSF, and reproduces the PSF pixel value when queried at a pixel centre; a point source contributes its total counts times the interpolated PSF at the offset from its centre (rotated by the position angle for the rotating variant). A model's interpolator is of the documented kind the user asked for and is built from the model's PSF; a missing or too small PSF is refused.",
 ["inputs"],
 "all PSF shapes (including non-square) and all real query positions",
 "Tests interpolate a 5x5 symmetric PSF at a few points; transposition and edge reads are invisible there.",
 ["function_objects/psf_interpolators.cpp","function_objects/func_pointsource.cpp"],
 [("interpolators","PsfInterpolator_bicubic / _lanczos2 / _lanczos3 ::GetValue"),("point source","PointSource::GetValue, PointSourceRot::GetValue"),("interpolator of a model","ModelObject::SetupPsfInterpolation")])
add("P15","Multi-image fits give each image its own parameter vector",
 "In simultaneous multi-image fitting each image's parameter vector consists of its own image-description parameters and centres plus the shared function parameters, assembled position by position from the full parameter vector, with shared centres carried over to each image by its own pixel scale, rotation and offset. The joint statistic is the sum of the statistics of the individual images and the joint deviates vector is made of the individual ones, each image occupying its own contiguous slot of exactly as many entries as it has (also in bootstrap mode, where an image has one entry per valid pixel).",
 ["inputs","configurations"],
 "all numbers of images, function sets and parameters, and all image descriptions",
 "Tests use two images with one function set.",
 ["core/model_object_multimage.cpp","core/paramvector_processing.cpp","core/param_holder.cpp"],
 [("parameter assembly","ModelObjectMultImage / paramvector_processing"),("joint statistic","ModelObjectMultImage::GetFitStatistic / ComputeDeviates")])
add("P16","Reported positions refer to the user's original image",
 "When a sub-section of an image is fitted, every centre coordinate reported, saved or printed equals the fitted value plus the sub-section offset of its axis, and no other parameter is altered.",
 ["inputs","configurations"],
 "all sub-section offsets, numbers of function sets and parameter layouts",
 "Tests print one or two models with offset in one layout.",
 ["core/model_object.cpp","core/model_object_multimage.cpp","core/print_results.cpp","core/print_results_multi.cpp","core/utilities_multimfit.cpp","core/bootstrap_errors.cpp"],
 [("offset application","ModelObject(MultImage)::PrintModelParams* / AddImageOffsets"),("offset table","ModelObject::GetImageOffsets"),("way in","CorrectForImageOffsets"),("saved image information","SaveImageInfoParameters")])
add("P17","Configuration-file text is parsed into exactly the model it describes",
 "Reading a configuration file yields the functions, parameter values, limits and fixed flags in file order as written, assigns each function to the function set started by the preceding centre lines, and rejects text in which a start value lies outside its limits, a lower limit is not below its upper limit, or lines are missing or malformed.",
 ["inputs"],
 "all configuration files",
 "Parser tests cover a fixed list of files.",
 ["core/config_file_parser.cpp","core/utilities.cpp"],
 [("function section","ParseFunctionSection"),("value and limits","AddParameterAndLimit"),("vetting","VetConfigFile")])
add("P18","Image files round-trip with rows and columns in the right place",
 "Reading an image file yields its pixels in row-major order with columns and rows not exchanged, a section specifier selects exactly the requested pixels, and saving then reading an image gives back the same pixels and dimensions.",
 ["inputs","fault_sequences"],
 "all images, sections and I/O failures",
 "Tests read a handful of files.",
 ["core/image_io.cpp","core/getimages.cpp","core/utilities.cpp"],
 [("read/save","ReadImageAsVector / SaveVectorAsImage"),("section","GetAllCoordsFromBracket")])
add("P19","MCMC chains stay inside the parameter limits",
 "Every state recorded in a Markov chain lies within the user's parameter limits with fixed parameters unchanged, and a proposal is accepted exactly when the Metropolis rule allows it; rejected proposals repeat the previous state and likelihood.",
 ["inputs","histories","schedules"],
 "all models, limits, random sequences and chain numbers",
 "MCMC tests only run a short chain and compare header text.",
 ["cdream/dream.cpp","core/mcmc_main.cpp"],
 [("proposal bounds and acceptance","dream()")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
