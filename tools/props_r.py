# Property texts: bundled simulations, random fields, densities, mesh files
from props_s import P

SY = "mlmc/sim/synth_simulation.py"
FM = "mlmc/tool/flow_mc.py"
CF = "mlmc/random/correlated_field.py"
SD = "mlmc/tool/simple_distribution.py"
ES = "mlmc/estimator.py"
GM = "mlmc/tool/gmsh_io.py"
POOL = "mlmc/sampling_pool.py"
STO = "mlmc/sample_storage.py"
HDF = "mlmc/sample_storage_hdf.py"
PROPS = [
P("S18", "A sample needing a workspace is calculated in its own prepared directory",
  "Before the simulation of a sample that needs a workspace is called, the directory <output directory>/<sample id> exists, holds every common file of its level, and is the working directory; a sample without workspace creates nothing. "
  "All pools use their own absolute output directory, or the current one if none was given, and after a sample the serial pool returns the sampling process to the working directory it had before.",
  ["inputs", "configurations", "schedules"], "all samples, pools, lists of common files, working directories and output directories",
  "The tests use absolute paths and one pool at a time, so a wrong, relative or left-over working directory goes unnoticed.",
  [POOL, "mlmc/tool/pbs_job.py"], [("workspace", POOL + " SamplingPool.calculate_sample, handle_sim_files, copy_sim_files"), ("serial pool", POOL + " OneProcessPool.schedule_sample"), ("worker", "mlmc/tool/pbs_job.py PbsJob.calculate_samples")]),
P("F01", "Fine and coarse result of a sample come from one random input and align",
  "In every bundled simulation the fine and the coarse result of a sample are the same model evaluated for one and the same random input with the fine and the coarse step, entry by entry in the same layout given by the result format (quantity, time, location, component). The fine result does not depend on the coarse step or level; "
  "on the first level the coarse result is zero of the same size. In the flow simulation both runs use fields of a single draw evaluated in the elements of their own mesh, and each result is read from its own run. A synthetic sample whose result is not a number fails instead of returning it.",
  ["inputs", "configurations"], "all seeds, steps, result formats, meshes and levels",
  "Losing the coupling only slows variance decay or adds a bias within noise; the flow simulation is not run by the tests at all.",
  [SY, FM], [("synthetic model", SY + " SynthSimulation.calculate, sample_fn"), ("flow model", FM + " FlowSim.calculate, make_fields, generate_random_sample")]),
P("F02", "The random input of a sample is determined by its seed alone",
  "Every random number used by a bundled simulation is drawn from a generator initialised by the whole seed handed to that sample, and by nothing else, before the first draw, so repeating a sample with the same seed repeats its input in any process, order or pool. Every generator created inside the random field classes is derived from it (numpy's global generator or an explicit seed), never from the clock or system entropy.",
  ["inputs", "schedules", "histories"], "all seeds, orders of samples and distributions over processes",
  "A test that compares two runs in one order in one process cannot see a generator seeded elsewhere or drawn from before it is seeded.",
  [SY, FM, CF], [("synthetic draws", SY + " generate_random_samples"), ("flow draws", FM + " FlowSim.calculate"), ("field generators", CF + " FourierSpatialCorrelatedField._get_random_stream, GSToolsSpatialCorrelatedField, SpatialCorrelatedField")]),
P("F03", "Flow samples run with the mesh, template and fields of their own level",
  "The files of a level (mesh and solver input) are made in a directory determined by its fine step, with mesh step, time steps and field placeholders of that level; the coarse run uses the directory of the previous level. Placeholders <name> of the template are all replaced by the value of that name. "
  "Points, region ids and element ids of a mesh describe the same elements in the same order, without boundary regions, at element centers; the result is minus the total flux over the outflow boundary, and a result that lacks it or flows inwards is refused.",
  ["inputs", "configurations"], "all steps, templates, field lists, meshes and balance files; fresh and existing level directories",
  "The external mesh generator and solver are not available to the tests, so this code is never executed by them.",
  [FM], [("level setup", FM + " FlowSim.level_instance, _make_mesh"), ("mesh", FM + " FlowSim.extract_mesh"), ("template", FM + " substitute_placeholders, force_mkdir"), ("result", FM + " FlowSim._extract_result")]),
P("R01", "Field sets return every field's values at exactly its own points",
  "Fields.sample() returns for each outer field one value per evaluation point: values at the points of the field's regions (all points if unrestricted) are those its random field, constant or function produced for just these points, in their order. Each field is sampled once per call; dependent fields use the current samples of their parameter fields. "
  "Fields of one set have their own copies, so fields sharing a random field object or another set do not overwrite each other. kozeny_carman and positive_to_range follow their documented laws.",
  ["inputs", "configurations", "histories"], "all sets of fields, dependencies, regions, points and sequences of samples",
  "Tests use one region or one field; index mix-ups and aliasing show only for several fields over several regions.",
  [CF], [("points", CF + " Fields.set_points, Field.set_points"), ("sampling", CF + " Fields.sample, Field.sample"), ("set-up", CF + " Fields.__init__, _get_field_obj, set_outer_fields"), ("laws", CF + " kozeny_carman, positive_to_range")]),
P("R02", "A random field sample is sigma*F+mu (or its exp) of a new draw at current points",
  "sample() of every random field class returns sigma*F + mu, or its exponential for log fields, with F of zero mean and unit variance, at the points set last. mu and sigma given with the points are used, otherwise those of the field are kept. After new points are set nothing computed for the earlier ones is used, and every further sample is drawn anew (of a GSTools field after change_srf).",
  ["inputs", "histories"], "all classes, sequences of set_points and sample, mu and sigma as scalars or arrays, log or not",
  "Tests set points once per object with default mean; stale data need a sequence of operations.",
  [CF], [("scaling", CF + " RandomFieldBase.sample"), ("points", CF + " RandomFieldBase.set_points"), ("cached decomposition", CF + " SpatialCorrelatedField.svd_dcmp, _sample")]),
P("R03", "Correlated fields have the declared covariance",
  "The covariance between points of a KL field is exp(-(x^T K x)^(alpha/2)), x their difference, with K = I/L^2 or the given tensor and alpha of the declared kind; the sample is F z with F F^T the decomposed covariance matrix and z independent standard normal numbers, one for every kept term. "
  "The spectra and modes of Fourier fields are those whose sum has covariance exp(-r^2/L^2) or exp(-r/L) and unit variance, for every dimension and number of chunks, also when the sum is repeated with smaller chunks.",
  ["inputs", "configurations"], "all points, dimensions, correlation lengths, tensors, exponents, numbers of terms, modes and chunks",
  "Covariance is a statistical quantity that tests check loosely for few parameters; a wrong factor may look like noise.",
  [CF], [("kernel", CF + " SpatialCorrelatedField.cov_matrix"), ("factor", CF + " SpatialCorrelatedField.svd_dcmp, _sample"), ("spectra", CF + " FourierSpatialCorrelatedField.gau, exp, _sample_sphere"), ("modes", CF + " FourierSpatialCorrelatedField.random_field")]),
P("D01", "The density matches its functional: gradient, Hessian, mass and cdf agree",
  "The density is exp(-sum_i lambda_i phi_i(x) / sigma_i) of the given moments and errors. The functional minimised is sum_i mu_i lambda_i / sigma_i plus the integral of that density (plus the tail penalty), the gradient and the Hessian are its exact derivatives, and all use the quadrature of the current multipliers, mapped to the adaptive intervals. "
  "The estimated density is normalised to mass one, and cdf returns for values in any order the integral of that density up to each value, zero below and one above the domain.",
  ["inputs", "configurations"], "all moments, errors, domains, multipliers and value arrays",
  "Tests compare fitted densities within wide tolerances on few distributions; an inconsistent derivative only slows the minimisation.",
  [SD], [("functional", SD + " SimpleDistribution._calculate_functional, _calculate_gradient, _calculate_jacobian_matrix"), ("density", SD + " SimpleDistribution.density, _density_in_quads"), ("minimisation", SD + " SimpleDistribution.estimate_density_minimize"), ("cdf", SD + " SimpleDistribution.cdf")]),
P("D02", "Density construction uses moments orthonormal to the estimated covariance",
  "construct_ortogonal_moments returns moments L phi of the given ones with L C L^T = I on the subspace of the kept eigenvalues: the matrix is centred by the means, the eigenvalues kept are the largest ones above the tolerance, with their own eigenvectors. "
  "construct_density estimates the covariance of the moments of the quantity, orthogonalises them with it, and fits the density to the estimated means of those very orthogonal moments on their domain.",
  ["inputs", "configurations"], "all covariance matrices, tolerances, quantities and moment functions",
  "A wrong pairing of eigenvalues and eigenvectors or a missing centring is invisible for the nearly diagonal matrices of the tests.",
  [SD, ES], [("orthogonalisation", SD + " construct_ortogonal_moments, _cut_eigenvalues"), ("construction", ES + " Estimate.construct_density")]),
P("D03", "Reference moments, covariances and distances are the defined integrals",
  "compute_exact_moments and compute_exact_cov return the integrals of moment i (of the product of moments i and j, symmetric) times the density over the domain, each stored at its own index; the semi-exact variants are the same integrals by composite Gauss quadrature. "
  "KL_divergence is the integral of p log(p/q) - p + q and L2_distance the root of the integral of (p-q)^2 over the given interval.",
  ["inputs"], "all densities, moment functions, domains and sizes",
  "Tests evaluate few densities where, e.g., a missing term vanishes because both densities are normalised.",
  [SD], [("moments", SD + " compute_exact_moments, compute_semiexact_moments"), ("covariances", SD + " compute_exact_cov, compute_semiexact_cov"), ("distances", SD + " KL_divergence, L2_distance")]),
P("D04", "The earlier density class is consistent and of unit mass",
  "For mlmc.tool.distribution: the density is exp(-sum_i lam_i phi_i(x) / sig_i) and has unit mass after fitting; the minimised functional is sum_i mu_i lam_i / sig_i plus the integral of the density and the penalties, and its gradient is the derivative with the factor of the end point penalty held. "
  "The quadrature belongs to the current multipliers, growing the number of moments keeps the multipliers found, and cdf, KL_divergence and L2_distance are the defined integrals.",
  ["inputs"], "all moments, errors, domains, sizes and multipliers",
  "No test runs this class; normalisation errors are small for a converged fit.",
  ["mlmc/tool/distribution.py"], [("functional and gradient", "mlmc/tool/distribution.py Distribution._calculate_functional, _calculate_gradient"), ("normalisation", "mlmc/tool/distribution.py Distribution.estimate_density_minimize"), ("cdf", "mlmc/tool/distribution.py Distribution.cdf")]),
P("G01", "Mesh and field files read back as they were written",
  "Reading a mesh written by write_ascii yields the same nodes, elements (type, tags, node ids) and physical names with their ids and dimensions, and reading fields written by write_fields the same values under the same element ids, names and times; announced counts are the numbers of lines written, and a written file is complete when the writing method returns.",
  ["inputs"], "all meshes with at least two tags per element and names without white space, and all field dictionaries; ASCII format",
  "No test writes a mesh and reads it back; a shifted column still yields a mesh.",
  [GM], [("writing", GM + " GmshIO.write_ascii, write_fields"), ("reading", GM + " GmshIO.read")]),
# --- stated, not claimed
P("N01", "A crash at any point leaves the HDF storage readable and consistent",
  "If the sampling process dies at any instant while a batch is being stored, reopening the file yields either the state before or after the batch: ids, results, failures and costs agree.",
  ["crash points"], "all crash points while storing", "Needs a crash inside a library call.",
  [HDF, "mlmc/tool/hdf5.py"], [("storing", HDF + " SampleStorageHDF.save_samples")]),
P("N02", "Estimates converge to the expectation with the announced variance",
  "The estimated mean is unbiased up to the discretisation error of the finest level and its squared error is on average the estimated variance; with the proposed sample counts the target variance is reached.",
  ["inputs"], "all simulations and targets", "A statement on distributions of results, not on single runs.",
  [ES, "mlmc/quantity/quantity_estimate.py"], [("estimate", "mlmc/quantity/quantity_estimate.py estimate_mean")]),
P("N03", "The fitted density approximates the true one as moments and samples grow",
  "The density constructed from estimated moments converges to the density of the quantity with growing number of moments and samples, and the minimisation converges.",
  ["inputs"], "all distributions", "Approximation and convergence quality.",
  [SD], [("minimisation", SD + " SimpleDistribution.estimate_density_minimize")]),
P("N04", "Sampling always terminates when simulations and the batch system terminate",
  "ask_sampling_pool_for_samples returns after finitely many polls whatever the order and timing of finishing samples and jobs.",
  ["schedules"], "all schedules, queue systems and timings", "Liveness over unbounded schedules and an external queue system.",
  ["mlmc/sampler.py", "mlmc/sampling_pool_pbs.py"], [("polling", "mlmc/sampler.py Sampler.ask_sampling_pool_for_samples")]),
]
NA = [
 {"property": "N01", "reason": "Atomicity of an interrupted write depends on the HDF5 library and the file system, not on the source analysed; the code makes several separate writes per batch and gives no such guarantee (see DESIGN.md)."},
 {"property": "N02", "reason": "A statement about the distribution of runtime results; static analysis decides only that the formulas are the unbiased ones (E01-E03)."},
 {"property": "N03", "reason": "Convergence of a numerical minimisation and approximation depends on runtime values no static argument in reach bounds; consistency of the formulas is decided in D01-D03."},
 {"property": "N04", "reason": "Liveness over the behaviour of external simulations and of the queue system; the safety part (what ends the polling, running counts) is decided in S04, S07, P01, P02."},
]
