"""Writes properties.jsonl (run by hand when a property changes)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))
MC, FW, ME, TR, PR, UT, UN, SA, PL = ["pxmcmc/%s.py" % m for m in "mcmc forward measurements transforms prior utils uncertainty saving plotting".split()]
SMOKE = "The sampler tests only call run() on one 190-parameter identity problem and assert nothing about the samples."

prop("C01", "Every MYULA iteration is the proximal Langevin step",
 "Each iteration of a MYULA run moves the current state X to (1 - delta/lambda) X + (delta/lambda) prox(X) - delta grad g(X) + sqrt(2 delta) w, with the prox of the prior and the gradient of the data fidelity taken at X itself. w is fresh standard normal noise, independent between iterations, parameters, and (in complex mode) real and imaginary parts; with real parameters the chain stays real even if the data are complex. The public one-step method computes the same step from the prox and gradient it is given.",
 ["inputs", "configurations", "histories"], "every forward operator, prior, data error format, real or complex parametrisation, step size and chain length", SMOKE,
 [MC], [("MYULA.run", MC), ("MYULA.chain_step", MC), ("real part of the gradient", MC)], ["chain saved by a run without burn-in or thinning", "return value of chain_step"])
prop("C02", "PxMALA accepts with the exact Metropolis-Hastings probability",
 "In every PxMALA iteration the proposal is the MYULA step from the current state with the current step size, and it is accepted with probability min(1, pi(X') q(X|X') / (pi(X) q(X'|X))), where pi is the posterior exp(-mu prior - L2/2) and q is the Gaussian density N(X + delta grad log pi(X), 2 delta) the proposals are really drawn from, with the same delta in both directions. A proposal of zero or undefined posterior is never accepted. If it is rejected the chain stays exactly where it was, and the next proposal starts from there with the prox and gradient of that state. The public log-transition function is that log q up to a constant which does not depend on the two states.",
 ["inputs", "configurations", "histories"], "every problem, step size, and history of acceptances and rejections, with and without step tuning", SMOKE,
 [MC], [("PxMALA.run", MC), ("PxMALA.calc_logtransition", MC), ("PxMCMC.logpi", MC)], ["models passed to the forward operator", "acceptance_trace", "chain"],
 [("cached gradient/prox/logpi of the current state", "must follow accept/reject", "PxMALA.run locals")])
prop("C03", "PxMALA traces and step-size tuning",
 "The acceptance trace has one 0/1 entry per iteration, 1 exactly when the state changed. With tuning on, the step-size trace starts at the given delta and has one further entry per iteration: after iteration i (from 0) delta is multiplied by 1 + (a - 1/2)/(i+1)^(3/4), a being that iteration's acceptance, and then clipped to [1e-8 lambda, lambda/2]; the next iteration uses that value. With tuning off delta stays as given, and each new run starts new traces.",
 ["inputs", "configurations", "histories"], "every problem, delta, lambda, burn-in, thinning, run length and acceptance history, repeated runs included", SMOKE,
 [MC], [("PxMALA._tune_delta", MC), ("PxMALA.run", MC)], ["acceptance_trace", "deltas_trace", "delta"])
prop("C04", "SK-ROCK iterations follow the stabilised Chebyshev recursion",
 "Each SK-ROCK iteration with s stages maps X to K_s, where K_0 = X, K_1 = X + mu_1 delta G(X + nu_1 sqrt(2 delta) Z) + k_1 sqrt(2 delta) Z and K_j = mu_j delta G(K_{j-1}) + nu_j K_{j-1} + k_j K_{j-2}, G being the gradient of the (Moreau smoothed) log posterior and Z one fresh standard normal draw. The coefficients are w0 = 1 + 0.05/s^2, w1 = T_s(w0)/T_s'(w0), mu_1 = w1/w0, nu_1 = s w1/2, k_1 = s w1/w0, mu_j = 2 w1 T_{j-1}(w0)/T_j(w0), nu_j = 2 w0 T_{j-1}(w0)/T_j(w0), k_j = 1 - nu_j. Hence for a Gaussian posterior the chain stays bounded for steps up to the order-s^2 stability limit.",
 ["inputs", "configurations", "histories"], "every problem, number of stages s >= 1, step size and chain length", SMOKE + " The recursion diverged to NaN in them unnoticed.",
 [MC, UT], [("SKROCK._K_recursion", MC), ("SKROCK._recursion_coefs", MC)], ["chain saved by a run without burn-in or thinning"])
prop("C05", "Burn-in and thinning select exactly the promised states",
 "For every sampler, saved sample j is the state after iteration nburn + j*max(ngap,1), counting iterations from 0; burn-in and thinning never change the underlying trajectory, they only select from it. Exactly nsamples samples are saved in every tracked array, in order, and the run ends right after the last one is saved, whatever the acceptance rate.",
 ["configurations", "histories"], "every nsamples, nburn, ngap (0 included), sampler and acceptance history", "Tests run one schedule (100 samples, burn 10, gap 5) and look at nothing.",
 [MC], [("while loop of run", MC), ("PxMCMC._tracking", MC)], ["chain/logPi/L2s/priors/preds arrays", "models passed to the forward operator"])
prop("C06", "Every saved record describes one and the same state",
 "For every saved sample j and every sampler, the saved predictions are the forward model of the saved chain state, the saved L2 is the covariance-weighted squared misfit of those predictions, the saved prior is the prior of that state, and the saved log posterior is -mu*prior - L2/2. Nothing is lost or truncated: complex states and predictions keep their imaginary parts, and with real parameters the saved real state is the whole state. The public log-posterior function returns the same triple for any state and predictions.",
 ["inputs", "configurations", "histories"], "every sampler, problem, schedule, mu, data type and set of tracked quantities", "No test looks at a tracked array.",
 [MC], [("PxMCMC.logpi", MC), ("PxMCMC._tracking", MC), ("PxMCMC._initialise_tracking_arrays", MC)], ["chain/logPi/L2s/priors/preds arrays", "logpi()"])
prop("C07", "Runs are reproducible, unobserved and leave their inputs alone",
 "With the same problem, parameters and numpy seed, two freshly built samplers produce identical results, and these (and those of later runs in the session) do not depend on which quantities are tracked, on the verbosity, or on other samplers that share the operator, prior or parameter object; exactly the requested quantities are tracked (by default log posterior, L2, prior and chain, whatever was done to other parameter objects). A run never modifies the data, the data errors, the start point, the operator's matrices, the prior's thresholds or the parameter object.",
 ["configurations", "histories"], "every sampler, tracking list, verbosity, and sequence or sharing of samplers", "Each test builds one sampler, with verbosity 0 and default tracking, and compares nothing.",
 [MC, FW, PR, UT], [("PxMCMC.__init__ copies the parameters", MC), ("chain_step builds new arrays", MC)], ["tracked arrays", "bytes of user-owned arrays before and after", "stdout"])
prop("C08", "Chains start where they are told to",
 "A run given a start point starts at exactly that point, for every sampler; a start point that is not a one-dimensional numpy array is rejected with TypeError and one of the wrong length with ValueError, before anything is recorded. Without a start point each run starts at a fresh draw with independent standard Laplace components, one per parameter, the imaginary parts as well when the parameters are complex (and no imaginary part when they are not).",
 ["inputs", "configurations"], "every sampler, start point (dtype, layout, size) and seed", "Tests pass one valid start point and one that is too short, and accept any exception.",
 [MC], [("PxMCMC._initial_sample", MC)], ["first saved sample with a vanishing step size", "exceptions"])
prop("C09", "The gradient belongs to the Gaussian data fidelity",
 "For every forward operator, the gradient returned for the predictions of a model X is the gradient with respect to X of g(X) = (F(X) - d)^H C^-1 (F(X) - d) / 2, where F is the operator's own forward prediction and C the stated error covariance: finite differences of g along any direction agree with it. In the analysis setting F is the measurement of X, in the synthesis setting the measurement of the inverse transform of X, and the number of parameters is the size of the corresponding space.",
 ["inputs", "configurations"], "every setting, measurement, transform, error format, model and predictions; built-in and user-defined operators; real and complex", "Tests compare the lengths of the outputs only.",
 [FW, ME, TR], [("ForwardOperator.calc_gradg", FW), ("measurement.adjoint / transform.inverse_adjoint", FW)], ["forward()", "calc_gradg()"])
prop("C10", "All ways of stating the data errors mean the same thing",
 "A scalar error sigma, a vector of n equal errors sigma and the covariance matrix sigma^2 I give the same gradient and the same log posterior; a vector of errors is equivalent to the diagonal covariance of its squares, and a full covariance matrix enters through its inverse. This holds for real and complex data alike, and the resulting misfit is real and non-negative. A non-square matrix is rejected with ValueError and a vector whose length differs from the data with TypeError.",
 ["inputs", "configurations"], "every scale, size and correlation of errors, real and complex data", "Tests use sigma = 0.1 as scalar and as constant vector, and check output lengths; a covariance matrix is never passed.",
 [FW, MC], [("ForwardOperator._build_inverse_covariance_matrix", FW)], ["calc_gradg()", "PxMCMC.logpi()"])
prop("C11", "Measurement operators are linear with exact adjoints",
 "For every measurement operator, <y, A x> = <A^H y, x> for all complex x and y, and the operator is linear and keeps no state between calls. The identity measurement returns the leading ndata pixels (padding with zeros if there are fewer pixels), the path integral returns the product with its matrix, also when complex, and both reject inputs of the wrong length. The weak lensing operators are exactly adjoint for every bandlimit, mask and galaxy density, for signals that are not bandlimited too.",
 ["inputs", "configurations"], "every operator size, matrix, mask, galaxy map and pair of vectors", "Dot tests use L=10, one random pair, absolute values of the two sides, and signals without monopole and dipole.",
 [ME], [("adjoint methods", ME)], ["forward()/adjoint() of the measurements"])
prop("C12", "Wavelet transforms reconstruct exactly and have exact adjoints",
 "For every bandlimit, wavelet parameter, minimum scale, number of directions and spin, in pixel and in harmonic space, the inverse transform undoes the forward transform of every bandlimited signal, and each transform and its adjoint satisfy the dot-product identity for arbitrary complex vectors. The coefficient vector has the advertised length, scaling coefficients first and then the wavelet scales from large to small, and the transform is linear and never modifies its input. The identity transform returns its input.",
 ["inputs", "configurations"], "every tiling (L, B, J_min, directions, spin, pixel/harmonic) and signal, real and complex", "Tests use L=10, B=2, J_min=2, one direction, spin 0, pixel space, one real signal.",
 [TR, UT], [("SphericalWaveletTransform", TR), ("flatten_mlm/expand_mlm", UT)], ["forward/inverse/forward_adjoint/inverse_adjoint", "ncoefs, nscal, nwav"])
prop("C13", "Transforms, priors and uncertainty maps share one coefficient layout",
 "For every tiling the transform accepts, the spherical wavelet priors hold one weight per coefficient of the wavelet transform (the power weighted one where no scale is empty) and the per-scale credible interval maps use each coefficient exactly once: block k of the coefficient vector is one map of the bandlimit of scale k, row by row, the scaling function first. A signal with a single multipole only excites the blocks whose wavelet contains that multipole, and each prior weight and each map pixel belongs to the same colatitude of the same scale as the coefficient at its position.",
 ["configurations", "inputs"], "every tiling (L, B, J_min) the transform accepts", "Tests use one tiling and never compare the layouts of two parts.",
 [UT, PR, TR, UN], [("_multires_bandlimits", UT), ("S2_Wavelets_L1 weights", PR), ("wavelet_credible_interval_range", UN)], ["map_weights", "wavelet_credible_interval_range()", "transform.forward()"])
prop("C14", "Thresholding is the proximal map it claims to be",
 "Soft thresholding with threshold T (a scalar, or one value per element) moves every entry towards zero by T along its own phase and sets it to zero if its modulus is at most T; it is therefore the proximal map of T times the modulus, and never increases the distance between two vectors. This holds for real and complex vectors, zeros, ties and extreme magnitudes. Hard thresholding keeps exactly the floor(fraction * n) largest moduli unchanged and zeroes the rest (distinct moduli), and neither function modifies its input.",
 ["inputs"], "every vector (integer, real, complex, list), threshold and fraction", "Three hand-written vectors for soft, one for hard.",
 [UT], [("soft", UT), ("hard", UT)], ["soft()", "hard()"])
prop("C15", "Each prior's prox is the proximal map of that prior's own norm",
 "For every L1-type prior built with base threshold T, proxf(X) minimises |Z - X|^2/2 + T prior(Z) over Z. The norm is the plain L1 norm of X in the synthesis setting, the L1 norm of the adjoint-transformed X in the analysis setting (adjoint with orthonormal rows), the L1 norm weighted by exact pixel quadrature weights for the spherical wavelet prior, and the L1 norm with weights 2 pi^2 sin(theta) peak_l^eta / (power * pixels) for the power-weighted one, the constructor's threshold argument being left untouched. Unsupported settings are refused.",
 ["inputs", "configurations"], "every X, T (scalar or array), setting, transform, tiling and eta", "Tests check the base class on integers with an identity transform, and for the spherical priors only that proxf runs.",
 [PR, UT], [("L1.prior/L1.proxf", PR), ("S2_Wavelets_L1", PR), ("S2_Wavelets_L1_Power_Weights", PR)], ["prior()", "proxf()", "map_weights, T"])
prop("C16", "Weak lensing operators implement the spherical lensing kernel",
 "In harmonic space the forward operator multiplies the coefficients of degree l >= 2 by -sqrt((l+2)(l-1)/((l+1)l)) and removes l < 2, and the Kaiser-Squires estimate undoes this for every l >= 2 and returns zero for l < 2. In pixel space, shear is the spin-2 map of the kernel applied to the spin-0 coefficients of the convergence, read at the unmasked pixels in map order and multiplied by sqrt(2 n_gal / 0.37^2) (or 1 without a galaxy map). Bandlimits below 1 are rejected, and inputs are never modified.",
 ["inputs", "configurations"], "every bandlimit, convergence, mask and galaxy map", "Tests check the adjoint identity only, which any real diagonal kernel passes.",
 [ME], [("compute_harmonic_kernel", ME), ("WeakLensing._forward", ME), ("ngal_to_inv_cov", ME)], ["forward()", "sks_estimate()"])
prop("C17", "Masks keep the right pixels",
 "Masking returns exactly the unmasked pixels in map order, its adjoint puts observations back at those pixels and zero elsewhere, and masking after its adjoint is the identity; NaN signals, signals of the wrong shape and masks of the wrong shape raise ValueError. The generated survey mask is 0 exactly at pixels closer than `size` degrees to the equator of the map or to the galactic plane and 1 elsewhere, in the map layout of the given bandlimit.",
 ["inputs", "configurations"], "every bandlimit, mask (bool, int, float), signal and mask width", "One half-full random mask at L=10 inside a dot test; the survey mask is untested.",
 [ME, UT], [("mask_forward/mask_adjoint", ME), ("build_mask", UT)], ["mask_forward()", "mask_adjoint()", "build_mask()"])
prop("C18", "Spherical quadrature and pixel areas are exact",
 "For every bandlimit, the quadrature weights integrate every bandlimited function on the sphere exactly, are positive and sum to 4 pi. The pixel areas are positive, depend on the ring only, follow the sampling's ring boundaries, scale with the squared radius and sum to 4 pi r^2; rectangle and cap areas are additive and consistent with each other.",
 ["inputs", "configurations"], "every bandlimit, bandlimited function (real or complex), radius and rectangle", "One bandlimit, one random real function, radius 1.",
 [UT], [("mw_map_weights", UT), ("s2_integrate", UT), ("calc_pixel_areas, pixel_area, polar_cap_area", UT)], ["s2_integrate()", "mw_map_weights()", "calc_pixel_areas()"])
prop("C19", "A saved file holds the run exactly",
 "Saving a run writes one HDF5 file <filename>.hdf5 in the given directory that holds, bit for bit, every tracked quantity (log posterior, predictions, chain, L2s, priors), PxMALA's acceptances and step sizes, and as attributes every runtime parameter and every extra the caller passed, large arrays included, and no dataset for anything that was not tracked. An existing file of that name is replaced completely, the file is closed and readable afterwards, and saving changes neither the sampler nor the parameters.",
 ["inputs", "configurations", "histories"], "every sampler, tracking list, real/complex chain, parameter values, extras, names and repeated saves", "Saving has no test.",
 [SA], [("save_mcmc", SA)], ["datasets and attributes of the reopened file"])
prop("C20", "Credible intervals and regions have their nominal content",
 "The credible interval range of a parameter is the distance between the alpha/2 and 1 - alpha/2 quantiles (linearly interpolated) of that parameter's own samples; per scale maps hold the same numbers at the pixel of each coefficient. The credible region threshold puts a fraction 1 - alpha of the samples (up to one sample) into the region, which is always made of the samples of highest log posterior, the maximum included. Nothing depends on the order of the samples, and the chain is not modified.",
 ["inputs", "configurations"], "every chain, number of samples and parameters, and alpha", "The module has no test.",
 [UN], [("credible_interval_range", UN), ("wavelet_credible_interval_range", UN), ("credible_region_threshold/in_credible_region", UN)], ["return values"])
prop("C21", "Chebyshev functions evaluate the Chebyshev polynomials",
 "For every order n >= 0 and every point x (real or complex, inside or outside [-1, 1], scalar or array), the functions of the first and second kind satisfy T_n(cos t) = cos(n t), U_n(cos t) sin(t) = sin((n+1) t) and their continuations, and the derivative function is n U_{n-1}, the derivative of T_n. Integer arguments give exact integers, and negative orders raise ValueError.",
 ["inputs"], "every order and argument", "Three integer points each, orders 0, 1 and 5.",
 [UT], [("chebyshev1", UT), ("chebyshev2", UT), ("cheb1der", UT)], ["return values"])
prop("C22", "Flattening and expanding coefficients are inverse to each other",
 "Flattening puts the scaling coefficients first and then the wavelet scales one after the other; expanding the result with the number of scales, or with the number of scaling coefficients, gives back the original arrays exactly, and flattening an expanded vector gives back the vector. With flattened wavelets requested the scales come back as one vector in the same order. Asking with neither or both of the two counts raises ValueError, and inputs are not modified.",
 ["inputs"], "every number of scales, length, value and dtype (real or complex)", "Tests check shapes, constant columns and one multiresolution vector.",
 [UT], [("flatten_mlm", UT), ("expand_mlm", UT)], ["return values"])
prop("C23", "Figures show the data they were given",
 "A map figure shows the Mollweide projection of the given map (after bandlimited interpolation to L=256 if oversampling), with the requested title, colour limits (symmetric about 0 if centred) and colour bar, masked pixels blank; a healpix view is healpy's own, in a new figure; the wavelet figures are the scaling map followed by one map per scale, titled in order, with a common upper colour limit (the largest wavelet coefficient) when same_scale is on. The evolution figure shows the negative log posterior, L2 and prior of every saved sample and marks the sample of highest posterior; the sample figure shows its real and imaginary parts. The arrays passed in are never modified.",
 ["inputs", "configurations"], "every map, chain and combination of options (coastlines excepted)", "Plotting has no test.",
 [PL], [("plot_map", PL), ("plot_wavelet_maps", PL), ("plot_evolution, plot_chain_sample", PL)], ["artists of the returned figures"])
prop("C24", "Saved PxMALA samples follow the posterior",
 "The samples saved by a PxMALA run are distributed according to the posterior exp(-mu prior(X) - L2(X)/2), with rejected proposals counted as repetitions of the current state: long-run frequencies of any region, means and variances agree with the exact posterior, whatever the step size, smoothing parameter, thinning, start point or data error, real or complex parameters, and with step tuning on. For Gaussian posteriors MYULA samples have mean of the posterior and the closed-form variance 1/(h (1 - delta h/2)) along a direction of curvature h.",
 ["inputs", "configurations", "histories"], "every posterior, tuning and run length; decided up to Monte Carlo error", SMOKE,
 [MC, PR, FW], [("PxMALA.run", MC), ("MYULA.run", MC)], ["chain of long runs"])
prop("C25", "Reporting helpers are faithful and quiet",
 "The signal-to-noise ratio is 20 log10(|signal|/|noise|) in decibels for real and complex arrays of any shape, so that scaling the noise by 10 costs exactly 20 dB. Output suppression hides everything printed inside it and always restores the previous output stream, nested and after exceptions included. The spherical harmonic wrappers return exactly what healpy returns for the same arguments, print nothing, and leave their inputs unmodified.",
 ["inputs", "histories"], "every array, nesting and failure", "None of these has a test.",
 [UT], [("snr, norm", UT), ("suppress_stdout", UT), ("map2alm, alm2map", UT)], ["return values", "sys.stdout"])
ET, PV, WL = ["experiments/%s/" % e for e in ("earthtopography", "phasevel", "weaklensing")]
prop("C26", "Experiment scripts sample the inverse problem they describe",
 "For all command line options of the synthesis setting, each experiment's main script leaves one file <algo>_<setting>_<timestamp>_<jobid>.hdf5 in the output directory whose attributes repeat the options and whose samples are a fresh run of the chosen sampler, with the given delta and mu, on the problem described; unknown samplers and inputs are refused without a result file. Topography: data are the map at bandlimit L in km with error sigma, or, with added noise, noise of standard deviation sigma/sqrt(pixel area) metres (times the factor over Africa) which is recorded, the same in every run, added to the data and stated as their error in km. Phase velocity: data and errors (made positive, times sqrt(number of similar paths) on request) are those of the file, predictions are averages along its great circle paths (an existing path matrix is reused, a missing one is built and saved), prior power-weighted with eta; weak lensing: data are the shear of the bandlimited convergence smoothed by 50 arcmin outside the 10 degree mask, weighted for 30 galaxies per pixel.",
 ["inputs", "configurations"], "every input file and combination of options (synthesis setting)", "No test runs the experiments.",
 [ET + "main.py", PV + "main.py", WL + "main.py"], [("topography script", ET + "main.py"), ("phase velocity script", PV + "main.py"), ("weak lensing script", WL + "main.py")], ["the HDF5 file written", "exit status"])
prop("C27", "Experiment summaries are those of the saved chain",
 "From a result file, each experiment's plot script takes as MAP the pixel image of the sample of highest log posterior, as mean the average image of the samples after the first <burn>, and as credible interval map the distance between the 2.5% and 97.5% quantiles of every pixel over the same samples; the phase velocity script also maps the intervals and the mean per wavelet scale. The evolution figure shows the saved log posteriors (negated), L2s and priors, the MAP_wvlt figure the wavelet coefficients of the MAP. The arrays saved on request, the maps shown in the figure files of those names (with suffix, in the given directory, blanked by the 20 degree mask in the weak lensing case unless told not to) and the differences truth - MAP and truth - mean all agree with these. The printed signal to noise ratios are 20 log10(|truth|/|difference|) dB (over unmasked pixels) and the printed R2E |prediction - data|^2/|data|^2.",
 ["inputs", "configurations"], "every result file, burn, suffix and mask option", "No test runs the experiments.",
 [ET + "plot.py", PV + "plot.py", WL + "plot.py", UN, PL], [("topography summary", ET + "plot.py"), ("phase velocity summary", PV + "plot.py"), ("weak lensing summary", WL + "plot.py")], ["saved arrays", "figure files", "standard output"])
prop("C28", "Progress reports are faithful",
 "With verbosity v > 0 a run prints one progress line after every v-th iteration, burn-in included, and with v <= 0 none; DONE is printed once, at the end of a completed run. During burn-in MYULA and SK-ROCK only say that they are burning in; every other line states the number of samples saved so far out of nsamples and the log posterior, L2 and prior (to 8 decimals) of the last saved sample (MYULA, SK-ROCK) or of the current state (PxMALA, which adds the fraction of iterations accepted so far), whatever is tracked.",
 ["configurations", "histories"], "every sampler, schedule, verbosity, tracking list and acceptance history", "Tests run with verbosity 0 and ignore the output.",
 [MC], [("PxMCMC._print_progress", MC), ("run loops", MC)], ["standard output of run()"])
prop("C29", "Failures surface and leave no trace",
 "An exception or keyboard interrupt raised by the forward model, its gradient, the prior or its prox at any point of a run reaches the caller unchanged, and no DONE is printed. The tracked arrays then hold exactly the samples of the undisturbed run of the same seed from all iterations completed before (each sample is in them before the next state is evaluated), likewise PxMALA's traces; user-owned inputs are unmodified, and the same sampler, given its original step size, runs afterwards exactly as a new one does. Likewise a refused call leaves an operator's or prior's answers as they were, and a failed save raises, leaves the file closed and does not impair a later save.",
 ["fault_sequences", "histories", "configurations"], "every point of failure, kind of exception, sampler, problem and schedule", "No test lets anything fail during a run or a save.",
 [MC, FW, ME, PR, SA], [("run loops", MC), ("PxMCMC._tracking", MC), ("save_mcmc", SA)], ["exception seen by the caller", "tracked arrays after a failure", "results of later calls"])
prop("C30", "The simulation download yields the simulated map, whole or not at all",
 "Running the weak lensing download script leaves in the working directory the FITS file takahasi_4096_000_zs16_kappa.fits, holding in ring order exactly the convergence, the first of the four fields of the simulation's binary file, for any record markers and resolution; the binary file is fetched once, byte for byte, from the simulation's address, and the two functions do the same for any other simulation. A binary file or map that is already there is not fetched or converted again. A download that is refused, breaks off or comes short, and a binary file too short for the map, raise and leave no map, and the next run after a failed download starts it afresh; a leftover of an interrupted conversion does not prevent a later one.",
 ["inputs", "fault_sequences", "histories"], "every simulation file, point of failure and sequence of runs", "No test touches the script.",
 [WL + "download_takahasi.py"], [("binary_to_fits", WL + "download_takahasi.py"), ("download_binary", WL + "download_takahasi.py"), ("main part", WL + "download_takahasi.py")], ["files left in the working directory", "requests made", "exception"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import re
    for p in P:
        n = len(re.findall(r"\.(?=\s|$)", p["statement"]))
        if n > 3: print(p["id"], n)
