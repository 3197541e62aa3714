#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Polynomial algebra is exact and independent of how a value was built",
  "Every sequence of additions, subtractions, products, powers, substitutions, collections and rejections on polynomials and exponentiated polynomials yields the mathematically correct value and leaves its operands unchanged. Two polynomials compare equal exactly when they are the same polynomial, whatever operations produced them, and every query (evaluation, highest power, dependence on a variable, constancy, the printed form) depends on that value only.",
  ["inputs","programs"], "all programs of algebra operations over all variables, coefficients and powers",
  "The tests check a dozen fixed expressions of one or two operations; cancellation, zero terms and long programs are never reached.",
  ["gpcm/exppoly.py"], [("Factor/Term/Poly arithmetic and merging of common terms","gpcm/exppoly.py"),("ExpPoly arithmetic","gpcm/exppoly.py")],
  [("terms","list of merged terms of a polynomial","gpcm/exppoly.py Poly.__init__")], ["==","eval","highest_power","is_function_of","is_constant"])
p("C02", "Gaussian integrals of exponentiated polynomials equal their true value",
  "Integrating an exponentiated quadratic over the real line, over a half-line, or over a box of up to two finite or half-infinite intervals, with numeric or symbolic limits, returns the true value of the integral for all coefficients, parameters and limits. The result does not depend on the order of the variables, adjacent boxes add up, and arrays of parameters broadcast elementwise. A dependence that is not quadratic is refused, and so is integrating the whole line when the quadratic coefficient is not constant.",
  ["inputs"], "all concave quadratics in up to three integration variables, all limits (finite, one-sided, two-sided infinite, polynomial in parameters), all parameter arrays",
  "The tests compare five fixed integrals with numerical quadrature; limits from a finite point to infinity, mixed boxes and other orders of variables are not tried.",
  ["gpcm/exppoly.py"], [("integrate / integrate_half / integrate_box","gpcm/exppoly.py ExpPoly"),("completion of squares, erf and bivariate normal CDF","gpcm/exppoly.py ExpPoly._integrate*")],
  observe=["ExpPoly.integrate","ExpPoly.integrate_half","ExpPoly.integrate_box"])
p("C03", "GPCM and CGPCM covariances and integrals equal their definitions",
  "For the acausal and the causal model, the inducing-point covariances and all integrals of the filter and noise kernels used for inference equal their defining integrals, for all hyperparameters, inducing points and times. In the causal model only the past of the noise contributes, and all quantities have the documented shapes and defaults (omitted times are zero).",
  ["inputs","configurations"], "all positive hyperparameters, all inducing point locations, all times, causal and acausal",
  "No test checks these integrals: the model tests only check the prior power at time zero and the extent of the inducing points.",
  ["gpcm/gpcm.py"], [("kernel functions and integrals of GPCM and CGPCM","gpcm/gpcm.py")],
  observe=["compute_K_u","compute_K_z","compute_i_hx","compute_I_ux","compute_I_hz","compute_I_uz"])
p("C04", "RGPCM covariances and integrals equal their definitions",
  "For the rough model, the inducing covariance, the covariance of the Fourier features (the Gram matrix of the basis in the Matern-1/2 space) and all integrals used for inference equal their defining integrals, for all hyperparameters, inducing points, basis intervals and times that the basis interval covers. This holds for any selection and any order of the basis frequencies: reordering the frequencies only reorders the results.",
  ["inputs","configurations"], "all positive hyperparameters with gamma < alpha, all t_u >= 0, all times in the basis interval, all subsets and permutations of the frequencies that include zero",
  "The tests compare with quadrature at one set of hyperparameters with the default, sorted frequencies.",
  ["gpcm/rgpcm.py","gpcm/util.py"], [("closed-form integrals by sign cases","gpcm/rgpcm.py integral_abcd, compute_I_*"),("sorting and unsorting of frequencies","gpcm/rgpcm.py compute_I_hz, compute_I_uz, gpcm/util.py invert_perm")],
  observe=["compute_K_u","compute_K_z","compute_i_hx","compute_I_ux","compute_I_hz","compute_I_uz"])
p("C05", "Model construction resolves hyperparameters and inducing points as documented",
  "For every combination of constructor arguments, explicitly given quantities are used as given and omitted ones get their documented defaults: decays from the window and length scale, windows and inter-domain transforms normalised to unity power, numbers of inducing points derived from the window, scale and data (these capped, with a warning, at the stated maximum), and locations equally spaced over the documented extent, causal side and extensions included. The rough model additionally keeps the decay of its transform at most the window decay divided by 1.5. Instantiating a model keeps these values.",
  ["configurations","inputs"], "all combinations of given and omitted arguments of the three models, all positive windows, scales and data spans",
  "The tests construct each model once with the same arguments and check one extent; caps, extensions, odd/even counts and explicit locations are not reached.",
  ["gpcm/gpcm.py","gpcm/rgpcm.py"], [("constructors","gpcm/gpcm.py GPCM.__init__, gpcm/rgpcm.py RGPCM.__init__"),("registration of parameters","__prior__ of both models")],
  [("alpha, gamma, omega, lam, alpha_t, gamma_t, noise","hyperparameters","constructors"),("t_u, t_z, ms, a, b","inducing locations and basis","constructors")], ["attributes of the model"])
p("C06", "A normal in natural parameters agrees with its moment form in every question",
  "For all means and covariances, a normal distribution constructed from natural parameters or from a moment-parametrised normal has the same mean, variance, second moment, log-density and KL divergences as its moment form, converts back to it, and samples from it. The answers do not depend on the order in which they are asked for.",
  ["inputs","histories"], "all positive-definite precisions, all means, all orders of queries",
  "One random two-dimensional instance is tested, always in the same order of queries.",
  ["gpcm/normal.py"], [("natural parameters with cached moments","gpcm/normal.py NaturalNormal")],
  [("_mean, _var, _m2","cached moments","gpcm/normal.py")], ["mean","var","m2","kl","logpdf","sample","to_normal"])
p("C07", "The mean-field bound is the exact variational bound and updates are optimal",
  "For all models, data and variational posteriors, the reported mean-field ELBO is exactly the expected log-likelihood of the sparse model minus the KL divergences to the current prior. A coordinate-ascent update never lowers it and yields the exact optimum of the updated factor, the bound collapsed over a factor is its maximum over that factor, and iterating converges to a fixed point that is stored as the posterior.",
  ["inputs","histories","configurations"], "all model integrals, data, noise levels, variational posteriors, numbers of iterations, and prior or posterior stage",
  "No test computes an ELBO or fits a model.",
  ["gpcm/approx.py","gpcm/normal.py"], [("ELBO","gpcm/approx.py MeanField.elbo"),("optimal factors","gpcm/approx.py Approximation.q_u_optimal_mean_field, q_z_optimal_mean_field"),("fixed-point iterations","gpcm/approx.py _fit_mean_field_ca")],
  [("q_u, q_z","variational posteriors as named variables","model.vs")], ["elbo","fit","vs"])
p("C08", "Predictions are the exact posterior moments of new observations",
  "The predicted mean and variance at any times are exactly the first two moments, under the approximate posterior, of a new noisy observation: the law of total expectation over filter and noise inducing variables, observation noise included. Under the structured scheme the noise variables are integrated out given the conditioning data for every posterior filter sample; every prediction is pointwise in time and the variance is at least the noise up to numerical error.",
  ["inputs","histories","configurations"], "all models, posteriors, conditioning data, prediction times, schemes",
  "No test makes a prediction.",
  ["gpcm/approx.py","gpcm/model.py"], [("predictive moments","gpcm/approx.py predict of Structured and MeanField")],
  observe=["predict","predict_fourier"])
p("C09", "The structured scheme samples the exact conditionals and bounds the evidence",
  "Given a value of one set of inducing variables, the conditional of the other used for Gibbs sampling is the exact conditional of the model given the data, and the log normaliser collapsed over the noise variables is exact for all data and filter values. Alternating samples leave the joint posterior unchanged, the final samples are stored as the posterior, and the structured bound is the average of the log normaliser minus the KL divergence and is at least the mean-field bound.",
  ["inputs","histories"], "all model integrals, data, noise levels, inducing values and iteration counts",
  "No test runs the structured scheme.",
  ["gpcm/approx.py"], [("conditionals and log normaliser","gpcm/approx.py q_u_optimal, q_z_optimal, log_Z_u"),("Gibbs sampler","gpcm/approx.py fit for Structured, elbo_gibbs")],
  [("q_u[i].samples, q_z[i].samples","posterior samples","model.vs")], ["elbo","fit","vs"])
p("C10", "Instantiating and conditioning never alter a model or an earlier posterior",
  "Instantiating, conditioning, predicting and evaluating the mean-field bound never change the uninstantiated model, its parameter values, or a posterior obtained earlier: a model can be conditioned any number of times, in any order, and every result depends only on the parameters and on the data that this posterior was conditioned on. Conditioning makes the current approximate posterior the prior for further data, fitting a posterior updates only the newest approximate posterior, and operations that are not defined for a stage are refused.",
  ["histories"], "all sequences of instantiate, condition, fit, predict and evaluate on several models and posteriors",
  "No test conditions a model.",
  ["gpcm/model.py","gpcm/approx.py"], [("instantiation and conditioning","gpcm/model.py __prior__, __condition__"),("stage of the approximate posterior","gpcm/approx.py Approximation.condition")],
  [("stage","index of the current approximate posterior","gpcm/approx.py")], ["vs","predict","elbo"])
p("C11", "Fitting changes exactly the variables it is asked to learn",
  "For every approximation scheme and model, fitting runs to completion, stores the approximate posterior of the current stage, never changes earlier posteriors, fixed hyperparameters or the random state of the user, and changes hyperparameters only if the scheme and options say these are learned. Fitting is deterministic given the variables of the model and the data, and a mean-field fit never lowers the bound.",
  ["configurations","histories"], "all schemes, models, fix_* flags, options and stages",
  "No test fits a model; two documented schemes could not be fitted at all.",
  ["gpcm/approx.py","gpcm/model.py"], [("fit","gpcm/approx.py fit for Structured and MeanField"),("selection of variables","gpcm/approx.py ignore_qs")],
  [("variables","named hyperparameters and posteriors","model.vs")], ["vs","elbo"])
p("C12", "Saving and loading restores a model and its inference results",
  "Loading a saved model into any freshly constructed model of the same kind, before or after that model is used, restores the value of every variable, including all approximate posteriors and samples; predictions and bounds then equal those of the saved model. Saving changes nothing, loading changes only the variables in the file, and saving again produces the same content.",
  ["histories","configurations"], "all models, schemes, stages, and orders of save, load, instantiate, fit and condition",
  "No test saves or loads a model.",
  ["gpcm/model.py"], [("save / load","gpcm/model.py AbstractGPCM")],
  [("variables","named hyperparameters and posteriors","model.vs")], ["vs","predict"])
p("C13", "Elliptical slice sampling accepts only points on the slice and preserves state",
  "Every state of the sampler is a point on the ellipse through the previous state and a fresh prior draw whose log-likelihood exceeds a slice height below that of the previous state; rejected angles shrink the bracket towards the current state, which is never excluded. A draw that fails too often is abandoned and restarted from the same state, the remembered log-likelihood always belongs to the current state, and exactly the requested number of states is returned in order.",
  ["histories","schedules","inputs"], "all log-likelihoods (including NaN and -inf), prior draws and random numbers",
  "One chain on one Gaussian target is compared with its moments at 5% tolerance.",
  ["gpcm/sample.py"], [("bracket shrinking and acceptance","gpcm/sample.py ESS")],
  [("x, log_lik_x","current state and its log-likelihood","gpcm/sample.py")], ["ESS.sample","ESS.move","ESS.x"])
p("C14", "Summaries of kernel, spectrum and filter predictions describe the samples",
  "Every summary of posterior samples gives the exact mean, spread and central 68%, 95% and 99% quantile bounds of the samples at every input, with nested bounds and, in decibels, the transform of these; the samples themselves are returned unchanged. Predictions of the kernel, power spectrum, filter and Fourier features are these summaries of samples of the current posterior at the requested or default inputs.",
  ["inputs","configurations"], "all sample sets, inputs, schemes and models",
  "No test summarises samples or predicts a kernel, spectrum or filter.",
  ["gpcm/util.py","gpcm/model.py","gpcm/approx.py"], [("summary statistics","gpcm/util.py summarise_samples"),("predictions","gpcm/model.py predict_kernel, predict_psd, predict_filter, predict_fourier")],
  observe=["summarise_samples","predict_kernel","predict_psd","predict_fourier","predict_filter"])
p("C15", "Spectral and time-series estimates satisfy their defining identities",
  "For every kernel sampled from time zero, the estimated spectrum is non-negative, given at the non-negative frequencies of the time spacing, proportional to the Fourier transform of the symmetrised kernel and scaled to a total power equal to the kernel at zero. The minimum-phase transform keeps the magnitude spectrum, and the autocorrelation estimates equal their defining sums for every length, lag, normalisation and window.",
  ["inputs"], "all kernels, spacings, paddings, filters and series",
  "None of these functions has a test.",
  ["gpcm/util.py"], [("estimate_psd, min_phase, autocorr","gpcm/util.py")],
  observe=["estimate_psd","min_phase","autocorr"])
p("C16", "Matrix and optimisation utilities return exactly what they define",
  "The nearest positive semi-definite matrix (and its pseudo-inverse) keeps the eigenvectors and the non-negative eigenvalues of the symmetric part and zeroes the others; inverting a permutation composes to the identity; a Hessian equals the symmetrised matrix of second derivatives; and the Laplace approximation of a density has its mode and inverse curvature, exactly so for Gaussian densities.",
  ["inputs"], "all matrices (symmetric or not, definite or not), permutations, polynomial functions and Gaussian densities",
  "None of these functions has a test.",
  ["gpcm/util.py"], [("closest_psd, invert_perm, hessian, maximum_a_posteriori, laplace_approximation","gpcm/util.py")],
  observe=["closest_psd","invert_perm","hessian","maximum_a_posteriori","laplace_approximation"])
p("C17", "Random results are reproducible and consume randomness only as declared",
  "With initialised posteriors, operations given an explicit random state return an advanced state, depend on randomness only through it and leave the global random state of the backend alone; operations without one consume and advance the global random state. Equal states give equal results, successive calls give different ones, and deterministic operations consume no randomness.",
  ["histories","schedules"], "all sequences of sampling, evaluation, prediction and fitting calls with explicit or global states",
  "No test looks at random states.",
  ["gpcm/approx.py","gpcm/normal.py","gpcm/model.py"], [("threading of random states","gpcm/normal.py sample, gpcm/approx.py elbo and fit, gpcm/model.py predict_filter and sample")],
  [("global random state","state used when none is given","lab")], ["results","global random state"])
p("C18", "The experiment runner builds, trains, saves and reloads the models asked for",
  "For every selection and order of model names, the experiment runner builds exactly the models asked for, in the fixed order GPCM, CGPCM, GP-RV, with the given settings, and refuses unknown names. Training fits every model on the data and saves each under its own name, loading restores exactly these files and trains nothing, and hyperparameters are kept fixed when asked.",
  ["configurations","histories"], "all subsets and orders of model names, schemes, settings, and train-then-load histories",
  "No test imports the experiments.",
  ["experiments/experiment.py"], [("build_models, train_models, run","experiments/experiment.py")],
  observe=["build_models","train_models","run"])
p("C19", "Kernel approximation and prior sampling follow the model",
  "The approximate kernel given filter values equals the conditional second moment of the filter convolution for all times and values: averaged over the prior of the filter values it is the exact prior kernel. Sampling from the prior returns this kernel at a prior draw, normalised to one at the first point if asked, with a function drawn from it plus observation noise, and is refused on a posterior.",
  ["inputs","configurations"], "all models, hyperparameters, inducing values and times",
  "The tests only check by Monte Carlo, at 5% and at time zero, that the mean power is one.",
  ["gpcm/model.py"], [("kernel_approx, sample","gpcm/model.py AbstractGPCM")],
  observe=["kernel_approx","sample","sample_kernel"])
p("C20", "Every learnable setting of the parameters is a valid model",
  "For every model and choice of fixed parameters, exactly the documented parameters are learnable, and every point of the unconstrained space that the optimisers search maps to a valid model: positive noise and decays, an inter-domain decay below the window decay in the rough model, inducing points within their bounds, and consistent parameters that are fixed. The values a model uses are those of its variables, and changing a variable changes the next instance accordingly.",
  ["inputs","configurations","histories"], "all unconstrained parameter vectors, all fix_* flags and models",
  "No test instantiates a model with its variables.",
  ["gpcm/gpcm.py","gpcm/rgpcm.py"], [("registration of bounded and positive parameters","gpcm/gpcm.py GPCM.__prior__, gpcm/rgpcm.py RGPCM.__prior__")],
  [("variables","named hyperparameters","model.vs")], ["vs","attributes of instances"])
p("C21", "The analysis of an experiment shows what the models say",
  "For every selection of models and options, the analysis conditions every model on the data and draws one panel per model, in order, for the function, the kernel and the power spectrum, and the Fourier features for the rough model only. The curves, error bounds (the function with and without observation noise) and samples are exactly the predictions of these posteriors at the requested inputs; the truth, the true kernel and the empirical autocorrelation are shown exactly when given, respectively when the data are equally spaced; given axis limits are respected. The reported bounds and likelihoods are those of the models and of the Gaussian processes given, figures are saved exactly when asked, and no model is changed beyond what estimating the bound requires.",
  ["configurations","inputs"], "all selections of models, schemes, options, data and posteriors",
  "No test imports the experiments.",
  ["experiments/experiment.py"], [("analyse_models, analyse_elbos, analyse_plots","experiments/experiment.py")],
  observe=["figures","reported bounds","saved files"])
p("C22", "Answers do not depend on how the problem is told",
  "The same data, model and approximate posterior told differently give the same answers: observations in another order, vectors in another representation (NumPy, JAX, strided, read-only, integers, single precision), another unit of time or of the signal, another origin of time, the opposite sign of the signal, opposite signs of both filter and excitation, time reversed (acausal model), or every observation twice with twice the noise. Bounds change exactly by the constants that the density of the data implies, and all predictions (function, kernel, spectrum, filter, samples) exactly by the dimension of their quantity.",
  ["inputs","configurations"], "all data, models, units and sequences of such changes",
  "The tests use one data set in one unit and compare an answer with nothing but itself.",
  ["gpcm/approx.py","gpcm/model.py","gpcm/gpcm.py","gpcm/rgpcm.py"],
  [("handling of data, constants of the bounds, scales of predictions","gpcm/approx.py, gpcm/model.py, gpcm/gpcm.py, gpcm/rgpcm.py")],
  observe=["elbo","predict","predict_kernel","predict_psd","predict_filter","kernel_approx","sample"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import subprocess
