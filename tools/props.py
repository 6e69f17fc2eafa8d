PBT = 'property-based testing (Hypothesis): '
NOTE = ('Searches generated inputs against an independent oracle; gives no proof of absence. '
        'Shrunk failures become replay files. ')

prop('P07', 'Observed information and likelihood step sizes are correct',
     'For a smooth log likelihood with an interior maximum, the observed information returned by deriv.obsinfo '
     'is the symmetric matrix of negative second derivatives at the maximum, to within the accuracy the step '
     'sizes and iteration count allow, with an uncertainty estimate; dllsteps returns, for every parameter, a '
     'step (of the sign of the guess) at which the log likelihood drops by the requested amount to within the '
     'tolerance. Arguments are never altered, exceptions of the user function propagate, and failures (not a '
     'maximum, no convergence) are reported by an exception rather than by wrong numbers.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all log-likelihood functions, parameter counts, maxima, guesses, drops, tolerances and iteration counts; '
     'user functions that raise at any call',
     'The tests run a couple of fixed functions and mostly only require that nothing raises.',
     ['deriv/obsinfo.py', 'deriv/_obsinfo.f'],
     [('obsinfo, dllsteps wrappers', 'deriv/obsinfo.py'), ('dllsteps, ninfol, ndiff', 'deriv/_obsinfo.f')],
     PBT + 'analytic Hessians of generated polynomial and Poisson log likelihoods; injected exceptions',
     NOTE + 'Trusted: numpy for the analytic Hessian; bound on finite-difference roundoff.')

prop('P08', 'On/off marginal likelihood equals the analytic series',
     'For any on/off counts, intervals and signal rate s >= 0 the log marginal likelihood of the signal rate '
     '(scalar or array argument, single channel or vectors of channels) equals the analytic series up to the '
     'documented offset constant, to within the requested cutoff, and is finite; the offset is the log of the '
     'largest term at the estimated peak rate. The derivative version returns the derivative of the same function.',
     ['inputs'], 'all counts (zero and large included), intervals, cutoffs, signal rates and argument shapes',
     'The tests evaluate one data set and compare nothing at zero counts, large counts or extreme rates.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('OnOff.siglml', 'count/onoff.py'), ('slmlike, slml_offset, vslmlike, slmliked', 'count/_cbmlike.f')],
     PBT + 'differential against a log-sum-exp reference of the series',
     NOTE + 'Trusted: scipy gammaln/logsumexp; tolerance 5e-9 in the log for the documented gammln accuracy.')

prop('P09', 'On/off signal-count probabilities and posterior density are correct',
     'For any on/off data the probabilities that 0..n_on of the on-source counts are signal are nonnegative, sum '
     'to one and equal the analytic ratio, whether obtained all at once or one by one, and the posterior density '
     'of the signal rate equals the Poisson mixture with those weights, integrates to one and is proportional to '
     'the marginal likelihood. Results do not depend on which methods were called before, on other objects, or '
     'on what a caller does with returned arrays; illegal counts are refused.',
     ['inputs', 'histories'], 'all data, rates and sequences of method calls over several objects',
     'The tests call each method once on one data set; caching and call order are never exercised.',
     ['count/onoff.py', 'count/_cbmlike.f'],
     [('OnOff.pnsig, OnOff.sigmp', 'count/onoff.py'), ('sigctp, psigc, ppois', 'count/_cbmlike.f')],
     PBT + 'stateful call histories against a reference mixture model, plus quadrature',
     NOTE + 'Trusted: scipy gammaln/logsumexp and Gauss-Legendre quadrature.')

prop('P10', 'Highest-density content and levels on 1-D and 2-D grids are correct',
     'For a log density tabulated or computed on a linear or logarithmic grid in one or two dimensions, the '
     'normalization is the piecewise-linear quadrature of the density, the reported fraction of probability '
     'above a level is the fraction of that quadrature lying above it, and the critical level for probability p '
     'is the level whose content is p, to the stated tolerance. Density offsets of any size do not matter, the '
     'table and the function forms agree, and the input table is not altered.',
     ['inputs', 'configurations'],
     'all grids, step types, tabulated densities (plateaus, peaks at edges, vanishing cells), levels and p',
     'The tests evaluate Gaussians on one grid each.',
     ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f', 'utils/numutils.py'],
     [('HPD1D, HPD2D, normal-density helpers', 'grid/hpd.py'), ('function-based versions', 'grid/hpdgrid.py'),
      ('qt1d, qt2d, xvalues', 'grid/_gridquad.f')],
     PBT + 'differential against cell-by-cell integration of the piecewise-linear density',
     NOTE + 'Trusted: the reference integrator in lib/hpdlib.py.')

prop('P11', 'Boundaries of highest-density regions are complete and exact',
     'For a 1-D log density on a linear or logarithmic grid, the boundaries reported with a critical level are '
     'exactly the points, in increasing order, where the interpolated density crosses that level, at the ends '
     'of the support also when the density vanishes beyond; none is missing or spurious. When there are more '
     'boundaries than can be reported an exception says so.',
     ['inputs'], 'all 1-D grids and multimodal densities with 0 to 30 crossings',
     'The tests look at single-peaked densities, with two boundaries.',
     ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f'],
     [('critlevel', 'grid/hpd.py'), ('xvalues', 'grid/_gridquad.f')],
     PBT + 'crossings recomputed by brute force on generated multimodal tables',
     NOTE + 'Cases whose level coincides with a grid value are skipped.')

prop('P12', 'Adaptive 1-D grids refine consistently and never lose accuracy',
     'After any refinement a 1-D grid (linear or logarithmic) is a strictly increasing set of points covering '
     'exactly its range, nowhere coarser than the base grid or than it was before the refinement, and at least as '
     'fine as requested on each refined interval. Length, indexing, iteration, lookup by number and by abscissa, '
     'widths and values agree with the function and with each other, integral and moments equal the trapezoid '
     'rule over those points, and a Gaussian peak narrower than the base step is integrated accurately.',
     ['inputs', 'histories'], 'all ranges, base sizes, step types, integrands and sequences of refinements',
     'The tests refine two fixed functions once and print the result.',
     ['grid/grid1d.py'],
     [('RefinedIntervalList1D.update/merge/locate/nlocate', 'grid/grid1d.py'),
      ('Grid1D.firstpass/refine/point/trapzd/logtrapzd/logtrapzd_mom', 'grid/grid1d.py')],
     PBT + 'refinement histories checked against interval invariants and a direct trapezoid rule',
     NOTE + 'Abscissas may carry roundoff of 1e-9 of the range.')

prop('P13', 'Basic 1-D grids evaluate, integrate and subdivide exactly',
     'A basic 1-D grid evaluates the function once at each of its n points (both ends exact), point by point or '
     'vectorised, scalar or tuple valued; its integral, log integral and first two moments are the trapezoid rule '
     'over those points, also for integrands whose exponentials overflow. A subgrid is exactly the corresponding '
     'part (off-grid limits are refused), and the recorded maxima are exactly the local maxima and end maxima with '
     'the parameters of the parabola through the neighbouring points, ranked by height or area as asked.',
     ['inputs', 'configurations'], 'all ranges, sizes, step types, integrands, tuple selections and subranges',
     'The tests use one linear and one log grid with fixed functions.',
     ['grid/grid1d.py'], [('BasicGrid1D', 'grid/grid1d.py')],
     PBT + 'differential against direct numpy quadrature and brute-force peak search', NOTE)

prop('P14', 'Lists of maxima keep the right entries; peak estimates are exact',
     'After any sequence of updates, range limits, deletions and assignments a list of labelled maxima holds, in '
     'decreasing order with earlier entries first among equals, exactly the largest values seen up to its maximum '
     'length that lie within the dynamic range of the largest; the order of updates does not matter. The Gaussian '
     'estimated from three points of a Gaussian peak is that Gaussian, however the points are spaced.',
     ['inputs', 'histories'], 'all update histories, lengths, dynamic ranges; all Gaussians and point triplets',
     'The lists are only exercised indirectly, on two functions.',
     ['grid/grid1d.py'], [('LabeledMaxList', 'grid/grid1d.py'), ('PeakParams, IsPeak', 'grid/grid1d.py')],
     PBT + 'model-based histories (sorted-list model) and exact Gaussians', NOTE)

prop('P15', 'Two-dimensional cubature rules are exact to their stated degree',
     'Every fixed two-dimensional cubature rule (over the square and over the plane with Gaussian weight) '
     'integrates all polynomials up to its stated degree exactly, for any scale and function form, evaluates its '
     'integrand exactly the stated number of times at distinct points inside the region, and lets exceptions of '
     'the integrand propagate.',
     ['inputs'], 'all rules; all polynomials up to the degree; all scales',
     'The tests compare a few rules on one or two monomials.',
     ['integrate/cub2d.py'], [('e2r2_*, rule objects', 'integrate/cub2d.py')],
     PBT + 'random polynomials with exact integrals, point counting', NOTE)

prop('P16', 'Adaptive cubature of scalar functions is accurate and honest',
     'Adaptive cubature over any hyperrectangle integrates smooth functions to the requested accuracy and '
     'polynomials of the rule\'s degree exactly; the reported number of evaluations is the actual one and respects '
     'the limits given, evaluations never leave the region, bounds are not altered, and exceptions of the integrand '
     'propagate. Failure to reach the accuracy, and illegal arguments, are reported by an exception.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all dimensions 2..8, regions, smooth integrands, accuracies, evaluation limits; integrands that raise',
     'The tests integrate a handful of fixed functions.',
     ['integrate/adapt.py', 'integrate/adapt_py.f'], [('adapt', 'integrate/adapt.py'), ('adapt', 'integrate/adapt_py.f')],
     PBT + 'separable integrands with closed-form integrals, polynomials to the degree, fault injection', NOTE +
     'The true error may be three times the requested one.')

prop('P17', 'Adaptive cubature of vector functions is accurate and honest',
     'Adaptive cubature of vector-valued functions over any hyperrectangle and with any of its integration rules '
     'returns all components to the requested accuracy (polynomials of the rule\'s degree exactly), in whichever '
     'form the integrand returns its values and whatever the order of the components; the evaluation count is '
     'the actual one and lies within the limits, and failure or illegal arguments are reported by an exception.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all dimensions 2..6, rules, regions, numbers of components, accuracies, limits; integrands that raise',
     'The tests integrate one function, with the default rule.',
     ['integrate/adapt_vec.py', 'integrate/dcuhre_py.f'],
     [('adapt_vec', 'integrate/adapt_vec.py'), ('dcuhre', 'integrate/dcuhre_py.f')],
     PBT + 'closed-form integrals, polynomials to the degree, permuted and scaled components', NOTE +
     'The true error may be three times the requested one.')

prop('P01', 'The score of an inference is the fit statistic at the current parameters',
     'For any model built from a SignalModel, a PredictorSet and an inference method, the parameters and predictors are '
     'those defined in the classes, in the order of definition, and the score (chi-squared, log likelihood, or log '
     'likelihood plus log prior) is the sum over all predictors of the statistic of their data at the *current* parameter '
     'values, however those were set, for scalar (signal) and vectorised (signals) models, one or several data sets, and '
     'scalar or vector locations in every accepted data format; predictions and residuals agree with it. on_use runs before '
     'the signal is evaluated with changed parameters. Instances and classes sharing models or data do not affect each '
     'other, the data are never altered, and inconsistent data or duplicate parameter names are refused.',
     ['inputs', 'configurations', 'histories'],
     'all models, data sets and formats, inference methods, and histories of parameter changes over several instances',
     'The tests define one two-parameter model and check single values.',
     ['pie/inference_base.py', 'pie/gaussian.py', 'pie/signalmodel.py', 'pie/predictor.py', 'pie/autoname.py', 'pie/chisqr.py',
      'pie/maxlike.py', 'pie/bayes.py'],
     [('Inference.__init__, _get_signal_names, _get_pred_names', 'pie/inference_base.py'),
      ('SampledGaussianHandler.get_prdxns/chisqr/log_like, SampledGaussian.set_data', 'pie/gaussian.py'),
      ('SignalModel._on_use, _on_param_value_change', 'pie/signalmodel.py'), ('score', 'pie/bayes.py')],
     PBT + 'generated model classes and change histories against a reference evaluation; metamorphic relations',
     NOTE + 'Trusted: the reference evaluation in lib/pielib.py.')

prop('P02', 'Parameters keep consistent values, ranges and status through any history',
     'Through any sequence of assignments and of fix, vary, range, set_value, step, linstep, logstep, next, previous, first '
     'and last step, and of stepping, resetting, saving and restoring whole inferences, every parameter is in exactly one of '
     'the fixed, varying and stepping lists (in the order it entered them) and has the value, range, scale and step number '
     'the operations imply; it behaves as a float. A refused operation (value out of range, wrong status, missing range or '
     'scale) raises the documented kind of exception and changes nothing. Value changes are announced to on_param_change of '
     'the owning instance only; values saved by get_params are copies that set_params restores. The unbounded mapping of a '
     'bounded parameter is monotonic, stays in range and inverts.',
     ['inputs', 'histories'],
     'all histories of parameter operations over several parameters and instances, all ranges and values',
     'The tests step one grid and vary two parameters once; refusals and mixed histories are not exercised.',
     ['pie/param.py', 'pie/realparam.py', 'pie/inference_base.py', 'pie/containers.py'],
     [('RealParamHandler', 'pie/realparam.py'), ('Param.__get__/__set__, ScalarParamHandler', 'pie/param.py'),
      ('_on_param_status_change, get_params, set_params', 'pie/inference_base.py'), ('ParamValues', 'pie/containers.py')],
     PBT + 'stateful: operation histories against an explicit state-machine model of parameters and inferences',
     NOTE + 'Histories of up to 25 operations; interior step values to 1e-10.')

prop('P03', 'Grids of stepped parameters are complete and correctly labelled',
     'Stepping through an inference visits every point of the grid of its stepped parameters exactly once, each move '
     'changing one parameter by one step, with exact end points and correct interior values (linear or logarithmic), '
     'then signals the end and is back at the first point. A fit with stepped and fixed parameters returns the score at '
     'every grid point at its own index, with the axes (name, limits, number and type of steps) in stepping order, '
     'whatever steps were taken by hand before and also after an earlier calculation failed at any point; the parameters '
     'end at the first grid point and the fixed ones are untouched.',
     ['inputs', 'histories', 'fault_sequences'],
     'all sets of stepped parameters, step types, counts, limits and ranges; all preceding step histories and failures',
     'The tests evaluate one two-dimensional grid.',
     ['pie/inference_base.py', 'pie/realparam.py', 'pie/containers.py'],
     [('next_step, reset_steps, do_grid', 'pie/inference_base.py'), ('next_step, prev_step', 'pie/realparam.py'), ('ScalarGrid', 'pie/containers.py')],
     PBT + 'generated grids, step histories and injected model failures against direct evaluation of the score',
     NOTE + 'Up to 4 stepped parameters of up to 12 steps.')

prop('P04', 'Fits reach the optimum and leave the inference there',
     'A fit with varying parameters returns the optimum of the score with respect to them (minimum of chi-squared, maximum '
     'of likelihood or posterior) to the requested tolerance where the problem is well conditioned, never a point worse '
     'than the start, and inside the parameter ranges, with bounds mapped or not; the returned parameters (in the order '
     'they were set varying) and extremum agree with the state and score of the inference afterwards, and fixed '
     'parameters are untouched. With stepped parameters too, the profile holds this optimum at every grid point, opt_val '
     'and opt_ind identify the best one, and the grid of varying parameters holds the parameters that give each value. '
     'Impossible requests are refused and leaving an unmapped range is reported.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all models, data, start values, scales, ranges, tolerances, and sets of fixed, varying and stepped parameters',
     'The tests fit one model from one start and look at the result coarsely.',
     ['pie/inference_base.py', 'pie/realparam.py', 'pie/containers.py', 'utils/nrmin.py'],
     [('optimize, do_grid, fit, _score', 'pie/inference_base.py'), ('_unbounded_get_value/_unbounded_set_value', 'pie/realparam.py'),
      ('powell', 'utils/nrmin.py'), ('ScalarGrid, VectorGrid', 'pie/containers.py')],
     PBT + 'linear models with generated data against weighted least squares; consistency invariants for nonlinear ones',
     NOTE + 'Optimality is checked for linear models of condition number < 12 only; failure to converge is reported by the '
     'optimiser and accepted otherwise.')

prop('P05', 'Observed information of a Bayesian inference is the curvature at the mode',
     'For a Bayesian inference at a mode, obs_info returns the symmetric matrix of negative second derivatives of the log '
     'posterior with respect to the varying parameters, in their order, to finite-difference accuracy, for any starting '
     'steps, change of log posterior and number of extrapolations, with error estimates on request. The inference is left '
     'as it was (values, status and scales), also if the model fails at any point, and repeating the call gives the '
     'same result.',
     ['inputs', 'fault_sequences'],
     'all models with an interior mode, sets of varying parameters and options; model failures at any evaluation',
     'The tests print the matrix of one model.',
     ['pie/bayes.py', 'deriv/obsinfo.py'],
     [('BayesianInference.obs_info, _logp_func', 'pie/bayes.py'), ('dllsteps, obsinfo', 'deriv/obsinfo.py')],
     PBT + 'analytic information matrices of linear (and noiseless quadratic) models with Gaussian priors; injected failures',
     NOTE + 'Starting scales within a factor 5 of the conditional widths.')

prop('P06', 'Simulated data come from the model and stay local',
     'Simulating data (all, one datum, or additional ones, with or without new locations and sigmas) gives values whose '
     'deviations from the predictions at the current parameters are independent normal deviates times the sigmas, at '
     'exactly the requested locations; data that were not simulated keep their values; the number of data, the dimension '
     'and the score follow. The simulation is reproducible from the random seed, changes only the instance it was made '
     'with, never the original data or the arguments, and mismatched lengths are refused without changing the data.',
     ['inputs', 'histories'],
     'all data sets and histories of simulations, parameter changes and scores over several instances',
     'The tests call sim once and print the data.',
     ['pie/gaussian.py', 'pie/predictor.py'],
     [('sim, sim1, add_sim, localize_data, note_size', 'pie/gaussian.py'), ('Predictor.__get__', 'pie/predictor.py')],
     PBT + 'stateful simulation histories over three instances against a reference record of the data; seeded statistics',
     NOTE + 'Statistical limits are 6.5 standard deviations at seeds fixed by the generator.')

prop('P18', 'Minimisers bracket and find minima without altering their arguments',
     'MinBracket returns three ordered points whose middle value is no larger than the outer two, with the function values '
     'at them; brent then returns a point inside the bracket, no worse than its middle, that is a minimum to the tolerance, '
     'with its value; linmin moves along the direction to such a minimum; powell returns a point and its value no worse '
     'than the start and, for well conditioned quadratics, the minimum. Starting points and directions are not altered, '
     'exceptions of the function propagate, and failure to converge raises.',
     ['inputs', 'fault_sequences'], 'all functions with a minimum, starting points, directions and tolerances',
     'There are no tests of the minimisers.',
     ['utils/nrmin.py'], [('MinBracket, brent, linmin, powell', 'utils/nrmin.py')],
     PBT + 'generated functions with known minima; invariants of brackets and minima',
     NOTE + 'Powell failing to converge on flat or zero minima is accepted.')

prop('P19', 'Steppers, log-domain sums and root brackets are exact',
     'Linear and logarithmic steppers yield exactly the requested number of steps, start and end exactly at the limits '
     '(also decreasing), with even (or proportional) steps between, numbered in order, and independently of each other. '
     'LogSummer returns the count (with zeros), the log of the sum, of the mean, and if asked of the sum of squares and '
     'the standard deviation, for any number and range of values, without overflow or NaN. zbracket returns an expanded '
     'interval over which the function changes sign, leaves one that brackets a zero alone, raises within maxtries '
     'when there is none, and propagates exceptions of the function. flatten yields the leaves of nested sequences in order.',
     ['inputs', 'histories'], 'all limits, counts, sequences of summed values over any dynamic range, functions, intervals',
     'There are no tests of these utilities.',
     ['utils/numutils.py'], [('lin_stepper, log_stepper, LogSummer, zbracket, flatten', 'utils/numutils.py')],
     PBT + 'closed forms, exact log-sum-exp, and functions with known zeros',
     NOTE + 'zbracket is searched with monotonic functions, or ones without zero.')

prop('P20', 'Files return what was saved and nothing is lost',
     'An ArrayStore or AttrStore returns every attribute that was saved, unchanged in value and type, when opened again, '
     'by its name with or without extension; attributes not loaded yet, new and replaced ones are all saved by the next '
     'save, contents lists them, illegal values are refused. safe_open (and saving over a file) keeps the previous version '
     'under a backup name: no earlier contents are lost, also if the save fails. A saved random-number state, restored, '
     'continues the very same sequence of deviates. read_column_vectors returns the columns of a table as written.',
     ['histories', 'crash_points', 'inputs'],
     'all histories of creating, setting, reading, saving, failing and reopening stores and files; all generator states',
     'The tests contain no round trip.',
     ['utils/ioutils.py', 'utils/rng.py'],
     [('ArrayStore, AttrStore, safe_open, backup, read_column_vectors', 'utils/ioutils.py'), ('save_rng, restore_rng', 'utils/rng.py')],
     PBT + 'stateful round-trip histories against a reference record of the files; injected failures while saving',
     NOTE + 'Only in scratch directories.')

prop('P21', 'Plots show the values they are given at the right places',
     'Contour plots of a bivariate log density (plot_bivar, the plot method of 2-D grids of an inference and of HPD grids) '
     'draw, for each level, exactly the points where the (interpolated) values have that level: default levels are those '
     'of 1 to 6 standard deviations, plevels those of the given probabilities, explicit levels absolute, in any order and '
     'for both index orders. Grey images, their limits and extent, the cross, labels and the coordinate read-out agree '
     'with the values; 1-D plots draw the values against the steps; overlays use the current figure. Arguments '
     'and grids are not altered; what cannot be plotted is refused.',
     ['inputs', 'configurations'], 'all grids, values, orders, level specifications and options',
     'The tests show plots or never look at them.',
     ['utils/plot_bivar.py', 'pie/containers.py', 'grid/hpdgrid.py'],
     [('plot_bivar', 'utils/plot_bivar.py'), ('ScalarGrid.plot', 'pie/containers.py'), ('HPDGrid1D.plot, HPDGrid2D.plot', 'grid/hpdgrid.py')],
     PBT + 'contours, images and lines read back from matplotlib and compared with the interpolated values',
     NOTE + 'matplotlib (Agg) is trusted; increasing axes.')

prop('P22', 'Bretthorst statistics are those of linear least squares',
     'For any basis functions, data, uncertainties (one sigma or one per datum), optional setup function, and nonlinear '
     'parameters, BA and BAObj give the quadratic form (smallest sum of squared standardized residuals), the sufficient '
     'statistic (sum of squared standardized data minus it), the Jacobian (inverse root determinant of the metric), '
     'amplitudes, residuals and covariance of the weighted linear fit at these parameters, whatever was '
     'calculated before and in whatever order; without parameters, those of the last ones; also after a basis function raised. '
     'Inconsistent data are refused.',
     ['inputs', 'histories', 'fault_sequences'],
     'all basis sets, data and histories of requests over parameter values, with failures of basis functions at any call',
     'The tests are Python 2 scripts; memoized results depend on the history of calls.',
     ['gauss/vecba.py'], [('BA, BAObj: calc_marg_stats, amplitudes, residuals, covar', 'gauss/vecba.py')],
     PBT + 'histories of requests against least squares by numpy; injected failures',
     NOTE + 'The C kernel vba is a placeholder in this repository; the check supplies a numpy kernel with its documented results.')

prop('P23', 'Populations and piecewise linear densities are sampled as specified',
     'PWLinear built from values or log values on a grid has the normalized piecewise linear density, zero beyond the cutoff, '
     'and samples (one or many) are finite, within the support and distributed by it, also where it is flat or nearly so. '
     'A Population samples its members with probability proportional to weight, and draws subsets of distinct members '
     '(both algorithms, in any order and of any sizes) with inclusion probability proportional to weight; impossible sizes '
     'are refused; sequences follow numpy\'s random state and leave a pending normal deviate. Population1D keeps weights and errors with their values.',
     ['inputs', 'histories'], 'all densities, grids, cutoffs, populations, weights, seeds and histories of sampling',
     'The tests are Python 2 scripts that plot histograms.',
     ['mc/pwlinear.py', 'mc/population.py'],
     [('PWLinear: __init__, sample, pdf', 'mc/pwlinear.py'), ('Population: sample, subset_pps, subset_pps5', 'mc/population.py')],
     PBT + 'densities against interpolation, samples by Kolmogorov-Smirnov statistics, sampling histories with an equivalent sampler',
     NOTE + 'The C sampler _ppssampler is not built here; the check supplies one with the same interface and protocol.')
