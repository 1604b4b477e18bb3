"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
I, G, A, K, S = ('sdepy/infrastructure.py', 'sdepy/integration.py',
                 'sdepy/analytical.py', 'sdepy/kfun.py', 'sdepy/shortcuts.py')
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech])))


p('P01', 'Building a process stores exactly the timeline and values that were given',
  'A process built from a timeline of N>=1 points (a scalar counts as one point) and full values, per-time values without a paths axis, or one constant value, has shape (N,) + value shape + (paths,), holds the given value at every time and path (one path in the last two cases; the constant at every time, complex constants included), and keeps the given timeline. '
  'Exactly one of the three kinds of values must be given, the timeline must be a scalar or a non-empty vector, and the length of the values must match that of the timeline: anything else raises ValueError. '
  'Its path-wise, time-wise and plain copies hold the same values and timeline, and only the parts meant to be copied stop sharing memory with the original, and its attributes report the number of paths, the value shape and the timeline reshaped to broadcast with the values.',
  ['inputs'], 'all timelines, value shapes, path counts and values',
  'A test samples a few shapes; shapes, sizes and values are unbounded.',
  [I], [('process constructor', I + ':process.__new__'), ('copies', I + ':process.pcopy, xcopy, tcopy')])

p('P02', 'Process indexing selects the same entries as plain array indexing',
  'Indexing a process in time, value or path mode returns a process holding exactly the entries that the same index selects on that axis (or, in value mode, on the value axes) of its values, keeping every other axis; in time and path mode an integer index, negative ones included, keeps its axis with length one. '
  'Time mode selects the same points of the timeline, value and path mode keep the timeline unchanged, and the parent type is kept. '
  'Plain indexing without a mode returns what the underlying array returns, as an array, and an unknown mode raises IndexError.',
  ['inputs'], 'all processes and all integer, slice, mask, index-array and ellipsis keys',
  'The key and shape space is unbounded and off-by-one errors show only at its edges (last element, negative indices, empty slices).',
  [I], [('mode indexing', I + ':process.__getitem__')])

p('P03', 'Arithmetic on processes keeps values, timeline and refuses bad mixes',
  'Applying a numpy function or operator to processes, arrays and scalars gives a process whose values are those of the same operation on the underlying arrays, and whose timeline is the common one, or the multi-point one when the others have a single time point. '
  'Operands are accepted only if, for every process taking part, timelines are equal or one of them has a single point, the number of axes is the same and all axes agree or are one; otherwise ValueError is raised and no result is produced, even if the plain arrays would broadcast. '
  'In-place operations store the same values in the target process and leave its timeline unchanged.',
  ['inputs'], 'all operand orders, shapes, timelines and element values',
  'Compatibility rules are about combinations of shapes and timelines; only a few combinations are ever sampled.',
  [I], [('ufunc hooks', I + ':process.__array_prepare__, __array_wrap__, __array_finalize__'),
        ('compatibility rule', I + ':process._is_compatible')])

p('P04', 'A process evaluates to the piecewise linear interpolant of its values',
  'Called at any times, a process returns, for each requested time, its stored value at that time if it is a point of the timeline, the linear interpolation of the two neighbouring points if it lies between them, and the first or last stored value outside the timeline (always the only value, for one-point timelines); the result has the shape of the requested times followed by the value and path axes. '
  'Called with an increment it returns the value at time plus increment minus the value at time. '
  'Rebasing on a new timeline gives a process with that timeline and those interpolated values, and selecting another interpolation kind, per call or as an attribute, applies that kind instead.',
  ['inputs'], 'all timelines, values, and query times and increments',
  'Query times between, at and beyond nodes are a continuum; tests sample a handful of them.',
  [I], [('interpolator', I + ':process.interp, __call__'), ('rebase', I + ':process.rebase')])

p('P05', 'Piecewise constant processes jump where they say they do',
  'A piecewise constant process evaluates, at any time strictly between two points of its timeline, to the value at the left point in forward mode, to the value at the right point in backward mode, and to the value of the nearest point in mid mode. '
  'Before the first and after the last point it evaluates to the first and the last value, in every mode and for any number of points, and an unknown mode raises ValueError.',
  ['inputs'], 'all timelines, values, modes and query times off the points of the timeline (and off their midpoints in mid mode)',
  'Values between nodes are a continuum and each mode handles the ends separately.',
  [I], [('piecewise', I + ':piecewise')])

p('P06', 'Summaries across paths, values and time reduce the right axis',
  'The minimum, maximum, sum, mean, variance and standard deviation (with the given degrees-of-freedom correction) across paths, across values and across time are, entry by entry, that statistic over the path axis, over all value axes, and over the time axis respectively. '
  'Path summaries keep the timeline, the value shape and one path; value summaries keep the timeline and the paths and drop the value axes; time summaries keep value shape and paths with the first time point as timeline; the cumulative sum over time keeps the full shape and timeline. '
  'Value reshaping to a shape with more or fewer leading one-axes never changes any entry and raises ValueError if a dropped axis has a size other than one.',
  ['inputs'], 'all floating point processes of any shape',
  'Each summary is a statement about all entries of an array of any size.',
  [I], [('summaries', I + ':process.pmin ... tstd, tcumsum'), ('reshaping', I + ':process.shapeas')])

p('P07', 'Differences, derivative and integral along the timeline are consistent',
  'The time difference of a process is, at every step, the next value minus the current one, divided by the step length raised to the given power, and is placed at the start of each step, or at its end if not forward. '
  'The derivative is the forward difference divided by the step length. '
  'The integral starts from zero and at each time equals the sum of value times step length over the preceding steps, so that the derivative of the integral gives back the process on all but the last time, for any values and any timeline spacing.',
  ['inputs'], 'all floating point processes with two or more time points',
  'The telescoping identity is inductive in the number of time points.',
  [I], [('time calculus', I + ':process.tdiff, tder, tint, dt, dtx, tx')])

p('P08', 'Empirical characteristic and distribution functions average over paths',
  'The characteristic function estimate of a process at times t and points u is, for every time, every u and every value entry, the mean over paths of exp(i*u*x(t)), with shape times + points + value shape. '
  'The cumulative distribution estimate at points x is the fraction of paths with x(t) <= x, with the analogous shape. '
  'Without explicit times both are evaluated at all points of the timeline, and a missing last argument raises TypeError.',
  ['inputs'], 'all processes, times (scalars or arrays), and points (scalars or arrays)',
  'Axis alignment between times, points, values and paths has to hold for every combination of ranks.',
  [I], [('estimators', I + ':process.chf, cdf')])

p('P09', 'Wiener increments have the documented law',
  'For any times t and increments dt, a Wiener source returns an array of shape broadcast(t, dt) + value shape + (paths,) of jointly Gaussian increments with mean zero and variance |dt|, independent across times, paths, calls and value entries. '
  'If a correlation matrix is given, the entries along the last value axis, and only those, are correlated with covariance corr*|dt|, a time-dependent matrix being evaluated at t + dt/2. '
  'A correlation that does not match the last axis of the value shape is rejected with ValueError.',
  ['inputs', 'histories'], 'all shapes, times, increments of either sign, correlations, and random draws',
  'The law of random output cannot be read off samples exactly; statistical tests are blind to small biases and dependencies.',
  [I], [('wiener_source', I + ':wiener_source')])

p('P10', 'Poisson increments have the documented law',
  'For any times t and increments dt, a Poisson source returns an array of shape broadcast(t, dt) + value shape + (paths,) whose entries are independent Poisson counts with mean lam*|dt|, taken with the sign of dt, with lam evaluated at t + dt/2 if time-dependent and broadcast against value shape + (paths,). '
  'An intensity which does not broadcast to that shape raises ValueError.',
  ['inputs', 'histories'], 'all shapes, times, increments of either sign, intensities, and random draws',
  'Same as for Wiener increments: laws are not decidable from samples.',
  [I], [('poisson_source', I + ':poisson_source')])

p('P11', 'Compound Poisson increments sum one independent jump per event',
  'A compound Poisson increment over (t, dt) is, for every time, value entry and path, the sum of as many fresh independent draws of the jump variable as the underlying Poisson count for that entry (zero if the count is zero), with the sign of dt; a time-dependent jump variable is evaluated at t + dt/2. '
  'The Poisson counts come from the given counting source, called once with the same t and dt, or from one built with the given intensity, and the counts and jump samples used are exposed after each call.',
  ['inputs', 'histories'], 'all shapes, times, increments, jump distributions and counting sources',
  'Bookkeeping of which draw goes to which entry has to be right for every pattern of counts.',
  [I], [('cpoisson_source', I + ':cpoisson_source.__call__')])

p('P12', 'Antithetic sources mirror the first half of the paths',
  'In every call of an antithetic source with 2n paths, path n+i is minus path i for Wiener increments, and equal to path i for Poisson and compound Poisson increments, for every time and value entry, and the first n paths are a plain source with n paths and the same parameters. '
  'Paths, value shape, data type and random generator reported by the antithetic source are those of the full set of paths, and an odd number of paths raises ValueError.',
  ['inputs', 'histories'], 'all even path counts, shapes, times and increments',
  'Pairing has to hold for all entries of arrays of all shapes.',
  [I], [('antithetics', I + ':_antithetics')])

p('P13', 'Sources with memory describe one fixed realization',
  'Once a source with memory has been evaluated at a new time, one not within the stated relative tolerance of a time already stored, it returns the same value for that time after any later evaluations anywhere; at a time within tolerance of exactly one stored time, on either side of it, it returns the value stored there; and it equals its initial value at its initial time. '
  'Increments over (t, dt) are the value at t+dt minus the value at t, so they add up exactly over adjacent intervals, whatever the order of evaluation. '
  'Stored times stay sorted, times evaluated anew are the only ones added, and indexing selects value components of the same realization, an index with more entries than there are value axes raising IndexError; sources report the times and the number of values stored, none for those without memory.',
  ['histories', 'inputs'], 'all sequences of evaluations at any times, in any order, forward, backward and in between',
  'It is a statement about every history of calls.',
  [I], [('true_source', I + ':true_source._retrieve_old_or_generate_new'),
        ('indexing', I + ':_indexed_true_source')])

p('P14', 'A Wiener source with memory interpolates as a Brownian bridge',
  'A value generated at a new time beyond the stored ones is the nearest stored value plus an independent Gaussian increment with covariance corr*|distance|. '
  'A value generated between two stored times t1 < s < t2 is Gaussian with mean the linear interpolation of the two stored values and covariance corr*(s-t1)*(t2-s)/(t2-t1), independently of all earlier draws, at any side of the initial time; for a time-dependent correlation, with A and B the correlation matrix at the midpoint of each of the two sub-intervals times its length, the covariance is A(A+B)^-1 B and the weight of the stored value farther from the initial time is A(A+B)^-1.',
  ['histories', 'inputs'], 'all stored histories, new times and correlations',
  'The conditional law given the history cannot be sampled exhaustively.',
  [I], [('new_outside/new_inside', I + ':true_wiener_source')])

p('P15', 'Poisson and compound Poisson sources with memory split events exactly',
  'Beyond the stored times, a Poisson source with memory adds an independent Poisson increment; between two stored times with n events in between, the number of events assigned to the first part is binomial(n, fraction of the interval), so values are monotone in time and unchanged where there are no events. '
  'A compound Poisson source with memory assigns each individual jump of the interval, zero-size jumps included, to one of the two parts according to the counts of its Poisson source at the same times, so that jumps are never lost, duplicated or redrawn and the stored values at the ends are unchanged.',
  ['histories', 'inputs'], 'all stored histories, new times, intensities and jump distributions',
  'Conservation of jumps is a property of every refinement history.',
  [I], [('true_poisson_source', I + ':true_poisson_source'), ('true_cpoisson_source', I + ':true_cpoisson_source')])

p('P16', 'Path generation visits every step and stores every output time once',
  'Path generation visits, in order and exactly once each, the sorted union of the output timeline and of the extra integration steps that fall inside its range, starting from the point selected by the initial index and moving forward to the last time and/or backward to the first. '
  'Each output time is stored exactly once, with the state reached at that time, and the initial point is stored with the initial state; the generator is told the correct current and next times at each step, however many extra steps are requested, and the step counters report the steps made and stored. '
  'Timelines which are not strictly increasing vectors, and initial indices which do not select one element, are rejected, and integer timelines (of either signedness) are simulated in floating point and handed back unchanged. '
  'A generator may be called any number of times: each call depends on its own timeline only, and results handed back by former calls are left as they were.',
  ['inputs', 'configurations'], 'all timelines, step specifications (none, a number, a sequence), initial indices and step functions',
  'Loop correctness for timelines and step sequences of every length needs induction.',
  [G], [('main loop', G + ':paths_generator._generate_paths, _store_if_reached'),
        ('setup', G + ':paths_generator.__call__, pace')])

p('P17', 'The Euler step adds each coefficient times its own source increment',
  'At each step from time s to s+ds the integrator evaluates the coefficients once at the current time and state, and each source once at (s, ds), in alphabetical order of source names, and the new state is the current state plus the sum over sources of coefficient times increment, entry by entry, the arrays returned as coefficients being left as they were. '
  'A source for which no coefficient is returned does not contribute but is still sampled, a coefficient for an unknown source raises KeyError, and a coefficients object which is not a mapping raises TypeError.',
  ['inputs', 'programs'], 'all SDE functions, states, times, steps and sources',
  'It must hold at every step for every user supplied equation.',
  [G], [('euler step', G + ':integrator.euler_next'), ('coefficients', G + ':SDE.A'), ('increments', G + ':SDE.dZ')])

p('P18', 'Equation parameters are resolved, checked and evaluated at the right time',
  'Every keyword accepted by the equation, its initial condition, its sources or its extra setup can be given or left to its default; an unknown keyword or a parameter with no value and no default raises TypeError, and so do conflicting defaults for the same parameter. '
  'Each equation parameter reaches the equation as an array: constants as given, and functions or processes of time evaluated at the current time of the step; initial values and source parameters go only to the components that declare them. '
  'A source object given as a parameter is used as it is; one whose number of paths differs, whose value shape does not broadcast to that of the equation sources, or which does not follow the source protocol, raises ValueError.',
  ['inputs', 'programs', 'configurations'], 'all parameter sets, constant, callable or process valued',
  'The routing has to be right for every combination of given, default and missing parameters.',
  [G, I], [('parameter handling', G + ':SDE._inspect_args_defaults, _consolidate_args, __init__, A'),
           ('wrapping', I + ':_variable_param_setup'), ('sources given', I + ':_source_setup, _check_source')])

p('P19', 'Single equations start at the initial value and undo the log transform once',
  'The solution of a single equation equals the initial value, broadcast to value shape + (paths,), at the initial time. '
  'With the log flag the integration runs on logarithms and the returned values are the exponential of the integrated ones, applied exactly once, so the initial value is returned unchanged; without it values are returned as integrated. '
  'The result is a process with the requested timeline, in its original data type, and shape (N,) + value shape + (paths,).',
  ['inputs', 'configurations'], 'all initial values, shapes, timelines and log settings',
  'Values, shapes and timelines are unbounded.',
  [G], [('hooks', G + ':SDE.begin, store, exit, init, let, result')])

p('P20', 'Systems of equations keep their components apart',
  'In a system of q equations each equation receives the current value of every unknown with shape value shape + (paths,), its coefficients act only on its own unknown, each with its own block of the source values, and the result is one process per unknown, in order. '
  'Splitting and reassembling the stacked state is lossless for any value shape, both when components are stacked along a new axis (always, for scalar values) and along the last value axis. '
  'A wrong number or type of returned coefficients raises an error; the log flag applies to every component, exactly once.',
  ['inputs', 'programs', 'configurations'], 'all numbers of equations, value shapes, states and coefficient sets',
  'Index arithmetic on stacked states must hold for every q and shape.',
  [G], [('pack/unpack', G + ':SDEs.pack, unpack, shapes'), ('coefficients', G + ':SDEs.A, init, result')])

p('P21', 'The preset processes integrate the equations they document',
  'Step by step, the predefined processes add: mu*dt + sigma*dw (Wiener); (mu - sigma^2/2)*dt + sigma*dw to the log (lognormal); k*(theta - x)*dt + sigma*dw (Ornstein-Uhlenbeck and, for each factor, Hull-White, whose output is the sum of its factors); k*(theta - x+)*dt + xi*sqrt(x+)*dw with x+ = max(x, 0) (CIR). '
  'Heston adds (mu - sigma^2*y+/2)*dt + sigma*sqrt(y+)*dw_x to log x and k*(theta - y+)*dt + xi*sqrt(y+)*dw_y to y, and the jump-diffusions add (mu - sigma^2/2)*dt + sigma*dw + dj to log x, with normal(a, b) jumps for Merton and two-sided exponential(a, b, pa) jumps for Kou. '
  'All parameters may depend on time and broadcast against value shape + (paths,), and the initial value of the solution is the given one.',
  ['inputs', 'configurations'], 'all states, parameters, shapes, times and steps',
  'A wrong coefficient at unusual parameters, negative states or non-scalar shapes escapes statistical tests.',
  [G], [('preset SDEs', G + ':wiener_SDE ... kou_jumpdiff_SDE')])

p('P22', 'Turning a function into an integrator preserves the function',
  'Decorating a function of time, state(s) and keyword parameters gives a process class that integrates exactly the equation the function returns: one equation for a mapping, a system with one equation per entry for a list or tuple, with the sources named in the returned mappings. '
  'Explicitly given number of equations, sources, log and axis settings are honoured; settings inconsistent with the function, an empty list of equations, and a function which cannot be test evaluated are rejected.',
  ['programs', 'configurations'], 'all functions and decorator settings',
  'Programs passed to the decorator are unbounded.',
  [G], [('integrate', G + ':integrate, _SDE_from_function')])

p('P23', 'Monte Carlo statistics do not depend on how samples are batched',
  'After any sequence of updates the sample count, mean, variance, standard deviation, standard error, skewness and kurtosis are those of all the data points seen so far taken together: central moments about the overall mean, with standard error equal to std/sqrt(paths - 1) and kurtosis the ratio of the fourth central moment to the squared variance. '
  'With even or odd antithetic sampling the data points are the half sums or half differences of the first and second half of each batch, and a batch of odd length raises ValueError. '
  'Indexing selects the statistics of one component, and the paths axis of the sample may be any axis. Statistics handed back are not modified by later updates, nor are those kept by writing to them.',
  ['histories', 'inputs'], 'all sequences of batches of any sizes, shapes and values',
  'Batching histories are unbounded; the merge formula must be an invariant.',
  [I], [('moment merging', I + ':montecarlo._update_moments, update, var, skew, kurtosis, stderr')])

p('P24', 'Monte Carlo histograms account for every sample',
  'For each component the histogram counts plus the number of samples outside the bins equals the number of samples seen, after any sequence of updates, each count being the number of samples seen in that bin of the bins fixed by the first update (or given).Histograms handed back are not modified by later updates, nor are those kept by writing to them. '
  'The density histogram integrates to one; the interpolated cdf is zero below and one above the bins and at each bin edge the fraction of binned samples up to it; the interpolated pdf equals the density at bin midpoints and vanishes at the outer edges of the bins and outside. '
  'The kernel pdf and cdf are the density-weighted sums of Gaussian kernels centred at bin midpoints, with width the bin width times the bandwidth, so the kernel pdf is the derivative of the kernel cdf, which tends to 0 and 1.',
  ['histories', 'inputs'], 'all sequences of batches, bin specifications and query points',
  'Counting identities quantify over all samples and histories.',
  [I], [('histograms', I + ':montecarlo._update_histogram, histogram, density_histogram, _pdf_or_cdf')])

p('P25', 'Parameter-bearing functions and classes behave like the plain ones',
  'Calling a kfunc with variables and parameters gives the same result as calling the wrapped function, or instantiating the wrapped class with the parameters and calling it; calling it with parameters only gives an instance that remembers them, to be called later. '
  'Parameters given in a later call override the remembered ones for that call or for the new instance, all other parameters are kept, and the original instance is never modified. '
  'The reported parameters are the defaults overridden by those given, and every predefined shortcut is the kfunc of the class or function it abbreviates.',
  ['histories', 'inputs', 'programs'], 'all wrapped functions and classes, and all chains of calls with partial parameters',
  'Call chains of any length, over any signature.',
  [K, S], [('kfunc', K + ':_kfunc_decorate_class, _kfunc_decorate_function, _kfunc_split_args'), ('shortcuts', S)])

p('P26', 'Closed-form Gaussian and lognormal results solve their equations',
  'The mean, variance, standard deviation, density and distribution functions of the Wiener, lognormal, Ornstein-Uhlenbeck (alias one-factor Hull-White) and two-factor Hull-White processes start from the given initial value with zero variance and satisfy, for all times, the moment equations of the corresponding stochastic equation, correlation between factors included. '
  'Each standard deviation is the square root of the variance, each density is the derivative of its distribution function and has the Gaussian (or lognormal) form with that mean and variance, and arguments broadcast together elementwise.',
  ['inputs'], 'all times t>0, and all parameter values in the domain of the formulas',
  'A formula can be right on sampled parameters and wrong elsewhere.',
  [A], [('formulas', A + ':wiener_*, lognorm_*, oruh_*, hw2f_*')])

p('P27', 'Closed-form CIR and Heston results solve their equations',
  'The CIR mean and variance start from the initial value and zero and satisfy dm/dt = k*(theta - m), dv/dt = -2*k*v + xi^2*m; the CIR density is the noncentral chi-square density with q = 2*k*theta/xi^2 - 1, c = 2*k/((1 - exp(-k*t))*xi^2) and Bessel function of order q. '
  'The mean and variance of the log of the Heston process start from log x0 and zero and satisfy the moment equations of the log-price and variance processes for all parameters, correlation included. '
  'Each standard deviation is the square root of the variance, and arguments broadcast together elementwise.',
  ['inputs'], 'all times t>0, and all parameter values in the domain of the formulas',
  'The Heston variance has seven parameters; sampled comparison with simulations is blind to small errors.',
  [A], [('formulas', A + ':cir_*, heston_log_mean, heston_log_var, heston_log_std')])

p('P28', 'Characteristic functions and jump-diffusion means match their processes',
  'The characteristic functions of the Wiener, lognormal (log), Merton and Kou (log) processes are exp(i*u*log-or-plain x0 + t*psi(u)), psi being the Levy exponent of the documented drift, volatility and jump law, and that of the log of Heston satisfies the backward equation of the process with value exp(i*u*log x0) at t=0; each equals 1 at u=0. '
  'The means of the jump-diffusions are x0*exp(t*(mu + lam*(E[exp(jump)] - 1))). '
  'The densities obtained from them are the Fourier inversion (1/2pi) * integral of Re(exp(-i*u*x)*chf(t, u)) du, elementwise in t or in x.',
  ['inputs'], 'all times t>0, all real u, and all parameter values in the domain of the formulas',
  'Identities in several real and complex parameters.',
  [A], [('characteristic functions', A + ':*_chf, mjd_mean, kou_mean'), ('inversion', A + ':_chf_to_pdf')])

p('P29', 'Black-Scholes values satisfy parity, delta and limit identities',
  'Call and put values are the discounted Black-Scholes expectations: with d1 = (log(x0/k) + (r - q + sigma^2/2)*t)/(sigma*sqrt(t)) and d2 = d1 - sigma*sqrt(t), call minus put equals x0*exp(-q*t) - k*exp(-r*t), the deltas are the derivatives of the values with respect to x0, and call delta minus put delta equals exp(-q*t). '
  'For zero time or zero volatility the values are the discounted intrinsic values max(x0*exp(-q*t) - k*exp(-r*t), 0) and max(k*exp(-r*t) - x0*exp(-q*t), 0), with no NaN; arguments broadcast together elementwise.',
  ['inputs'], 'all strikes k>0, times t>=0, x0>0, sigma>=0, and all r, q',
  'Identities over a six-dimensional parameter space, including its degenerate edges.',
  [A], [('Black-Scholes', A + ':bsd1d2, bscall, bsput, bscall_delta, bsput_delta')])

p('P30', 'Jump distributions and their stated moments agree',
  'The normal(a, b), uniform(a, b), exponential(a) (of either sign) and double exponential(a, b, pa) distributions draw samples with that law (for the last, positive exponential jumps of mean a with probability pa and negative ones of mean -b otherwise), and their mean, variance, standard deviation and mean of the exponential are those of the law, elementwise in array parameters, infinite where it diverges. '
  'Parameters outside their domain raise ValueError for the last two, and if any parameter is a function of time the result is a function of time giving the distribution with the parameters evaluated at that time. '
  'Mapping a distribution through a function yields draws equal to the function of the draws, at the time of evaluation if function or distribution is time-dependent.',
  ['inputs'], 'all parameter values, scalars or arrays, constant or time-dependent',
  'Moment identities quantify over real parameters.',
  [I], [('distributions', I + ':_norm_rv, _uniform_rv, _exp_rv, _double_exp_rv, _make_rv_params_variable'), ('mapping', I + ':rvmap')])

p('P31', 'Correlation inputs become the documented correlation matrix',
  'A scalar correlation rho becomes the matrix ((1, rho), (rho, 1)), and a vector of K correlations the 2K x 2K symmetric matrix with unit diagonal in which entries i and K+i are correlated by rho[i] and all others are uncorrelated; a time-dependent rho gives, at each time, the matrix for the value of rho at that time, and a trailing paths axis of length one is accepted. '
  'An explicit correlation matrix takes precedence over rho and is used as given; without either there is no correlation. '
  'Inputs of any other shape (non-square, wrong rank, path dependent) raise ValueError.',
  ['inputs'], 'all correlation inputs, constant, callable or process',
  'Matrix size and values are unbounded.',
  [I], [('correlation setup', I + ':_get_corr_matrix, _const_rho_to_corr')])

p('P32', 'Parameters that are left out have their documented values',
  'Every keyword parameter that is not passed has the value documented in the signature: a closed-form function, a jump distribution or a preset process called without any of its parameters, whatever the others are, gives what it gives when the documented values are passed. '
  'Sources built without parameters have one path, scalar values, unit intensity of events and no correlation, and sources with memory start from zero at time zero with the tightest time tolerance; Monte Carlo accumulators average along the last axis, use all samples, and tally 100 bins.',
  ['inputs'], 'all subsets of parameters left out, and all values of those given',
  'Tests pass nearly all parameters; the combinations of given and omitted ones are exponential and the values of the given ones unbounded.',
  [A, G, I], [('closed forms', A + ':signatures'), ('preset processes', G + ':init, sde and source_* methods of *_SDE'), ('sources', I + ':*_source.__init__, montecarlo.__init__')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for q in P:
            jsonschema.validate(q, s)
    except ImportError:
        pass
    import re
    for q in P:
        n = len(re.findall(r'[.!?](?=\s+[A-Z]|$)', q['statement']))
        if n > 3:
            print(q['id'], n, 'sentences')
    print(len(P))
