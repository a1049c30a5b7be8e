prop('C04', 'Every block of memory is owned: released exactly once, never used afterwards',
     "Every block of memory the library allocates during a public call is, on every path through that call (including failed "
     "estimation, rejected starting values and rejected candidate models), either released exactly once before the call returns or "
     "owned by the model object the caller holds; freeing the object releases everything it owns, whether or not it was estimated, "
     "configured, or estimated several times. No memory is released twice, used after its release, or reached through a null or "
     "never-assigned pointer. (Failing allocations are outside this property.)",
     ['inputs', 'histories', 'faults'], 'every path of every public function; create, configure, estimate, forecast, summarise and free in any usual order',
     'The programs look only at their exit status and the failure paths (rejected start, singular matrix, non-invertible candidate) '
     'need rare data; a leak or double release on one of them is invisible there.',
     ['src/ctsa.c', 'src/emle.c', 'src/lls.c', 'src/unitroot.c', 'src/seastest.c', 'src/regression.c', 'src/hsfft.c', 'src/conv.c', 'src/autoutils.c'],
     [('work arrays freed on every exit of the estimators', 'src/emle.c as154, as154_seas, as154x, css*'),
      ('per-candidate models released by the order search', 'src/ctsa.c auto_arima1, search_arima'),
      ('FFT plans owned by the autocovariance object', 'src/conv.c, src/hsfft.c'), ('regression objects', 'src/regression.c, src/unitroot.c, src/seastest.c')],
     observe=['allocation and release call sites'])
prop('C07', 'Nothing is read before it has been written',
     "No result, branch or address computed by a public function depends on a local variable that some path leaves unassigned, or on "
     "an object field or block of memory that nothing has written since it was allocated. In particular a freshly created model "
     "object can be configured, summarised, estimated and freed in any order and every field it exposes has a defined value. "
     "(How far an array is filled is not part of this property, only that it is not used entirely unwritten.)",
     ['inputs', 'histories', 'configurations'], 'every path of every public function, every option value and model order',
     'Stale stack and heap contents are usually benign zeros, so a run of one example shows nothing; which paths leave a variable '
     'unset depends on options and data the programs do not use.',
     ['src/ctsa.c', 'src/emle.c', 'src/autoutils.c', 'src/unitroot.c', 'src/seastest.c', 'src/boxjenkins.c', 'src/stl.c'],
     [('model objects zero-initialised', 'src/ctsa.c *_init'), ('selection variables set before the search', 'src/ctsa.c auto_arima1, search_arima'),
      ('Kalman filter state set before recursion', 'src/emle.c')],
     observe=['branches, loads and call arguments of every reachable function'])
prop('C09', 'Constructors, setters and getters record exactly what they are given',
     "A constructor records each of its arguments in the object under its own name, gives every option its documented default, and "
     "refuses a specification it cannot represent (negative orders, non-positive length, negative period or regressor count) with a "
     "message instead of building an object. A setter stores its argument in the option it is named after for exactly the documented "
     "values and rejects every other value with a message, leaving the object as it was; it never silently maps an unsupported value to another. "
     "Working arrays handed out to the caller (parameter vector, residuals, covariance) start out zeroed or are filled by estimation only.",
     ['inputs', 'configurations'], 'every value of every constructor and setter argument',
     'The programs use a couple of values per setter; an accepted value that is stored in the wrong field or clamped to a neighbour '
     'shows up as a slightly different fit, not as a failure.',
     ['src/ctsa.c', 'header/ctsa.h'],
     [('constructors', 'src/ctsa.c *_init'), ('setters', 'src/ctsa.c *_set*')],
     observe=['fields of the object after the call', 'messages'])
prop('C13', 'Every option value runs the algorithm it stands for',
     "The estimation method, optimiser, autocorrelation estimator, unit-root and seasonality test, search strategy and on/off "
     "options select exactly the algorithm they are documented to select: method 0/1/2 run conditional-start maximum likelihood, "
     "conditional sum of squares (for sarimax: exact likelihood without the conditional start) and Box-Jenkins (for sarimax: "
     "conditional sum of squares); each optimiser number runs that optimiser and no other; AR and PACF methods 0/1/2 run Yule-Walker, "
     "Burg and maximum likelihood; ACVF methods 0/1 the direct and the FFT sum. In the automatic search the unit-root test, its "
     "level/trend variant, the seasonality test, stepwise or exhaustive search and the method reach every candidate; a series "
     "declared stationary is never tested for differencing and a non-seasonal search never tests for seasonal differencing. Every "
     "option of a model object is used by its estimation.",
     ['inputs', 'configurations'], 'every documented value of every option, for all data and orders',
     'The examples fix one or two option values and check nothing about which algorithm ran; a swapped or ignored option still '
     'produces a plausible fit.',
     ['src/ctsa.c', 'src/emle.c', 'src/autoutils.c', 'src/pacf.c', 'src/optimc.c', 'src/stats.c'],
     [('method dispatch', 'src/ctsa.c *_exec, ar, ar_estimate, pacf_opt, acvf_opt'), ('optimiser dispatch', 'src/optimc.c fminunc, src/emle.c'),
      ('search options', 'src/ctsa.c auto_arima1, search_arima, myarima; src/autoutils.c ndiffs, nsdiffs')],
     observe=['which estimator, optimiser and test run'])
prop('C11', 'Every wavelet name yields its own perfect-reconstruction filter bank',
     "For each of the wavelet names the library supports (haar, db1-38, sym2-20, coif1-17, bior and rbior a.b, meyer) the "
     "length reported for the name is the length of that wavelet's filters, and initialising a wavelet with it fills the four "
     "filters completely with coefficients of a two-channel filter bank: analysis and synthesis filters satisfy perfect "
     "reconstruction and alias cancellation, orthogonal families have mirrored synthesis filters, and the low-pass filters sum "
     "to sqrt(2). No wavelet aliases another family's tables.",
     ['configurations'], 'all 106 wavelet names, every one of their coefficients',
     'No program in the suite uses a wavelet; a wrong digit in one of several thousand table entries, a swapped helper or a table '
     'given to the wrong name changes results only slightly and only for that wavelet.',
     ['src/wavefilt.c', 'src/waux.c', 'src/wtmath.c'],
     [('name to length', 'src/wavefilt.c filtlength'), ('name to filters', 'src/wavefilt.c filtcoef, copy, copy_reverse, qmf_even, qmf_wrev')],
     observe=['coefficients each filter receives'])
prop('C08', 'The status of an estimation reaches the caller unaltered',
     "What the optimiser reports is what the model object and its summary say. An estimator returns 0 (input error), 4 (no "
     "convergence) and 15 (Inf/NaN) exactly when its optimiser did, 1 for every successful stop, 7 exactly when the regressors are "
     "linearly dependent, and 10 or 12 when the start values are not stationary; exec leaves exactly that status in retval; and the "
     "summary prints the message documented for the stored status. A failed estimation is never reported as a success.",
     ['inputs', 'configurations'], 'every status of every optimiser and estimator, for all data and orders',
     'The example series converge; how non-convergence, NaN, collinear regressors or non-stationary start values are reported is '
     'never exercised.',
     ['src/emle.c', 'src/ctsa.c', 'src/optimc.c', 'src/boxjenkins.c', 'src/neldermead.c', 'src/newtonmin.c', 'src/conjgrad.c', 'src/secant.c'],
     [('status mapping after fminunc', 'src/emle.c css, css_seas, as154, as154_seas, cssx, as154x'),
      ('collinearity test', 'src/emle.c cssx, as154x; src/ctsa.c auto_arima1'), ('exit message', 'src/ctsa.c *_summary')],
     state=[('retval', 'status of the last estimation', 'src/ctsa.h')], observe=['retval after exec', 'exit message of the summary'])
prop('C17', 'The process ends only on rejected input, with a message and an error status',
     "Forecasting, querying, printing, releasing, numeric setters and the stand-alone correlation functions always return to the "
     "caller: nothing they reach can end the process. Constructors, estimations and the two string options may refuse input or data "
     "they cannot handle by ending the process, but never silently - a message has been printed on every such path - and never with "
     "the status of success. Nothing aborts or jumps out of the library.",
     ['inputs', 'configurations', 'histories'], 'every path from every public function to every exit of the process',
     'The programs pass valid input, so not one of the 149 exit calls is reached by them.',
     ['src/ctsa.c', 'src/talg.c', 'src/matrix.c', 'src/unitroot.c', 'src/seastest.c', 'src/hsfft.c', 'src/real.c', 'src/conv.c'],
     [('exit after a printed message', 'whole library')], observe=['process exit', 'standard output'])
prop('C18', "Summaries and covariance queries report the object's own values",
     "Whatever a summary prints under a name is the object's value of that name: coefficient number k of each group is the k-th "
     "coefficient of that group, its standard error is the square root of the diagonal entry of the covariance matrix at that "
     "coefficient's position, orders, mean, drift, variance, likelihood and criteria are the object's fields, every coefficient of the "
     "model is printed once, terms of the printed equation carry the sign of their own coefficient, and method and optimiser are named "
     "as chosen. The covariance queries copy all lvcov entries in place.",
     ['inputs', 'configurations'], 'every order, every combination of options, every printed number',
     'The programs print summaries that nobody compares with the object; an index off by one prints a plausible neighbour, or reads '
     'beyond the matrix.',
     ['src/ctsa.c'], [('summaries', 'src/ctsa.c *_summary'), ('covariance queries', 'src/ctsa.c *_vcov')],
     observe=['printed numbers', 'copied covariance'])
prop('C14', 'Estimating again is estimating afresh',
     "An estimation depends on the options and on the data it is given, not on what an earlier estimation left in the object: whatever "
     "exec uses of the object's results - coefficients, mean, variance, likelihood, criteria, residuals, covariance, chosen orders, "
     "drift - it has first computed itself. Running exec a second time with the same options and data, or after an estimation of other "
     "data, gives what a fresh object would give.",
     ['inputs', 'histories'], 'every exec, every method, every sequence of estimations on one object',
     'Every program of the suite estimates each object once.',
     ['src/ctsa.c', 'src/emle.c', 'src/boxjenkins.c'],
     [('exec functions', 'src/ctsa.c arima_exec, sarima_exec, sarimax_exec, auto_arima_exec, ar_exec'),
      ('start values', 'src/emle.c as154, as154_seas, as154x, css, css_seas, cssx')],
     state=[('result fields of the object', 'results of the last estimation', 'src/ctsa.h')], observe=['results of exec'])

prop('C05', 'Every access stays inside the memory it belongs to',
     "For all data, an operation of the interface called with valid orders, lengths and options reads and writes only inside the "
     "arrays the caller passed (with exactly the documented extents) and inside the blocks, tables and objects the library itself "
     "holds; no block is requested with a negative size. This covers constructors, setters, every estimation method and optimiser, "
     "forecasts, summaries and covariance queries of ARIMA, seasonal ARIMA, SARIMAX, AR and automatic models, the model search's "
     "differencing tests and candidate fits, and the stand-alone estimators and correlation functions.",
     ['inputs', 'configurations'], 'all data values at the enumerated shapes (orders, lengths, methods, optimisers)',
     'An access one element outside a heap block changes nothing visible in most runs; the suite runs a handful of shapes and does '
     'not look.',
     ['src/ctsa.c', 'src/emle.c', 'src/boxjenkins.c', 'src/initest.c', 'src/talg.c', 'src/autoutils.c', 'src/unitroot.c', 'src/seastest.c',
      'src/regression.c', 'src/matrix.c', 'src/optimc.c', 'src/neldermead.c', 'src/newtonmin.c', 'src/conjgrad.c', 'src/secant.c',
      'src/polyroot.c', 'src/conv.c', 'src/stats.c'],
     [('estimation work arrays', 'src/emle.c, src/boxjenkins.c, src/initest.c'), ('forecast arrays', 'src/ctsa.c *_predict, src/talg.c forkal'),
      ('regression and unit-root tests', 'src/regression.c, src/unitroot.c, src/seastest.c'), ('optimisers', 'src/optimc.c fminunc')],
     observe=['memory accesses'])
prop('C06', 'Every result is computed: nothing unset or undefined is handed out',
     "After an estimation, every element of every result that belongs to the model - coefficients, covariance matrix, regression "
     "coefficients, mean, variance, likelihood and criteria where the method defines them, and all residuals - has been computed by "
     "that estimation, not left from construction. After a forecast, query or stand-alone estimator every element of the output "
     "array has been written. No result, and no decision, depends on memory that nothing has written.",
     ['inputs', 'configurations'], 'all data values at the enumerated shapes (orders, lengths, methods, optimisers)',
     'Unwritten memory is often zero in a test process, and no program of the suite compares results; residual arrays are never read.',
     ['src/ctsa.c', 'src/emle.c', 'src/boxjenkins.c', 'src/initest.c', 'src/talg.c', 'src/autoutils.c', 'src/regression.c', 'src/matrix.c',
      'src/optimc.c', 'src/newtonmin.c', 'src/secant.c', 'src/conjgrad.c', 'src/neldermead.c'],
     [('results of exec', 'src/ctsa.c *_exec'), ('residuals', 'src/emle.c css, as154; src/boxjenkins.c'), ('output arrays', 'src/ctsa.c *_predict, *_vcov, pacf, acvf, yw, burg, hr')],
     state=[('phi, theta, PHI, THETA, exog, vcov, res', 'result arrays of the object', 'src/ctsa.h')], observe=['results of exec', 'output arrays'])
prop('C15', 'Estimation, results and forecasts mean one and the same model equation',
     "The coefficients an estimation reports are those of phi(B) PHI(B^s) (1-B)^d (1-B^s)^D (y_t - sum_j exog_j x_jt - drift t - mean) = "
     "theta(B) THETA(B^s) e_t, for ARIMA, seasonal, SARIMAX, AR and automatic models alike. The exact likelihood, or the conditional sum of "
     "squares, is that of this equation at the reported coefficients; residuals, variance and criteria (aic = -2 loglik + 2k and its "
     "corrected forms) belong to it; an automatic model reports the coefficients, covariance, criteria and drift of the model it chose; and a "
     "forecast extends exactly this equation: same expanded polynomials, same differencing, regression, drift and mean removed before and "
     "added back at the right future time, standard errors in their place.",
     ['inputs', 'configurations'], 'all data and coefficients, at the enumerated orders, regressors, methods, horizons',
     'A sign, an index, or a shifted regressor changes numbers that nobody compares: the programs check no value, and one data set cannot '
     'tell an expanded coefficient that happens to be small from one that is missing.',
     ['src/ctsa.c', 'src/emle.c', 'src/boxjenkins.c', 'src/talg.c', 'src/autoutils.c', 'src/initest.c'],
     [('objectives', 'src/emle.c fas154, fas154_seas, fas154x, fcss, fcss_seas, fcssx'), ('forecasts', 'src/ctsa.c *_predict'),
      ('criteria and selected model', 'src/ctsa.c auto_arima_exec, src/emle.c / src/ctsa.c myarima, sarimax_wrapper')],
     state=[('phi, theta, PHI, THETA, exog, mean', 'reported coefficients', 'src/ctsa.h')],
     observe=['arguments of the filter', 'results of exec', 'forecasts'])
prop('C16', 'The automatic search obeys its limits and returns the best model it tried',
     "Every candidate the automatic search estimates lies inside the object's limits - orders at most the maxima, as many differences as "
     "the unit-root and seasonality tests chose at the object's levels and at most the maximal number, total order at most the limit when "
     "the search is exhaustive, number of models at most the limit when it is stepwise, no seasonal part when seasonality is off, mean and "
     "drift only where allowed - and is compared by the object's criterion. The exhaustive search tries every combination; the stepwise "
     "search stops at a model whose neighbours have all been tried. The model returned is the one with the lowest criterion among those "
     "tried; a candidate whose estimation failed, or with a root within one percent of the unit circle, is never preferred to another; after "
     "an approximate search the model returned has been estimated exactly.",
     ['inputs', 'configurations'], 'all data; every enumerated ranking of the candidates, limits and switches',
     'The programs run two series through the search and do not look at what was tried; a search that skips a neighbour, exceeds a limit '
     'or returns the second best model still returns a plausible one.',
     ['src/ctsa.c', 'src/autoutils.c'],
     [('stepwise and exhaustive search', 'src/ctsa.c auto_arima1, search_arima'), ('one candidate', 'src/ctsa.c myarima'),
      ('number of differences', 'src/autoutils.c ndiffs, nsdiffs, runstattests, runseasonalitytests')],
     observe=['candidates tried', 'selected orders'])
prop('C12', 'Every operation ends: no loop can go round for ever',
     "Every loop the library runs leaves after finitely many rounds. A counted loop moves its counter towards the bound on every way round, "
     "including ways that skip or retry; the iterations of every optimiser are bounded by its iteration limit, whatever the objective does, so "
     "that an estimation on any data ends; and no loop can reach a state in which another round changes nothing that decides whether it ends.",
     ['inputs', 'configurations'], 'all data, orders and options; every way round every loop',
     'A counter not advanced on one path, or an iteration that is not counted, hangs only for data or an order that reaches it; the programs '
     'use orders and series for which those loops run once or not at all.',
     ['src/emle.c', 'src/secant.c', 'src/newtonmin.c', 'src/conjgrad.c', 'src/neldermead.c', 'src/lnsrchmp.c', 'src/brent.c', 'src/nls.c', 'src/ctsa.c',
      'src/talg.c', 'src/stl.c', 'src/hsfft.c', 'src/matrix.c'],
     [('iteration limits of the optimisers', 'src/secant.c, src/newtonmin.c, src/conjgrad.c, src/neldermead.c'), ('order search', 'src/ctsa.c auto_arima1'),
      ('recursions of the filters', 'src/emle.c karma, starma, forkal'), ('factor loops', 'src/hsfft.c, src/conv.c')],
     observe=['loops of every function'])

prop('C19', 'Transforms compute what they are named for, and inverses undo them',
     "For every length, order and option: the Fourier transform of complex and of real data is the discrete Fourier sum and the inverse "
     "gives the data back (times the length), whatever factors the length has; the convolutions, direct and by FFT, give the convolution sum "
     "and its full, same or valid part; moving averages, exponential smoothing and filters give the weighted sums they are named for; "
     "differencing of order d, or of order D at lag s, and the operators expanded from it apply (1-B)^d and (1-B^s)^D; polynomial products, "
     "resampling, cumulative sums, shifts, extensions, matrix products, sums and transposes are exact in every size class; and the inverse "
     "wavelet transform (decimated, stationary, maximal overlap) returns the signal from its coefficients, the multiresolution adding up to it.",
     ['inputs', 'configurations'], 'all data; every enumerated length, order, wavelet, extension and method',
     'Which radix, blocking or edge rule runs depends on the length; the programs use a few convenient lengths and do not look at the result.',
     ['src/hsfft.c', 'src/real.c', 'src/conv.c', 'src/filter.c', 'src/talg.c', 'src/matrix.c', 'src/wavelib.c', 'src/wtmath.c'],
     [('FFT and Bluestein', 'src/hsfft.c, src/real.c'), ('convolution', 'src/conv.c'), ('filters and differencing', 'src/filter.c, src/talg.c'),
      ('wavelet transforms', 'src/wavelib.c, src/wtmath.c'), ('matrix products', 'src/matrix.c')],
     observe=['output arrays of the transforms'])
prop('C20', 'Correlations, moments, spectra and AR equations follow their definitions',
     "The mean, variance, autocovariance (direct sum and FFT method alike), autocorrelation and periodogram of a series are those of the "
     "definition - biased divisor N, mean removed - for every length and lag; the Yule-Walker coefficients and innovation variance solve the "
     "Yule-Walker equations of the sample covariances, the Burg coefficients and variance are those of the forward-backward recursion, the partial autocorrelations "
     "are the last coefficients of successive orders, and the long-run variance of the unit-root tests is the Bartlett-weighted sum.",
     ['inputs', 'configurations'], 'all series; every enumerated length, lag and order',
     'The programs print these numbers and nothing compares them; an off-by-one in a lag or a divisor changes the third digit.',
     ['src/stats.c', 'src/conv.c', 'src/ctsa.c', 'src/initest.c', 'src/spectrum.c', 'src/talg.c'],
     [('autocovariance and autocorrelation', 'src/stats.c, src/conv.c'), ('Yule-Walker and Burg', 'src/initest.c ywalg, ywalg2, burgalg'),
      ('partial autocorrelation', 'src/initest.c pacf_*'), ('periodogram', 'src/spectrum.c'), ('Phillips-Perron sum', 'src/talg.c ppsum')],
     observe=['output arrays'])
prop('C21', 'Regressions, linear systems and interpolation solve their equations',
     "The solution returned for a linear system or a least-squares problem satisfies its equations, whatever the order of pivots and whichever "
     "of the methods (LU, normal equations, QR, SVD) is used. A regression reports, with or without intercept, the least-squares coefficients, "
     "their standard errors and covariance, the residuals, the residual variance, the sums of squares, goodness of fit, log likelihood and "
     "criteria of that fit. Interpolation between tabulated points returns the tabulated value at a point, the linear value between points and "
     "the end value outside.",
     ['inputs', 'configurations'], 'all right-hand sides and responses; enumerated sizes and regressors',
     'Regressions run inside the unit-root tests and the start of the seasonal models; a wrong standard error or pivot moves a test decision, '
     'which no program looks at.',
     ['src/lls.c', 'src/matrix.c', 'src/regression.c', 'src/talg.c'],
     [('regression', 'src/regression.c regress, linreg_multi'), ('least squares', 'src/lls.c'), ('LU', 'src/matrix.c ludecomp, linsolve, minverse'),
      ('interpolation', 'src/talg.c interpolate_linear, approx')],
     observe=['solutions', 'fields of the regression object'])
prop('C22', 'Model recursions and the seasonal decomposition are exact',
     "The weights of the infinite moving-average and autoregressive expansions of a model follow its polynomials; the map from unrestricted "
     "parameters to stationary coefficients is the Durbin-Levinson recursion and the inverse map undoes it; the power transform and its inverse "
     "undo one another; the STL decomposition returns components that add up to the series, gives back a straight line as trend and a "
     "periodic pattern as seasonal component without error, for every period, window and degree.",
     ['inputs', 'configurations'], 'all coefficients and series; enumerated orders, periods, windows and degrees',
     'The seasonal strength that decides on seasonal differencing, and the restart of an estimation, depend on these numbers; the programs only exit.',
     ['src/talg.c', 'src/boxcox.c', 'src/stl.c', 'src/seastest.c'],
     [('expansions', 'src/talg.c psiweight, piweight'), ('partial correlations', 'src/talg.c artrans, arinvtrans'),
      ('power transform', 'src/boxcox.c'), ('STL', 'src/stl.c, src/seastest.c stl')],
     observe=['output arrays'])
