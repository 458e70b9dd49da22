EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RE = "cvx/covariance/regularization.py"
PBT = "property-based testing (Hypothesis): "
TRUST = " Trusts numpy/pandas and the reference in pbt/ref.py; floating-point tolerance about 1e-7 relative; increasing time index."


def P(id, title, statement, for_all, why, files, mechanism, observe, technique, note, over=("inputs",), level="exploration"):
    return dict(
        id=id,
        title=title,
        statement=statement,
        over=list(over),
        for_all=for_all,
        why=why,
        files=files if isinstance(files, list) else [files],
        mechanism=mechanism,
        observe=observe,
        technique=PBT + technique,
        note=note,
        level=level,
    )


PROPS = [
    P(
        "C01",
        "EWMA volatility is the bias-corrected weighted RMS of the returns",
        "For every return history without missing values, the reported volatility of each asset at each time is the square root of the weighted average of its squared returns up to and including that time, with weights halving every half-life and normalised to sum to one. Rows appear for every time from the minimum-period count on, and none before, with the assets' labels.",
        "all return frames (any length, number of assets, index and column types, zero returns, outliers), all positive half-lives, integer or not, all minimum-period counts including 0 and more than the history",
        "The tests compare one fixed data set and a single half-life; they cannot cover all lengths, half-lives and warm-ups.",
        EW,
        [("bias-corrected recursive update", "_general"), ("variance of squares and square root", "volatility/_variance")],
        ["return value of volatility()"],
        "generated return frames against the average computed from its definition",
        "Random search against a closed-form model; thousands of frames per run." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C02",
        "Winsorized volatility caps each update relative to the last estimate",
        "With a winsorization level c, after the warm-up (from the second observation past the minimum-period count on) each squared return enters the variance average capped at c squared times the previous variance estimate, and before that uncapped. Enlarging a return that is already above the cap therefore changes nothing, at that time or later.",
        "all return frames with and without outliers, all winsorization levels, half-lives and minimum-period counts",
        "Tests use one data set and one level; where exactly the cap starts and what it is relative to matters on every outlier position.",
        EW,
        [("clip of the next value at the current estimate after warm-up", "_general clip_at"), ("squared level for variances", "volatility")],
        ["return value of volatility(clip_at=...)"],
        "generated frames with outliers against a recursive model; metamorphic outlier enlargement",
        "Random search against a recursive model of the documented rule." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C03",
        "Centring subtracts the EWMA mean; clipping limits values and drops empty rows",
        "With mean adjustment on, centring returns the returns minus their exponentially weighted mean (which includes the current return) together with that mean, both from the minimum-period row on; with it off, the returns unchanged and a zero mean. Clipping limits every value to plus or minus the level, keeps everything else, and drops exactly the rows that are entirely missing, also when no level is given.",
        "all return frames, half-lives, warm-ups, clip levels and patterns of missing cells",
        "Two fixed examples exist for each function.",
        EW,
        [("EWMA mean and subtraction", "center"), ("clip and drop", "clip")],
        ["return values of center() and clip()"],
        "generated frames against the definition",
        "Random search against a closed-form model." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C04",
        "Iterated EWMA covariance equals volatility times EWMA correlation of z-scores",
        "In zero-mean mode the covariance reported at a time is the assets' EWMA volatilities at that time applied on both sides to the correlation matrix of an EWMA of outer products of the returns divided by their same-time volatility (clipped at the winsorization level if one is given). The reported volatility is the EWMA volatility with the same winsorization, the reported mean is zero whatever the mean half-lives are, and everything carries the assets' labels.",
        "all return frames including zero returns and assets without data, all half-life pairs, warm-up pairs and winsorization levels",
        "The tests compare a single data set with stored numbers at one parameter setting.",
        EW,
        [("two EWMA passes and rescaling to correlation", "iterated_ewma, scale_cov"), ("clip of z-scores", "clip")],
        ["the results yielded by iterated_ewma()"],
        "differential against an independent reference of the two-pass estimator",
        "Every entry of every result compared with a reference written from the paper." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C05",
        "Mean-adjusted iterated EWMA centres twice with its own half-lives",
        "With mean adjustment on, returns are centred by their EWMA mean before the volatility step and the z-scores by their own EWMA mean before the correlation step; the reported mean is the first mean plus volatility times the second. The two centring half-lives are the given ones, or the volatility and the covariance half-life respectively where not given.",
        "all return frames, half-life pairs, mean half-lives given or not, warm-ups and winsorization levels",
        "No test sets the mean half-lives at all; mean adjustment is exercised on one data set.",
        EW,
        [("default mean half-lives", "iterated_ewma head"), ("two centring passes", "center"), ("recombined mean", "scale_mean")],
        ["the results yielded by iterated_ewma(mean=True)"],
        "differential against an independent reference of the two-pass estimator",
        "Every entry of every result compared with a reference written from the paper; correlations of z-scores that cancel to rounding noise are not judged." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C06",
        "Estimates at a time use no later return",
        "Volatility, EWMA mean, centred returns and every iterated EWMA result at a time are the same whether the history ends there or continues, and whatever the later returns are, missing ones included.",
        "all histories, all cut points, all alternative futures, all parameter settings",
        "A look-ahead only shows when two runs with different futures are compared; no test does that.",
        EW,
        [("forward recursion", "_general"), ("row-wise scaling", "iterated_ewma")],
        ["volatility(), center(), iterated_ewma() on two histories with a common past"],
        "metamorphic: truncated history and replaced future against the full run",
        "Random histories, cuts and futures; agreement to 1e-8 relative." + TRUST,
        ("inputs", "histories"),
    ),
    P(
        "C07",
        "Every reported covariance is a valid, labelled covariance matrix",
        "Every covariance reported by the iterated EWMA is symmetric and positive semidefinite with the assets as row and column labels, its diagonal is the square of the reported volatility, and no implied correlation exceeds one in absolute value. If an asset has no usable data its whole row and column are missing and nothing else is.",
        "all return frames with outliers, zero and missing returns, assets without data, fewer observations than assets, all parameters",
        "Validity has to hold on every matrix of every run; tests look at a few entries.",
        EW,
        [("rescaling by the EWMA correlation", "scale_cov")],
        ["covariance and volatility of each result"],
        "invariants on every matrix of generated runs",
        "Invariant checks with 1e-9 slack, up to 20 assets and 400 rows in quick runs." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C08",
        "Iterated EWMA is equivariant to asset scale, order, selection and labels",
        "Multiplying an asset's returns by a nonzero factor multiplies its mean, (in absolute value) its volatility, and its covariances accordingly and changes nothing else; reordering or relabelling assets or times reorders or relabels the results. Estimating a subset of the assets gives the corresponding part of the estimate for all of them.",
        "all histories, factors of either sign, permutations, subsets and labels, all parameters (assets with data from the first row on)",
        "Relations between two runs; tests do single runs.",
        EW,
        [("element-wise recursion", "_general"), ("per-asset z-scores", "iterated_ewma")],
        ["iterated_ewma() on transformed inputs"],
        "metamorphic relations between runs on transformed inputs",
        "Random histories and transformations; agreement to 1e-7 relative." + TRUST,
        ("inputs",),
    ),
    P(
        "C09",
        "Missing returns count as zero and only empty assets get no covariance",
        "By default the iterated EWMA treats a missing return exactly like a zero return, wherever it occurs. An asset without any data gets missing covariances, and its presence does not change the results of the other assets. With the replacement switched off (nan_to_num=False) a missing return concerns its own asset only, and leaves its volatility and covariances missing from then on.",
        "all patterns of missing cells, rows, heads, tails and whole assets, all parameters",
        "Two fixed patterns are tested.",
        EW,
        [("fill of missing returns", "iterated_ewma nan_to_num"), ("zero-variance handling", "scale_cov"), ("fill of undefined z-scores", "iterated_ewma adj.fillna")],
        ["the results yielded by iterated_ewma()"],
        "metamorphic (zero-filled run, run without empty assets) and differential against the reference",
        "Random patterns of missing data." + TRUST,
        ("inputs",),
    ),
    P(
        "C10",
        "Results start exactly when both warm-ups are filled, one per time",
        "Iterated EWMA reports each time exactly once and in order, from the first time at which both minimum-period counts are filled one after the other (volatility count plus covariance count minus one observations) to the last. A history too short for that, even an empty one, gives no results and no error; with mean adjustment and no volatility warm-up the first observation, which equals its own mean, is skipped.",
        "all history lengths including empty, all pairs of minimum-period counts including 0, both mean modes, missing data",
        "Only long histories with default warm-ups are tested.",
        EW,
        [("suppressed early values", "_general f(k)"), ("skipped all-missing values", "_ewma_cov/_ewma_mean")],
        ["times of the results of iterated_ewma() and volatility()"],
        "generated lengths and warm-ups against the exact expected list of times",
        "Exact comparison of time labels." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C11",
        "Combination weights lie on the simplex and maximise the window's likelihood",
        "At every time the combination weights are non-negative, sum to one, and (up to solver accuracy) maximise over all such weights the Gaussian log-likelihood of the window's returns under the weighted sum of the experts' whitening factors (inverse Cholesky form), where each return is scored by the predictions made one step earlier, with the experts' means when given.",
        "all sets of experts with positive definite predictions, with and without means, all returns, window lengths and solver options",
        "Tests compare stored weights for one data set; optimality must hold for every data set and step.",
        CO,
        [("shifted whitening factors", "_CovarianceCombination.__init__"), ("likelihood problem", "_CombinationProblem"), ("window data", "solve")],
        ["weights of each result of solve()"],
        "generated experts; reported weights against an independent barrier-Newton optimum",
        "Judged by the log-likelihood reached (tolerance 2e-4 + 4e-6 relative, about ten times the solver's error), sum and sign to 1e-5. Domain: enough return components in the window (about K/n + 1 steps). Trusts pbt/ref.py.",
        ("inputs", "configurations"),
    ),
    P(
        "C12",
        "The combined covariance and mean are the blend of whitening factors",
        "The covariance of each combined result is the inverse of W W-transpose, where W is the weighted sum of the whitening factors of the predictions made at that same time, and its mean is the solution of W-transpose m = weighted sum of the experts' whitened means. Hence it is symmetric positive definite, labelled with the assets, and uses exactly the reported weights.",
        "all sets of experts with positive definite predictions, with and without means, all windows",
        "Stored numbers for one data set; the relation must hold at every result.",
        CO,
        [("blend with unshifted factors", "_solve"), ("whitened means", "_nu")],
        ["weights, mean, covariance of each result"],
        "generated experts; covariance and mean recomputed from the reported weights",
        "Recomputed to 1e-7 relative from the reported weights. Trusts numpy.",
        ("inputs",),
    ),
    P(
        "C13",
        "The window and requested times decide which results appear",
        "Solving everywhere reports, in order, one result for each time from the first at which the window is filled; a window that is absent or longer than the data means the whole history and a single result at the last time. Asking for consecutive times, in any kind of iterable, reports exactly those of them whose window is filled, with the same results as solving everywhere.",
        "all windows (absent, zero, longer than the data), all consecutive ranges of times, kinds of iterables and time labels",
        "Tests use one window and one range of times well inside the history.",
        CO,
        [("window cap", "solve head"), ("look-back of window-1 steps", "solve times handling")],
        ["times and values of the results of solve(window, times)"],
        "generated windows and ranges against the exact expected list and against the full solve",
        "Exact comparison of times; values by equal log-likelihood and exact blend.",
        ("inputs", "configurations"),
    ),
    P(
        "C14",
        "A combined result depends only on its window and today's predictions",
        "The result at a time is unchanged when any return outside its window, any later prediction, or any prediction older than the one for the window's first return is replaced by something else.",
        "all histories, times, windows and replacement data",
        "A look-ahead or an over-long memory only shows by comparing two runs; no test does.",
        CO,
        [("shift of predictions", "_CovarianceCombination.__init__"), ("window slicing", "solve")],
        ["solve() on two data sets that agree on the window"],
        "metamorphic: everything outside the window replaced by other data",
        "Random cases; compared by the log-likelihood of the weights (solver accuracy) and exact blend.",
        ("inputs", "histories"),
    ),
    P(
        "C15",
        "Combining EWMA pairs equals combining their reference predictions",
        "Building a combination from half-life pairs gives one expert per pair, named 'volatility-covariance', whose predictions and means are those of the iterated EWMA with that pair and the given warm-ups, clipping and mean adjustment. Solving it gives the optimal weights and blend for those experts on the same returns, missing returns counting as zero throughout.",
        "all return frames with outliers, zeros and missing cells, all sets of pairs, warm-ups, clip levels, both mean modes, all windows",
        "Tests use a complete data set with one parameter setting each.",
        [CO, EW],
        [("one estimator per pair", "from_ewmas"), ("extraction of covariances and means", "_map_nested_dicts")],
        ["sigmas, means, K, assets of the combination and results of solve()"],
        "differential: the whole pipeline against reference estimator plus reference optimum",
        "Pairs whose predictions are nearly equal or singular are skipped and counted. Trusts pbt/ref.py.",
        ("inputs", "configurations"),
    ),
    P(
        "C16",
        "Repeated, interleaved and abandoned solves do not influence each other",
        "One combination object can be solved any number of times, with different windows and times, with several solves advanced in turn, abandoned half-way or failing in between: each result is the same as for a fresh object. The object's experts, means, returns and assets stay what they were.",
        "all histories of opening, advancing, draining and abandoning solves on one object",
        "Tests solve each object once.",
        CO,
        [("all solve state local to the generator", "solve"), ("read-only accessors", "sigmas/means/returns")],
        ["results of every solve in a history, accessors"],
        "generated operation histories against the reference at every step",
        "Random histories of 4-10 operations (16 in thorough runs), each result checked for optimality and blend.",
        ("histories",),
    ),
    P(
        "C17",
        "Combination is equivariant to asset units, expert order and expert names",
        "Expressing assets in other units (returns, predictions and means rescaled, signs included) leaves the weights unchanged and rescales covariance and mean; reordering or renaming experts reorders or renames the weights only. A single expert is returned unchanged with weight one.",
        "all sets of experts, nonzero unit factors, permutations and names",
        "Relations between runs; tests do single runs.",
        CO,
        [("triangular whitening", "_cholesky_precision"), ("label handling of weights", "_CombinationProblem.weights")],
        ["solve() on transformed inputs"],
        "metamorphic relations between solves on transformed inputs",
        "Compared by log-likelihood of the weights (solver accuracy) and exact blend.",
        ("inputs",),
    ),
    P(
        "C18",
        "Experts available at different times are combined over the times they share",
        "When experts start or end at different times, the combination behaves exactly as if every expert had only the times they all share, whichever expert comes first.",
        "all first and last times per expert, orders of experts, windows",
        "All tests give every expert the same times.",
        CO,
        [("drop of incomplete times", "_CovarianceCombination.__init__")],
        ["results of solve()"],
        "generated availability against the reference on the shared times",
        "Contiguous availability per expert. Same tolerances as the optimality and blend checks.",
        ("inputs",),
    ),
    P(
        "C19",
        "A solver failure loses only its own time step",
        "If the solver fails (or stops before converging) at some time steps, exactly those steps yield an empty result, no exception escapes, and every other step, before or after, yields the result it would have had without the failure. Later solves on the same object are unaffected.",
        "all sets of failing steps, failures before or after solving or with garbage left behind, or stopping early",
        "No test makes the solver fail.",
        CO,
        [("per-step exception handling", "solve")],
        ["results of solve() step by step"],
        "fault injection at drawn sets of steps, every other step checked against the reference",
        "Failures are injected by replacing the modelling library's solve call. Results are read one at a time; an implementation that computed steps ahead of time would make the case inconclusive, not an alarm.",
        ("fault_sequences", "inputs"),
        "exploration",
    ),
    P(
        "C20",
        "Regularization keeps variances and the leading correlation structure",
        "Regularizing a covariance with rank r keeps every variance and replaces the correlation matrix by the sum of its r leading eigenpairs plus the diagonal matrix that restores a unit diagonal. The result is symmetric positive semidefinite with the assets as labels, one per input time in input order, and rank n changes nothing.",
        "all covariance sequences (singular and negatively correlated ones included), units, time orders and ranks from 1 to n",
        "Regularization itself has no direct test beyond one stored example.",
        RE,
        [("leading eigenpairs plus diagonal", "_regularize_correlation"), ("conversion to and from correlation", "regularize_covariance")],
        ["results of regularize_covariance()"],
        "differential against a full eigendecomposition, invariants",
        "Entries judged only if the leading eigenspace is unique (gap above 1e-6); invariants always. Trusts numpy's eigendecomposition.",
        ("inputs", "configurations"),
    ),
    P(
        "C21",
        "Low rank format and full format describe the same covariance",
        "In low rank format the result is a loading matrix F (n by r) and a vector d such that F F-transpose plus diag(d) equals the full-format result, with d non-negative, no missing values, assets as labels, and columns ordered by falling eigenvalue.",
        "all covariance sequences (rank-deficient ones included), units and ranks from 1 to n",
        "The format is only used as the start of one stored EM example.",
        RE,
        [("scaled loadings", "regularize_covariance low_rank_format")],
        ["F and d of each result"],
        "round trip between the two formats, eigenvalue invariants",
        "Entries judged only if the leading eigenspace is unique (gap above 1e-6).",
        ("inputs", "configurations"),
    ),
    P(
        "C22",
        "EM refinement never lowers the likelihood and matches five exact EM steps",
        "Refining a low rank plus diagonal model of a covariance gives positive idiosyncratic variances, labels the result with the assets, never lowers the Gaussian likelihood of the covariance, and leaves a model that already equals the covariance unchanged. The result is that of five exact expectation-maximisation steps of the factor model from the given start, for every time in the input.",
        "all positive definite covariances, ranks below n, starts, units and times",
        "One stored example is compared.",
        RE,
        [("E-step and M-step", "_e_step/_m_step"), ("iteration", "_em_low_rank_approximation")],
        ["F and d of each result of em_regularize_covariance()"],
        "differential against textbook EM, monotonicity and fixed-point invariants",
        "Near-singular models are judged by the invariants only. Trusts pbt's EM written from the dense formulas.",
        ("inputs", "configurations"),
    ),
    P(
        "C23",
        "Calls never change their inputs and repeated calls give the same answer",
        "Whatever sequence of calls is made to the estimators, the combination and the regularization on shared inputs, no call changes the returns, predictions, means, starts or lists passed to it, and a call repeated later gives the same answer.",
        "all histories of calls over the public functions on shared inputs",
        "Tests make one call per input and never look at the input afterwards.",
        [EW, CO, RE],
        [("copies before in-place edits", "scale_cov diag copy, fillna"), ("no module-level state", "ewma.py, combination.py, regularization.py")],
        ["all arguments after every call, results of repeated calls"],
        "generated call histories; inputs compared bit by bit after every call",
        "Random histories of 4-14 calls. Solver results of repeated calls compared to 5e-3.",
        ("histories",),
    ),
]
