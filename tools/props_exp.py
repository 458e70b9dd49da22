"""Properties of experiments/utils (the estimators, models and backtests behind the paper's experiments)."""

from props_core import TRUST, P

U = "experiments/utils/"
VEC, LOW, EXP, FAC, CCP, RET, TRD, BTS = (
    U + f
    for f in (
        "iterated_ewma_vec.py",
        "low_rank_ewma.py",
        "experiment_utils.py",
        "factor_model.py",
        "ccp_regularize.py",
        "return_combination.py",
        "trading_model.py",
        "portfolio_backtests.py",
    )
)
NOTESTS = "No existing test imports anything under experiments/."
SOLVE = " Optimality is judged by objective value (about 1e-3 relative) against an independently formulated problem; ECOS and MOSEK are not installed, CLARABEL stands in, and multiprocessing.Pool runs serially."

PROPS = [
    P(
        "C24",
        "Vectorised iterated EWMA equals the iterated estimator",
        "For returns without missing values the vectorised iterated_ewma gives, for the same half-lives, minimum periods and clip level, the iterated EWMA estimate: variances equal the squared (clipped) EWMA volatility and correlations are those of the EWMA of the volatility-adjusted, clipped returns, one matrix per time from the warm-up on with asset labels. Minimum periods below 1 (2 with mean) are raised to it. With mean=True it also returns the mean: the return EWMA plus volatility times the EWMA of the adjusted returns. With low_rank=r the correlation keeps its r leading eigenpairs and unit diagonal, so variances are unchanged.",
        "all return frames without missing values, half-lives, minimum periods, clip levels, means on or off, ranks 1..n; estimates judged where the volatility is not numerically zero",
        NOTESTS + " The function had not even run since its EWMA became a generator.",
        VEC,
        [("array EWMA with clipping", "get_next_ewma/_ewma_array"), ("two stages, warm-ups, mean", "iterated_ewma"), ("low rank plus diagonal", "_regularize_correlation")],
        ["return value of iterated_ewma()"],
        "generated frames against the reference iterated EWMA and dense eigendecompositions",
        "Random search against a closed-form model." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C25",
        "Low-rank iterated EWMA keeps variances and follows the truncated recursion",
        "For ranks below the number of assets, each estimate of low_rank_iterated_ewma has nonnegative idiosyncratic variances, F of shape assets x rank, and diag(FF')+d equal to the squared EWMA volatility. The common part follows the recursion: bias-corrected EWMA of FF' plus the new adjusted return's outer product, normalised by its diagonal, truncated to its leading eigenvalues with the lost variance moved to d (never below zero), then rescaled to the volatilities. Times, labels, volatility, and (with mean=True) mean match the iterated EWMA's. An asset whose return is zero on its first days does not stop the estimator or disturb the others.",
        "all return frames without missing values in which every asset has a volatility after the warm-up, ranks 1..n-1, half-lives, minimum periods, clip levels, means; with mean=True also none of the assets degenerate (no variation)",
        NOTESTS + " The recursion feeds on its own output, so an error shows only some steps later.",
        LOW,
        [("sum of low rank plus diagonal plus outer product", "_low_rank_sum"), ("recursion and warm-up", "_general_low_rank/_ewma_low_rank"), ("rescaling to volatilities", "low_rank_iterated_ewma")],
        ["time, mean, covariance.F, covariance.d, volatility of the yielded items"],
        "generated histories against a dense textbook recursion",
        "Random search against a recursive model; the common part is compared only while eigenvalues are separated." + TRUST,
        ("inputs", "histories"),
    ),
    P(
        "C26",
        "Rolling window covariance averages exactly the last memory returns",
        "rolling_window gives at each time, from the minimum-period row on (min_periods below 1 counts as 1, default 20), the plain average of the outer products of the last `memory` returns up to and including that time, or of all returns so far while there are fewer, with asset labels.",
        "all return frames without missing values, all windows from 1 to longer than the history, all minimum periods including none and more than the history",
        NOTESTS,
        EXP,
        [("recursive add and drop", "rolling_window")],
        ["return value of rolling_window()"],
        "generated frames against the average computed from its definition",
        "Random search against the definition; the recursion accumulates errors, which the tolerance allows for." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C27",
        "Log-likelihoods score the next return under the Gaussian prediction",
        "log_likelihood_regularized, log_likelihood_low_rank and em_low_rank_log_likelihood give for each prediction dated t, in the given order and except at the last return's date, the exact log-density of the NEXT return under the Gaussian with that covariance (and mean of t, if means are given; zero mean otherwise); with r the covariance is first reduced to low rank plus diagonal. log_likelihood and log_likelihood_sequential score row t under covariance t, with returns and means multiplied by scale and covariances by its square. MSE gives the squared Frobenius distance of each prediction to the next return's outer product. Any number of assets and any unit: finite predictions give finite scores.",
        "all complete return histories, sets and orders of prediction dates, positive definite predictions from 1 to hundreds of assets and volatilities from 1e-4 to several hundred, ranks, labels (including integers)",
        NOTESTS + " Determinants of hundreds of assets under- or overflow, which no small example shows.",
        EXP,
        [("shift to the next return", "log_likelihood_*/MSE"), ("log-density", "_single_log_likelihood/log_likelihood/log_likelihood_sequential")],
        ["returned series and arrays"],
        "generated predictions against scipy-free Cholesky log-densities",
        "Random search against an exact density." + TRUST,
        ("inputs", "configurations"),
    ),
    P(
        "C28",
        "Smoothing and realized covariances are weighted averages of their inputs",
        "ewma() on a dictionary yields for every time but the first the bias-corrected exponentially weighted average of the values up to and including that time (vectors, matrices or frames), without changing its input; with clip_at and min_periods, from the (min_periods+2)-th observation on, a value enters limited to clip_at times the previous average. realized_ewma does so for the realized covariances of intraday returns (centred cross products of the day, not divided by the count); realized_volas gives each day's root of the sum of squares.",
        "all sequences of vectors, matrices or labelled frames, all half-lives; clip levels for nonnegative vectors; intraday data with two or more returns per day and any number of days",
        NOTESTS,
        [VEC, EXP],
        [("recursion", "ewma/get_next_ewma"), ("per-day sums", "_realized_covariance/realized_volas")],
        ["yielded pairs"],
        "generated sequences against a recursive model",
        "Random search against a recursive model." + TRUST,
    ),
    P(
        "C29",
        "Return forecasts are weighted ridge fits of the past only",
        "ReturnCombinator.fit gives for every time from the memory-th on, per asset, the weights of the ridge regression of the last `memory` returns on the predictors of the same days, observations weighted by a 500-day half-life (newest most, mean weight 1), penalty alpha times each predictor's EWMA second moment (250-day half-life) up to the day before; the forecast is those weights times that day's predictors. Returns from the forecast day on and later predictors cannot change it. tune_alpha reports, per alpha, the correlation and RMSE of those forecasts and their weights. ewma_predictors and daily_predictors use only earlier returns; feature_engineer splits predictors into positive and negative parts.",
        "all return and predictor frames (1-3 assets, 1-5 predictors, returns covering more dates than predictors), memories and penalties, changes of later data",
        NOTESTS + " Look-ahead is invisible in any single output.",
        RET,
        [("ridge system", "ReturnCombinator._get_weights"), ("penalty scales", "_get_scales"), ("window", "fit"), ("shifted predictors", "ewma_predictors/daily_predictors")],
        ["forecast and weight frames; tune_alpha's lists; predictor frames"],
        "generated panels against direct normal equations; metamorphic change of later data",
        "Random search against a model, plus a causality relation." + TRUST,
    ),
    P(
        "C30",
        "Sparse return forecasts solve the lasso on the past window",
        "ewma_return_combination and ReturnCombinatorOld give for every time after the first `memory` the minimiser of the squared error over exactly the preceding `memory` days plus alpha times the sum of absolute weights, and forecast with those weights times the day's predictors.",
        "all return and predictor series on a common index, memories 2-20, penalties from negligible to so large that all weights vanish",
        NOTESTS,
        RET,
        [("lasso problem", "_combinator_problem"), ("window and forecast", "ewma_return_combination/ReturnCombinatorOld.fit")],
        ["forecast series and weight frame"],
        "generated regressions against coordinate descent",
        "Random search; judged by objective (1e-5) and weights (2e-2) because a solver is involved." + TRUST,
    ),
    P(
        "C31",
        "Factor model covariances are causal and rebuild from their parts",
        "construct_cmiewma_factor_model yields one model per row from row `memory` on; the models from one update row t (memory, then every update_frequency rows) to the next share exposures, the principal components of the `memory` returns before t; the factor covariance is the CM-IEWMA combination (window 10) of the factors' iterated EWMAs from ten rows before t on, the first one with 5% added to its diagonal; idiosyncratic variances are the 21-day EWMA of squared residuals to that date. A model is unaffected by returns after its date. from_factor_to_full_covariance rebuilds exposure' cov exposure plus the diagonal, factor_log_likelihood scores the next return under it.",
        "all return frames (1-3 factors, 2-7 assets), memories of at least 13, update frequencies, half-life pairs, changes of later returns",
        NOTESTS,
        FAC,
        [("training window, test range, residuals", "construct_cmiewma_factor_model"), ("combination and loading", "construct_factor_covariance"), ("rebuild and score", "from_factor_to_full_covariance/factor_log_likelihood")],
        ["yielded FactorModel items; covariance dictionary; likelihood series"],
        "generated markets against a composition of the reference estimators; metamorphic change of later returns",
        "Random search against a model. The combination inside is the library's own (judged by C11-C19). cvx.linalg.pca is not installed; a principal-components stand-in is used." + TRUST,
    ),
    P(
        "C32",
        "Factor parametrization is faithful and its iteration never worsens the fit",
        "The ccp states built from F and d represent the inverse of FF'+diag(d): their build() gives back d and FF', E-GG' is that inverse, and their objective is its Gaussian negative log-likelihood (log det plus trace) for the given covariance. The gradients are those of -log det(E-GG'). An iteration of _State minimises that objective with its concave part linearised at the current state (so the model has the given variances afterwards), never raises the negative log-likelihood, and leaves an exact model optimal.",
        "all covariances and factor models of 2-8 assets with 1 to n-1 factors and widely different scales",
        NOTESTS,
        CCP,
        [("parametrization", "_State.__init__/build"), ("objective", "objective"), ("gradients", "_common_factor/_grad_G/_grad_e"), ("convex step", "iterate")],
        ["ek, Gk, build(), objective(), gradient functions"],
        "generated factor models against dense linear algebra; monotonicity over iterations",
        "Random search against identities; MOSEK is not installed, CLARABEL stands in for the iteration. _State2.iterate is not claimed." + TRUST,
        ("inputs", "histories"),
    ),
    P(
        "C33",
        "Turnover, ECDF, stacked covariances, loadings and yearly Sharpe ratios",
        "turnover is 252 times the mean of the day's absolute weight change over the previous gross exposure, in percent. ecdf gives the sorted sample and levels 1/n..1. from_row_to_covariance and its matrix version rebuild symmetric matrices from row-wise upper triangles. add_to_diagonal multiplies each diagonal by 1+lamda and nothing else, leaving the given matrices alone. construct_rho is n_devs times the 125-day EWM standard deviation of the known returns up to the day before, zero while there are less than two. yearly_SR annualises mean over standard deviation for years with more than 100 days.",
        "all weights, samples (with ties), stacked matrices, labels, loadings, and return histories over several years",
        NOTESTS,
        [EXP, TRD],
        [("definitions", "turnover, ecdf, from_row_*, add_to_diagonal, construct_rho, yearly_SR")],
        ["return values"],
        "generated inputs against the definitions",
        "Random search against definitions written as loops." + TRUST,
    ),
    P(
        "C34",
        "Minimum-risk portfolios are feasible, optimal and hit their volatility",
        "For every day the min_risk portfolio sums to one, respects the given gross, upper and lower limits, and no feasible portfolio has lower risk under that day's covariance. robust_min_risk minimises risk plus kappa times the square of that day's volatilities times absolute weights. vol_cont holds the min_risk portfolio scaled, with the rest in cash (last), to the target annual volatility times the root of the adjust factor. The reported objective is the minimum. Earlier backtests in the process, under other limits or failed, make no difference.",
        "all markets of 2-6 assets and 1-5 days with positive definite covariances, subsets of limits under which a portfolio exists, kappas, targets, adjust factors, earlier backtests",
        NOTESTS,
        TRD,
        [("problem and per-day solve", "Trader.backtest/solve_min_risk"), ("cash scaling", "get_vol_cont_w"), ("whitener", "_get_L_inv")],
        ["trader.ws, trader.obj"],
        "generated markets; certificate by an independently formulated optimisation",
        "Random search with optimality certificates." + SOLVE,
        ("inputs", "histories"),
    ),
    P(
        "C35",
        "Mean-variance and maximum Sharpe portfolios are feasible and optimal",
        "The mean_variance portfolio of each day (cash last, sum one) keeps predicted volatility within the annual target times the adjust factor over root 252, respects the limits on the risky part, and maximises that day's expected return minus the uncertainty (the rhos of that date, given to the backtest or to the trader) times absolute weights, cash earning nothing; the reported objective is that maximum. rhos frames may cover more dates than the trader. The max_sharpe portfolio is long-only, sums to one and no long-only portfolio has a higher ratio of expected return to predicted risk.",
        "all markets of 2-5 assets and 1-4 days, expected returns (for max_sharpe with at least one positive per day), limits, targets, uncertainties",
        NOTESTS,
        TRD,
        [("problems and per-day solves", "Trader.backtest, solve_mean_variance, solve_max_sharpe")],
        ["trader.ws, trader.obj"],
        "generated markets; certificate by an independently formulated optimisation",
        "Random search with optimality certificates." + SOLVE,
    ),
    P(
        "C36",
        "Diversified, risk-parity and equal-weight portfolios are what they claim",
        "Each day's portfolio is long-only and sums to one. eq_weighted holds 1/n of each asset. risk_parity makes every asset contribute the same share of that day's predicted risk. max_diverse keeps every weight within upper_bound and no such portfolio has a higher ratio of weighted volatilities to portfolio volatility.",
        "all markets of 2-6 assets and 1-4 days, upper bounds from just above 1/n to inactive",
        NOTESTS,
        TRD,
        [("problems and per-day solves", "Trader.backtest, solve_risk_parity, solve_max_diverse")],
        ["trader.ws"],
        "generated markets; equal risk shares, Newton solution, optimality certificate",
        "Random search with optimality certificates." + SOLVE,
    ),
    P(
        "C37",
        "Portfolio returns, values, drawdown and metrics add up",
        "Portfolio return of a day is the weights times that day's returns, cash (last weight, where the portfolio has one) earning the risk-free rate or nothing. Dilution scales each day's weights to the target annual volatility under that day's covariance, puts the rest in cash and keeps the undiluted weights; after a new backtest it uses the new weights, for another target it dilutes anew. Value compounds the returns divided by the adjust factor; drawdown is the largest fall from an earlier recorded peak; mean and risk are annualised by 252 (population deviation) after division by the adjust factor, with the risk-free rate subtracted from the mean if excess; Sharpe is their ratio. Risk-adjusted returns have exactly the desired risk.",
        "all weights, returns and covariances of 1-6 assets over 1-40 days, risk-free rates, adjust factors, targets, sequences of two backtests on one trader",
        NOTESTS,
        TRD,
        [("returns", "get_total_returns"), ("cash", "dilute_with_cash"), ("values, drawdown, metrics", "get_portfolio_growth, compute_max_drawdown, get_metrics"), ("risk adjustment", "get_risk_adj_*")],
        ["ws_diluted, rets, Vs, Vs_adjusted, rets_adjusted, get_metrics()"],
        "generated portfolios against bookkeeping written out day by day",
        "Random search against a model." + TRUST,
        ("inputs", "histories"),
    ),
    P(
        "C38",
        "Backtests trade each prediction against the next return only",
        "The backtest classes (EqWeighted, MinRisk, MaxDiverse, RiskParity, MeanVariance) give for each named predictor a trader whose weights at time t come from that predictor's covariance (and mean, less uncertainty if given) of t and whose return at t is the market's next return, for the times from start_date (default the first prediction) up to but not including end_date (default the last), leaving out times whose next return is missing for any asset. Weights up to t do not change when returns after t do. create_table prints one row per predictor, PRESCIENT last under its own name if asked, with annual return, risk, Sharpe ratio and drawdown of the portfolio diluted to the target volatility (undiluted for mean-variance), cash earning the risk-free rate if given.",
        "all sets of 1-3 predictors on common dates, dates before and after the predictions, start and end dates, portfolio types, changes of later returns",
        NOTESTS + " Look-ahead is invisible in any single output.",
        [BTS, TRD],
        [("shift to the next return and ranges", "_get_causal"), ("per-predictor traders", "backtest methods"), ("table", "create_table/_create_table_helper")],
        ["returned traders' ws and returns; printed table"],
        "generated predictors against per-day optimality and the shifted returns; metamorphic change of later returns; parsed table",
        "Random search against a model, plus a causality relation." + SOLVE,
        ("inputs", "configurations"),
    ),
]
