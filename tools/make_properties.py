"""Writes properties.jsonl (one place to edit the texts)."""
import json, pathlib
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
CB="cvx/covariance/combination.py"; EW="cvx/covariance/ewma.py"; RG="cvx/covariance/regularization.py"
TM="experiments/utils/trading_model.py"; PB="experiments/utils/portfolio_backtests.py"
RC="experiments/utils/return_combination.py"; LR="experiments/utils/low_rank_ewma.py"; EU="experiments/utils/experiment_utils.py"; IV="experiments/utils/iterated_ewma_vec.py"

add("C01","Result streams of one combinator are isolated from each other",
 "Any number of result streams opened on the same or on different combinators (any mix of windows, requested times and solver options) may be consumed in any interleaving, from one thread or several, and any of them may be opened late, abandoned or closed early. Each stream delivers exactly the times, weights, means and covariances, in the same order, that it delivers when it is the only stream ever opened, and every solve of a stream uses that stream's own solver options.",
 ["schedules","histories"],"every interleaving of next/open/close over several streams, including preemption between any two source lines of concurrent threads",
 "Each test opens one stream and drains it in one go; no test holds two streams open, closes one early or uses a second thread.",
 [CB],[("each stream builds its own optimisation problem and reads only state fixed at construction","combination.py solve / _solve")],
 [("precomputed factors","Cholesky factors and means of all experts, fixed at construction and shared by all streams","combination.py __init__")],
 ["items yielded by solve()","options that reach the solver"])

add("C02","A solver failure costs exactly its own step",
 "When the solver fails at some steps of a result stream (it raises a solver error, or stops without a solution: numerical breakdown, iteration or time limit, false infeasibility or unboundedness), the stream delivers an empty placeholder (None) at exactly those positions. Every other position delivers the same result as a run without failures, in the same order and number, and a failure never ends the stream; as soon as the solver works again the next step is delivered normally.",
 ["fault_sequences"],"every subset of steps that may fail, every kind of solver failure, single and repeated",
 "No test makes the solver fail; the tests only skip None results if there happen to be any.",
 [CB],[("solver errors are caught per step and turned into a placeholder","combination.py solve")],
 [("optimisation problem reused over the steps","its variable and parameters carry values from one step to the next","combination.py _CombinationProblem")],
 ["items yielded by solve()"])

add("C03","A delivered combination is never garbage",
 "Whatever the solver reports, every result that is delivered (not None) carries finite expert weights, labelled by the experts, that are non-negative and sum to one up to solver accuracy, and a finite, symmetric positive definite covariance labelled by the assets. That covariance (and mean) is exactly what these weights give when applied to the experts' forecasts for the delivered time: the inverse of L L' where L is the weighted sum of the experts' Cholesky factors of the precision, and inv(L') times the weighted sum of the experts' whitened means.",
 ["fault_sequences","inputs"],"all solver outcomes (solved, reduced accuracy, limits hit, infeasible, unbounded, breakdown) at any step, for any admissible experts",
 "Tests only look at weights of a well-behaved solve at one date; statuses other than solved are never produced and the warning about inaccurate solutions is muted.",
 [CB],[("simplex constraints; only solved problems are turned into results","combination.py _CombinationProblem, _solve")],(),
 ["items yielded by solve()"])

add("C04","An interruption is never swallowed and leaves everything reusable",
 "An exception that is not a solver error (user interrupt, memory exhaustion, an exception from a lower layer) raised at any point while experts are computed, a combinator is constructed or a stream is consumed reaches the caller of that very operation: it is not swallowed, not turned into a placeholder, and no result is fabricated. Afterwards the caller's data and the combinator are unchanged, other open streams continue as if nothing had happened, and repeating the interrupted operation gives the same results as if it had never been interrupted.",
 ["crash_points"],"every source line of the library at which an asynchronous exception can arrive, and every solver call",
 "Tests never interrupt anything.",
 [CB,EW,RG],[("only solver errors are caught; all shared state is complete before a combinator is handed out","combination.py solve / __init__")],(),
 ["exception seen by the caller","results after the interruption"])

add("C05","Resuming by time reproduces the uninterrupted run",
 "A consumer that stops or crashes at any point and later asks a combinator rebuilt from the same data for the remaining time steps (any consecutive stretch of available steps, first and last ones included) gets, for every requested step that an uninterrupted run answers, exactly the result of that run, once, in order. A step that came back empty because of a solver failure can be asked for again and is then answered like in a run without failures. A request with gaps, repetitions or times in the wrong order is refused, not answered for other times.",
 ["crash_points","histories"],"all crash points in the stream, all partitions of the time axis into consecutive requests, all window lengths",
 "One test requests one slice in the middle of the data with one window.",
 [CB],[("requested times are checked to be consecutive and prepended with the window they need","combination.py solve")],(),
 ["items yielded by solve(times=...)"])

add("C06","Published forecasts are never revised by later data",
 "A forecast for a time (volatilities, means and covariances of the iterated EWMA predictor, centred returns, and the weights, mean and covariance of the combined predictors for a given effective lookback) depends only on data up to that time. A service that appends data day by day, crashes, restarts and recomputes any part of the history therefore never publishes a forecast that differs from the one it published earlier, whatever data arrived in between, be it ordinary, extreme or (for the iterated EWMA) missing.",
 ["histories","crash_points"],"all histories of data arrival, crashes, restarts and recomputations",
 "All tests run on one fixed data set at full length and never compare a run on a prefix with a run on more data.",
 [CB,EW],[("recursive EWMA; experts are shifted by one step before they are scored","ewma.py _general, combination.py __init__")],(),
 ["results published by from_ewmas, from_sigmas, iterated_ewma, volatility, center"])

add("C07","Caller data and delivered results are never changed afterwards",
 "No operation of the library changes the objects it was given (returns, forecast dictionaries, requested times, options), the process-wide random state or floating-point error handling; this also holds when an operation fails, is interrupted, is abandoned half way or overlaps with others. A result once delivered is never changed by later activity, and a consumer that overwrites a delivered result does not influence any later result.",
 ["histories","schedules","fault_sequences"],"all histories of operations, faults and consumer writes",
 "Tests never look at their inputs again after a call nor hold on to earlier results while more are produced.",
 [CB,EW,RG,LR,IV],[("updates build new arrays instead of writing in place","ewma.py _general, combination.py _solve")],(),
 ["inputs and previously delivered results after every operation"])

add("C08","Estimator and regularisation streams are complete, ordered and isolated",
 "The iterated EWMA predictor (full and low rank), the low-rank regularisation and its EM refinement hand out their results lazily. In any interleaving with other such streams over the same inputs, in one thread or several, with streams abandoned or closed half way, each delivers exactly one result per time step it covers, in the order of its input, equal to what it delivers when run alone.",
 ["schedules","histories"],"every interleaving of several lazy streams over shared inputs, including preemption between any two source lines",
 "Tests drain each generator alone with list() or dict().",
 [EW,RG,LR],[("generators keep all state in local variables","ewma.py _general, regularization.py")],(),
 ["items yielded by iterated_ewma, regularize_covariance, em_regularize_covariance, low_rank_iterated_ewma"])

add("C09","Backtest portfolios do not depend on how workers are scheduled",
 "The portfolio a backtest assigns to a date is the optimum of that date's own problem (that date's covariance, volatility and return forecast, and the requested constraints), whatever the number of worker processes, the way dates are batched, the order in which workers run and finish, and which backtests ran before in the same process. If a worker fails, the error reaches the caller and no portfolios of that backtest become visible.",
 ["schedules","fault_sequences","histories"],"all assignments of dates to workers, all completion orders, worker failures at any date, any previous backtests",
 "The backtests are not tested at all.",
 [TM,PB],[("ordered pool map over dates, one pickled problem per batch","trading_model.py Trader.backtest")],(),
 ["Trader.ws after backtest()"])

add("C10","Backtest figures always describe the latest backtest and the query made",
 "After any sequence of backtests (successful or failed) and queries on a trader, the returns, growth and metrics it reports are those a fresh trader would report after just the latest successful backtest for the same query (target risk, cash dilution, risk-free rate), or an error; they never mix in portfolios, dilutions, constraints or parameters of earlier backtests or queries. A performance table of several traders shows those figures for each trader, under its own name.",
 ["histories","fault_sequences"],"all histories of backtests and metric queries on one or several traders",
 "The backtests are not tested at all.",
 [TM,PB],[("a trader keeps weights, diluted weights and flags between calls","trading_model.py Trader")],
 [("diluted weights and flag","portfolios scaled with cash to a target risk","trading_model.py dilute_with_cash")],
 ["values returned by get_metrics()","rets, Vs, ws"])

add("C11","A corrupted forecast or return is forgotten after the lookback window",
 "If one expert's forecast (covariance or mean) at one time is wrong, only the combined result at that time and the ones of the following `window` steps can change, and the expert weights at that time itself do not change. If the return at one time is wrong while the forecasts are as before, only the results from that time on for `window` steps can change. All other results are the same as if the corruption had not happened; likewise a rolling-window covariance forgets a wrong return once it has left the window.",
 ["fault_sequences"],"all positions and kinds of finite corruptions, single or in bursts, all windows",
 "No test perturbs an input and looks at what does not change.",
 [CB,EU],[("experts scored on the last `window` returns with the forecasts made one step before","combination.py solve")],(),
 ["weights, means and covariances yielded by solve(); rolling_window output"])

add("C12","A bad tick has bounded, decaying influence on EWMA volatility",
 "A single wrong return of one asset changes only that asset's estimated volatilities from its own time on. Without clipping its effect on the variance, weighted with the number of effective observations, halves every half-life. With clipping at c (after the start-up period, and once the asset has had a return other than zero) the squared volatility grows by at most the factor 1 + w (c^2 - 1) at the bad tick, w being the weight of the newest observation, however large the tick is, and by exactly this factor when the tick exceeds c times the volatility before it.",
 ["fault_sequences"],"all times, sizes and assets of bad ticks, all half-lives and clipping levels",
 "One test pins one clipped estimate on one data set; none injects a bad tick.",
 [EW],[("bias-corrected EWMA recursion with winsorised update","ewma.py _general, volatility")],(),
 ["volatility(), iterated_ewma().volatility"])

add("C13","A data outage costs only itself",
 "Missing returns (single gaps, long outages, outages of the whole market longer than the lookback, assets that start late or stay dead) are treated exactly as zero returns by the iterated EWMA predictor and by the combined EWMA predictor. They leave the volatilities of all other assets and the covariances among them as they are without the outage, and never end or shift a stream: the same times are delivered as without the outage. An asset that comes back, or starts, has a positive volatility from its first return other than zero on. (For the combined predictor the outages begin after the start-up periods of the experts.)",
 ["fault_sequences"],"all patterns of missing data over times and assets",
 "One test compares one estimate on one fixed pattern of gaps with a stored file; the combined predictor is never given gaps.",
 [EW,CB],[("missing returns are replaced with zero; zero volatility becomes an undefined entry of that asset only","ewma.py iterated_ewma")],(),
 ["items yielded by iterated_ewma and from_ewmas(...).solve"])

add("C14","Research predictors and backtests never look ahead",
 "The return predictors and their combination (EWMA and lagged predictors, regularised combination, uncertainty bounds) give for a time a value that depends only on returns before that time; the low-rank, realised and rolling-window covariance estimates for a time depend only on data up to that time. Appending or changing later data, at any moment and across restarts, never changes a value already produced.",
 ["histories","crash_points"],"all histories of data arrival and recomputation",
 "The experiment utilities are not tested at all.",
 [RC,LR,EU,IV,TM],[("predictors are shifted by one step; recursions run forward","return_combination.py, low_rank_ewma.py, experiment_utils.py")],(),
 ["values of the predictors for a time, before and after more data"])

add("C15","Published EWMA forecasts equal the definition, whatever the feed did",
 "At every moment of a forecasting service's life, whatever its feed did before (missing values, outages, assets that start late or die, stuck zeros, jumps, bad ticks, corrected rows) and however often it was restarted, the published volatilities, means and covariances of the iterated EWMA predictor are those of its definition: missing returns count as zero; when requested, the EWMA mean is subtracted first; bias-corrected EWMA volatilities, whose update is clipped at clip_at times the volatility before it (once that is positive and the start-up periods are over); EWMA covariance of the clipped volatility-adjusted returns rescaled to unit diagonal and back to the volatilities; one forecast per step from the step on at which the minimum numbers of periods are reached. The volatility and the centring used on their own agree with the same definition.",
 ["fault_sequences","inputs"],"all return histories and feed faults, half-lives, start-up lengths and clipping levels, moments of publication",
 "Tests pin two covariance matrices of one clean data set.",
 [EW],[("recursion","ewma.py _general, volatility, center, iterated_ewma")],(),
 ["items yielded by iterated_ewma; volatility(), center()"])
add("C16","Delivered weights are optimal for their own step, however a stream got there",
 "However a stream got to a step (solver failures before, other streams advancing in between, abandoned and resumed by time, with any window and extreme data), the expert weights it delivers maximise, over the simplex and up to solver accuracy, the summed log-likelihood of the returns of the last `window` steps (all steps when no window is given) under the combined Cholesky factors, every return being scored with the experts' forecasts made one step before it. (Results the solver itself reports as inaccurate are excepted.)",
 ["fault_sequences","schedules","inputs"],"all experts and returns, windows, requested times, sequences of solver faults and reopenings","Tests pin the weights of one data set at one date to 1e-3.",
 [CB],[("concave programme","combination.py _CombinationProblem, _CovarianceCombination.solve")],(),
 ["weights of the items yielded by from_sigmas/from_ewmas(...).solve"])
add("C17","Low-rank regularisation keeps variances",
 "Regularisation of a covariance to rank r plus diagonal keeps every variance, is symmetric, and its factor form and its full form describe the same matrix.",
 ["inputs"],"all covariance matrices and ranks","The test only runs the function.",
 [RG],[("eigendecomposition of the correlation matrix","regularization.py")])
add("C18","EM refinement never lowers the likelihood",
 "Each EM refinement of a factor model has at least the Gaussian likelihood of its starting point and non-negative idiosyncratic variances.",
 ["inputs"],"all covariance matrices and starting points","One test pins one matrix.",
 [RG],[("five EM steps","regularization.py _em_low_rank_approximation")])
add("C19","Forecasts follow permutations and rescaling of the assets",
 "Permuting the assets permutes the forecasts, rescaling an asset rescales its rows and columns, and permuting the experts permutes the weights.",
 ["inputs"],"all inputs","No test transforms its inputs.",
 [CB,EW,RG],[("label-based arithmetic","combination.py, ewma.py")])
add("C20","The likelihood utilities agree with each other",
 "All utilities that compute Gaussian log-likelihoods (batched, sequential, regularised, low rank) agree on the same forecasts.",
 ["inputs"],"all forecasts and returns","They are not tested.",
 [EU],[("closed form","experiment_utils.py")])
pathlib.Path(__file__).parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
for p in P: assert len(p["title"])<=80,p["id"]
