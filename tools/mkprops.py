"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json
FM='anticipy/forecast_models.py'; FC='anticipy/forecast.py'; MU='anticipy/model_utils.py'; FP='anticipy/forecast_plot.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Composed models evaluate exactly as the sum or product of their parts',
  "For any two forecast models, the model built with + (or *) predicts, at every sample, the sum (or product) of what the two parts predict when each is given its own consecutive slice of the parameter vector, both parts being told that the composition is additive (or multiplicative). Its number of parameters, initial guesses and parameter bounds are the concatenation of those of its parts in the same order, and its input validation accepts exactly the inputs that both parts accept. Composing with the null model returns the other model unchanged.",
  ['inputs','programs'],'all pairs of models (any parameter counts, any model functions), any nesting of + and *, all x, dates, parameters and extra keyword arguments',
  'The tests evaluate a dozen fixed compositions on a ten-sample series; the statement ranges over every pair of models, every parameter split and every nesting.',
  [FM],[('ForecastModel.__add__/__mul__',FM),('_get_f_add_2_f_models/_get_f_mult_2_f_models',FM),('_get_f_concat_2_bounds, _get_f_*_2_f_init_params',FM),('validate_input',FM)],
  observe=['ForecastModel.__call__','n_params','f_init_params','f_bounds','validate_input'])
p('C02','Built-in models return their documented formula, one value per sample',
  "Each predefined model (constant, linear, quasilinear, exponential, decay, step, two steps, sigmoid, ramp, spike, date spike, date step, weekday, month and yearly-Fourier seasonality) returns, for each sample, the value of its documented formula of that sample's x or date and of the parameters, in additive and in multiplicative mode. The result has one value per input sample, and a sample's value does not depend on the other samples. Step-like models take effect from the threshold itself onwards (x >= A), and seasonal models read the parameter that belongs to the sample's own weekday or month.",
  ['inputs'],'all x/date arrays of any length, all finite parameter values, additive and multiplicative mode',
  'The tests compare one fixed 10-sample series per model with hand-written output for one or two parameter vectors.',
  [FM],[('_f_model_* functions',FM),('_f_init_cache_a_* calendar variables',FM)],observe=['ForecastModel.__call__'])
p('C03','Initial guesses match the parameter count and lie within ordered bounds',
  "For every predefined model and any usable series (finite values, sorted x, enough samples to be fitted and accepted by the model's own validation), the initial parameters form a vector with exactly one entry per model parameter, the minimum and maximum bounds have the same length with min <= max, and the initial guess lies between them. The same lengths hold when no data is given. The default for models without their own initialisation is one value in (0, 1] per parameter and unlimited bounds.",
  ['inputs'],'all series of finite values with at least n_params + 2 samples, with or without repeated x; all predefined models and their compositions',
  'Tests look at the lengths of init parameters for two models and at the bounds computed without data.',
  [FM,FC],[('f_init_params_* / f_bounds_*',FM),('validate_initial_guess',FM),('assertion in optimize_least_squares',FC)])
p('C04','Evaluating a model with its cache gives the same values as without',
  "For every model that caches calendar or dummy variables, and for any composition of such models, evaluating it with the cache prepared for a given x/date input yields exactly the values that evaluating it without a cache yields. Two different dummy variables never share a cache entry, whatever their names.",
  ['inputs','programs'],'all caching models and their compositions, all x/date inputs, all parameters, both composition modes',
  'Tests compare cached and uncached evaluation for a few fixed models and dates.',
  [FM,FC],[('ForecastModel.init_cache',FM),('_dict_f_cache, _f_init_cache_*',FM),('mask lookup in _get_f_model_dummy',FM),('use_cache in optimize_least_squares',FC)],
  state=[('dict_f_cache / l_cache_vars','cached variables a model needs','ForecastModel'),])
p('C05','Fixing or simplifying parameters leaves the modelled function unchanged',
  "A model with some parameters fixed has as many parameters as were left free, and predicts for any free values exactly what the original model predicts with the fixed values put in their positions; its initial guess and bounds are those of the free parameters in order. Simplifying a model fixes exactly the parameters whose minimum and maximum bounds are equal, to that bound, and returns the model unchanged when there are none. Repeated or interleaved evaluations do not influence each other.",
  ['inputs','histories'],'all models, all patterns of fixed parameters and values, all inputs, any sequence of evaluations',
  'Tests fix one or two patterns of two small models and evaluate each once.',
  [FM],[('get_fixed_model',FM),('fix_params_fmodel',FM),('simplify_model',FM)])
p('C06','Dummy and calendar models act exactly on the listed values or dates',
  "A dummy model adds its parameter A to exactly the samples its list of values or dates (or its mask function) flags and adds 0 elsewhere; in multiplicative mode flagged samples get 1 + A and all others exactly 1. Calendar and date-list models have one parameter per calendar or list, applied in order to the dates of that calendar or list and to no other date, whatever range the evaluated dates cover. Dates are matched by timestamp, and repeated dates are all flagged.",
  ['inputs'],'all lists of numbers or dates, all calendars, all evaluated x/date arrays (also outside the fitted range)',
  'Tests evaluate a handful of lists and calendars over one or two years.',
  [FM],[('_get_f_dummy*',FM),('get_model_dummy',FM),('get_model_from_calendars, get_model_from_datelist',FM)])
p('C07','AICc follows its formula, and the selected key has the minimal AICc',
  "The AICc score equals n*log(E/n) + 2k + 2k(k+1)/(n-k-1) for every positive error E and every n > k+1, is defined (and below the score of any noticeable error) for a perfect fit, and a series too short for the formula is refused with a ValueError and never scored. The score grows strictly with the error, and for equal error and sample count grows with the number of parameters. Selecting the best of a table of scores returns a key of that table whose score is minimal, ignoring null scores, or None when all scores are null.",
  ['inputs'],'all errors >= 0, all sample and parameter counts, all score tables including -inf, null and repeated scores',
  'Tests evaluate a few score tables and numeric examples.',
  [MU],[('get_aic_c',MU),('get_s_aic_c_best_result_key',MU)])
p('C08','The best fit is a successfully fitted candidate with minimal AICc',
  "For each source, when at least one candidate was fitted, exactly one model is flagged as best fit in the metadata; it was fitted successfully, and no fitted candidate of that source has a smaller AICc. The forecast rows flagged as best fit are exactly the rows of that model, and without include_all_fits only the actuals and those rows are returned. When no candidate could be fitted no row is flagged.",
  ['inputs','configurations'],'all series, all candidate lists, both values of include_all_fits',
  'Tests check the selected model for a few series with two or three candidates.',
  [FC],[('run_forecast_single (df_best_fit)',FC),('fit_model (aic_c)',FC)])
p('C09','Only usable samples drive the fit, weighted as documented',
  "The residual minimised for each sample is the absolute difference between observed and predicted value times the sample's weight, one residual per usable sample. Samples with null value or with zero or missing weight have no influence on fitted parameters, cost or score. When several samples share one x, each weighs its own weight divided by the number of usable samples at that x.",
  ['inputs'],'all series with any pattern of nulls, weights and repeated x, all models',
  'Tests use a few weight patterns and compare fitted parameters approximately.',
  [FC],[('get_residuals',FC),('fit_model (filtering, k_weight_normalize)',FC),('optimize_least_squares',FC)])
p('C10','Fit status is honest and every series gets a status instead of a crash',
  "Fitting reports is_fit exactly when the status is FIT: an empty series reports EMPTY_TS, one with fewer than parameters + 2 usable samples TS_TOO_SHORT, one the model rejects INPUT_ERR, and none of these carries parameters or a score. A fitted model carries one parameter per model parameter, a finite non-negative cost equal to half the sum of squared residuals, and the score of that cost for the number of usable samples and the model's parameters. Model, source, frequency and sample range in the metadata are those of the fitted model and series.",
  ['inputs'],'all series (empty, all null, too short, with or without dates and weights) and all models, including zero-parameter and simplified models',
  'Tests cover one example per status.',
  [FC],[('fit_model',FC),('_get_df_fit_model',FC),('_get_empty_df_result_optimize',FC)])
p('C11','Normalising input keeps every sample, renamed, sorted and correctly indexed',
  "Normalising an input table keeps exactly one output row per input row with its value, weight, source and date unchanged, under the standard column names whatever the input called them, ordered by source and then by x with a fresh index. Without an x column, x is the number of days since the Monday on or before the first date of that row's source, or the row number within the source when there are no dates. Columns that were not given are not invented, and an empty input gives None.",
  ['inputs','configurations'],'all tables with any combination and naming of optional columns, any number of sources, any row order',
  'Tests normalise five small tables.',
  [FC,MU],[('normalize_df',FC),('get_normalized_x_from_date',MU)])
p('C12','The forecast axis covers actuals plus horizon with x consistent with dates',
  "The extrapolation axis starts at the first actual sample, contains a point for every regular actual date, advances by exactly one sampling period per step and ends at the last point not after the last actual plus the horizon, the horizon being extrapolate_years times the periods per year rounded down. Along it x advances by exactly the elapsed days (one per step for a numeric axis) from the x of the first actual, so that a model is extrapolated on the same x scale it was fitted on. The extrapolated values are the model evaluated with the fitted parameters on that axis.",
  ['inputs','configurations'],'all start and end dates or numbers, all supported frequencies, all horizons >= 0, all starting x, scaled and unscaled models',
  'Tests check the axis for a few dates, weekly and daily frequency and one horizon; numeric axes only from x=0.',
  [MU,FC],[('get_s_x_extrapolate',MU),('extrapolate_model',FC),('x_start_actuals in run_forecast_single',FC)])
p('C13','Detected frequency matches the smallest spacing of the dates',
  "The detected frequency depends only on the set of dates, not on their order or repetition: H for a smallest gap of one hour, D for one between 23 hours and below 28 days other than exactly 7 days, the W code of the weekday of the earliest date for exactly 7 days, M/MS for 28-31 days, Q for 89-92 and Y/YS for 365-366, with the start variants exactly when all dates are the first of the month (of January for years). With fewer than two different dates, without dates, or with smaller gaps it is None.",
  ['inputs'],'all collections of dates, in any order, with repetitions',
  'Tests detect the frequency of a few regular ranges.',
  [MU],[('detect_freq',MU)])
p('C14','Gap filling keeps every sample and inserts only missing grid points',
  "Filling gaps returns a table holding every original sample of a regular grid with its non-null values untouched, plus one row per missing grid point, in increasing order and with no grid point repeated. Inserted rows lie strictly between the first and last sample and have null values, or values interpolated between their neighbours when requested, and the mask flags exactly the inserted rows. A series with no gaps is returned unchanged, and a series with gaps and several samples per date or x is refused with a ValueError.",
  ['inputs'],'all series by date or by number, any pattern of gaps, with and without interpolation and mask',
  'Tests fill one or two gaps in small daily and numeric series.',
  [MU],[('interpolate_df',MU)])
p('C15','Prediction intervals are ordered, nested and never disturb the forecast',
  "Every forecast row of the selected models of a source with in-sample residuals keeps its date, source, model and value, and gets a lower and an upper limit for the outer and the inner percentile with outer lower <= inner lower <= inner upper <= outer upper when outer percentile <= inner percentile < 50. Actual rows get no interval, no row is lost or duplicated, and rows after the last actual sample and rows up to it are covered once each. Limits are the forecast value plus percentiles of mean-centred in-sample residuals of usable actuals, accumulated over future steps, so a forecast without residual error has a zero-width interval.",
  ['inputs','configurations'],'all forecasts, residuals, random draws, percentiles, widening frequencies and horizons',
  'Tests check column presence and a few rows for fixed series.',
  [FC],[('get_pi',FC),('_get_pi_single_source',FC),('_df_add_pi_percentiles',FC),('_get_days_from_freq',FC)])
p('C16','Forecast output keeps all actuals and holds one row per date and model',
  "The data returned by a forecast contains every input sample from date_start_actuals on exactly once, flagged as actual, labelled 'actuals' and with its date and value unchanged. Every fitted candidate that is returned contributes non-actual rows with unique dates, non-null values and the model and source names of its metadata row, equal to the model evaluated with the reported parameters on the forecast axis. Every row carries the source it belongs to.",
  ['inputs','configurations'],'all series, candidate lists, horizons, start dates, weights and outlier options',
  'Tests check row counts and selected values of some fixed scenarios.',
  [FC],[('run_forecast_single',FC),('get_df_actuals_clean',FC),('_get_df_fcast_clean',FC)])
p('C17','Each source is forecast as if it were alone, and none is lost or mixed',
  "Forecasting a table with several sources gives for each source the rows that forecasting that source alone would give (apart from random interval draws), and the output has rows for every input source and no other. Metadata and data of one source never carry the samples, scores or names of another. Aggregating a list of results keeps all rows of all of them.",
  ['inputs'],'all tables with any number of sources, any interleaving of rows, all candidate lists',
  'Tests run two or three fixed sources and check row counts.',
  [FC],[('run_forecast',FC),('aggregate_forecast_dict_results',FC),('get_pi (groupby source)',FC)])
p('C18','No call modifies the tables, lists or arrays it is given',
  "Normalising, fitting, extrapolating, gap filling, outlier detection, prediction intervals, plotting and forecasting leave the caller's tables (values, columns, index, order), model lists and arrays exactly as they were, and do not alter the predefined models. Repeating a deterministic call with the same arguments therefore gives the same result.",
  ['inputs','histories'],'all public entry points, all inputs and options, any sequence of calls',
  'Tests never compare inputs before and after a call.',
  [FC,FM,MU,FP],[('df.copy() on entry',FC),('list building in get_list_model / run_forecast_single',FC)])
p('C19','Outlier detection flags only large jumps and runs on any single-valued series',
  "Outlier detection returns two masks with one flag per sample; every flagged sample lies in a stretch delimited by changes outside 1.5 interquartile ranges of the quartiles of all changes. A series without such changes gets no flag, a series with repeated dates (or x) is refused with a ValueError, and shifting all values by a constant does not change the masks. In a forecast, spike samples are ignored for fitting (weight 0) and still reported as actuals.",
  ['inputs'],'all series with one sample per date or x',
  'Two of the existing tests fail on the no-outlier case with the installed pandas; the others use four fixed series.',
  [FM,FC],[('get_model_outliers',FM),('get_iqr_thresholds',FM),('find_outliers in run_forecast_single',FC)])
p('C20','Candidate models are exactly the eligible trend/season/calendar combinations',
  "The candidate list holds, without duplicates, every combination of a trend and a season model composed in the requested way(s), and nothing else. Automatic seasonality offers weekly (yearly) components exactly when the dates span more than 1.5 weeks (years) and are spaced at most a day (92 days), the piecewise-linear trend exactly when they span more than two years, and calendar models only with at least daily samples over more than a year. Samples of zero weight do not count for eligibility.",
  ['inputs','configurations'],'all date sets, weights, candidate lists and composition modes',
  'Tests check a few date ranges and lists.',
  [FC,FM],[('get_list_model',FC),('get_l_model_auto_season',FM),('_get_use_ramp, _get_use_calendar',FC),('run_forecast_single',FC)])
p('C21','Naive models predict from earlier samples only',
  "The naive model predicts for each sample the latest usable earlier value, and the seasonal naive model the latest usable value of the same weekday at an earlier sample; beyond the actuals both repeat their last available value(s) indefinitely. Changing a value never changes a prediction at or before it (except leading gaps, which the naive model fills from the first available value). Missing or ignored samples are skipped, and the output has one value per requested sample in x order.",
  ['inputs'],'all daily or other series with one sample per x, any gaps and null values, any horizon',
  'Tests check five short series with hand-written output.',
  [FM],[('_f_model_naive',FM),('_fillna_wday, _f_model_snaive_wday',FM)])
p('C22','Automatic composition picks multiplicative only when its conditions hold',
  "Automatic composition is additive whenever any value is <= 0, dates are missing, the dates span less than 60 days or fewer than 4 usable samples exist, and otherwise multiplicative exactly when the correlation between monthly mean and monthly residual variance is at least 0.8. With season_add_mult add, mult, both or auto, the candidate list that is fitted is the additive, the multiplicative, the union, or the detected one, and the metadata records for each model the composition it was built with.",
  ['inputs','configurations'],'all series and composition options',
  'Tests check the decision for a few generated series.',
  [MU,FC],[('is_multiplicative',MU),('_get_model_is_add_mult',FC),('run_forecast_single',FC)])
p('C23','Plotting shows every source in a grid and reports success honestly',
  "Plotting a forecast returns 0 only when a supported output (png or html) was written, and returns 1 without writing anything when the format is unknown or no path is given. With several sources the grid has room for every source, and each source's actual and forecast rows are drawn in its own cell and nowhere else. The plotted table is not modified.",
  ['inputs','configurations'],'all forecasts with any number of sources, all output formats and paths',
  'Tests write a few plots and check that the file exists.',
  [FP],[('plot_forecast',FP),('_matplotlib_forecast_create, _plotly_forecast_create',FP)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
