"""Writes properties.jsonl (run by hand; the file is committed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=text), why_tests_cant=why,
           anchors=dict(files=files, mechanism=[
               dict(name=n, where=w) for n, w in mech], **kw))
  assert len(title) <= 80, title
  P.append(d)


p('P01', 'Leaf metrics equal their textbook definitions on every slice',
  'Sum, Count, Mean, Max, Min, Dot, Ratio, Variance, StandardDeviation, CV, Cov, Correlation, Quantile and Nth, '
  'including their documented options (weight, fweight, bias, ddof/unbiased, normalize, distinct, interpolation, several quantiles, dropna, ascending), '
  'return for the whole frame and for every split_by slice exactly the mathematical definition of the statistic on the rows of that slice. '
  'Null cells of a one-variable metric are skipped; a statistic without enough observations is null; the input frame is not modified.',
  ['inputs', 'configurations'],
  'every numeric content of the columns, every assignment of rows to slices and every null pattern (bounded tables), every listed option',
  'Unit tests fix a handful of small integer tables; a formula that is off only for unequal weights, for unbalanced slices, for a null in one slice, for tied values or for a particular ddof passes them all.',
  ['metrics.py', 'utils.py'],
  [('leaf compute_slices and get_equivalent formulas', 'metrics.py: SimpleMetric subclasses'),
   ('equivalent-metric evaluation with auxiliary columns', 'utils.py: get_equivalent_metric/add_auxiliary_cols; metrics.py: compute_equivalent')])

p('P02', 'A split_by result is the per-slice result, slice by slice',
  'For every metric or operation M and every frame, M.compute_on(df, split_by) contains, for each slice occurring in the data, the value that M.compute_on gives on the rows of that slice alone, whatever the row order, the index of the frame and the number of split_by columns. '
  'It contains no other slices, and adding rows of one slice never changes the value of another slice.',
  ['inputs', 'configurations', 'programs'],
  'every metric tree built from the listed leaves and operations, every cell value and every assignment of rows to slices within the bounds, one or two split_by columns',
  'Tests check fixed balanced tables; cross-slice leaks through alignment, broadcasting, reindexing or caching only show for unbalanced, sparse or unsorted slices.',
  ['metrics.py', 'operations.py', 'diversity.py', 'utils.py'],
  [('split and per-slice computation', 'metrics.py: compute_slices, split_data, group'),
   ('operations extending split_by', 'operations.py: Operation.compute_children, compute_slices of subclasses')])

p('P03', 'A where filter is equivalent to pre-filtering the data',
  'M(where=w).compute_on(df) equals M without the filter computed on df.query(w), for leaves, Ratio, MetricList, composites and operations; a list of filters, filters given at different levels of the metric tree and add_where all mean the conjunction of the parenthesised filters. '
  'A filter on one metric never affects its siblings or parents, even when sub-metrics are shared or cached.',
  ['inputs', 'configurations', 'programs'],
  'every cell value (so every outcome of every filter atom on every row), filters with and without top-level "or", at every level of the metric tree',
  'Which rows satisfy a filter is data dependent and nested filters interact through the shared cache and the expansion of metrics into equivalents; tests sample a few rows with one filter.',
  ['metrics.py', 'operations.py', 'utils.py'],
  [('filter application and conjunction', 'metrics.py: where/add_where/compute_through'),
   ('filters in cache keys', 'utils.py: CacheKey'),
   ('filters in equivalent metrics', 'utils.py: push_filters_to_leaf, get_global_filter')])

p('P04', 'Arithmetic on metrics is arithmetic on their results',
  'For metrics A, B and constants c, the composites A+B, A-B, A*B, A/B, A**B, -A and their forms with a constant on either side evaluate to the same arithmetic on the separately computed results, on every slice and for arbitrarily nested expressions. '
  'This also holds when an operand is an operation or a multi-column metric, when operands share sub-metrics, and it does not depend on the names given to the operands; a division by zero gives the IEEE result.',
  ['inputs', 'programs'],
  'every numeric content of the columns; expression trees of bounded depth over the listed metrics and constants',
  'Wrong operand order, precedence or alignment is invisible for the symmetric or trivial values in tests; it takes all values and unbalanced slices to rule out.',
  ['metrics.py', 'utils.py'],
  [('operator overloads and evaluation', 'metrics.py: Metric.__add__.., CompositeMetric.compute_on_children')])

p('P05', 'Caching, sharing and batching never change a result',
  'Computing metrics in a MetricList, several times on the same or on different frames, after other metrics with the same cache_key, or with sub-metrics shared between trees gives each metric exactly the value it has when computed alone with a fresh instance. '
  'Two metrics that are equal or share a cache entry (same fingerprint) always compute the same values, and computing a metric leaves the input frame and the metric reusable, also after an exception.',
  ['inputs', 'histories', 'programs'],
  'every numeric content, every ordered pair or short sequence of computations over the listed metrics (differing in one option, variable, filter, weight or operation argument)',
  'A cache collision needs two particular metrics in one computation; tests compute metrics one at a time.',
  ['metrics.py', 'utils.py', 'operations.py'],
  [('cache keys and lookups', 'metrics.py: _compute_with_caching_and_postprocessing, wrap_cache_key; utils.py: CacheKey'),
   ('fingerprints and equality', 'metrics.py: get_fingerprint, __eq__, __hash__')])

p('P06', 'PercentChange, AbsoluteChange and MH equal their definitions',
  'For every condition other than the baseline, AbsoluteChange gives value - baseline value, PercentChange gives 100*(value/baseline value - 1), and MH gives the Mantel-Haenszel stratified ratio change, within each slice. '
  'Each holds for single and multi-column conditions and stratifications, for several child metrics at once, with include_base, and with conditions or strata missing from some slices (whose result is then null or absent, never borrowed from another slice).',
  ['inputs', 'configurations'],
  'every numeric content and every (slice, condition, stratum) pattern of the rows within the bounds',
  'Missing combinations and multi-column baselines align differently in every data set; tests check a couple of complete tables.',
  ['operations.py'],
  [('comparison to the baseline', 'operations.py: Comparison/PercentChange/AbsoluteChange.compute_on_children'),
   ('stratified weighting', 'operations.py: MH.compute_slices/compute_on_children')])

p('P07', 'Distribution and CumulativeDistribution equal their definitions',
  'Distribution(over, M) gives, within every split_by slice, M of each value of over divided by the sum of M over all values, so each slice sums to 1; CumulativeDistribution gives the running sums of those shares in the documented order (the given order, or ascending or descending key order) and ends at 1. '
  'Values of over absent from a slice contribute nothing and shares never mix slices or columns of a multi-column child.',
  ['inputs', 'configurations'],
  'every numeric content, every assignment of rows to (slice, over) cells, one or two over columns, every order option',
  'Order and normalisation errors need unbalanced slices and non-sorted keys, which tests do not cover exhaustively.',
  ['operations.py'],
  [('normalisation and cumulation', 'operations.py: Distribution/CumulativeDistribution')])

p('P08', 'Jackknife gives the leave-one-unit-out standard error on every path',
  'Jackknife(unit, M) reports the point estimate of M and the delete-one standard error sqrt((n-1)/n * sum (theta_i - mean theta)^2) over the units of each slice, where theta_i is M on the data without unit i. '
  'The optimised path (precomputed leave-one-out sums) and the general path (enable_optimization=False) agree for every M, split_by, filter and nested operation; units or slices with too little data give a null standard error, not a wrong one.',
  ['inputs', 'configurations', 'programs'],
  'every numeric content and every (slice, unit) occupancy pattern within the bounds, every listed child metric with and without filters',
  'The fast path rewrites the metric algebraically; whether the rewrite is exact for unbalanced units, units missing from slices, nulls or filters is a universally quantified algebraic statement.',
  ['operations.py', 'utils.py', 'metrics.py'],
  [('precomputed leave-one-out', 'operations.py: Jackknife.precompute, get_samples, can_precompute; utils.py: adjust_slices_for_loo'),
   ('standard error', 'operations.py: Jackknife.get_stderrs_or_ci_half_width')])

p('P09', 'Bootstrap and PoissonBootstrap are exact for every random draw',
  'For every outcome of the random resampling, each Bootstrap or PoissonBootstrap replicate equals the metric computed on the multiset of rows (or of whole units) drawn, the reported standard error is the sample standard deviation of the replicates, and the point estimate is the metric on the original data. '
  'Pre-aggregating by unit and every other optimisation (enable_optimization=False disables them) gives the same replicates for the same draw, for every metric, filter and split_by.',
  ['inputs', 'configurations', 'programs'],
  'every numeric content and every possible resampling outcome (the random source is nondeterministic) within the bounds',
  'Tests fix one seed; correctness for every draw and for every additive rewrite cannot be sampled.',
  ['operations.py', 'utils.py', 'metrics.py'],
  [('resampling', 'operations.py: Bootstrap.get_samples, PoissonBootstrap.get_samples'),
   ('unit pre-aggregation', 'operations.py: compute_through / get_sum_equivalent; utils.py: get_equivalent_metric')])

p('P10', 'Confidence intervals are point estimate +/- t-quantile times the SE',
  'With confidence c, Jackknife and Bootstrap return bounds whose centre is the point estimate and whose half width is the Student-t quantile of (1+c)/2 (with dof = number of valid replicates - 1) times the standard error that is reported without confidence. '
  'This holds per slice and per column, including when replicates are missing for some slices; display() consumes exactly these values.',
  ['inputs', 'configurations'],
  'every numeric content and occupancy pattern within the bounds; confidence levels 0.5-0.99; split_by or not; nested in and around comparisons',
  'Degrees of freedom differ per slice only when units are missing from slices, which fixed tables do not exercise.',
  ['operations.py'],
  [('interval construction', 'operations.py: MetricWithCI.manipulate/final_compute, get_ci_width')])

p('P11', 'Diversity metrics equal their definitions on every slice',
  'HHI is the sum of squared shares, Entropy is -sum p ln p (with the documented handling of zero shares), TopK is the sum of the k largest shares and Nxx is the smallest number of largest entries whose cumulative share reaches the given share, of the child metric over the over columns. '
  'Each is computed within each split_by slice and for every column of the child independently.',
  ['inputs', 'configurations'],
  'every positive numeric content (so every ordering and every tie of the shares), every slice pattern, k and share parameters',
  'Orderings and thresholds that are reached exactly are data dependent; tests use one or two tables.',
  ['diversity.py'],
  [('share based indices', 'diversity.py: HHI, Entropy, TopK, Nxx')])

p('P12', 'CUPED and PrePost equal the regression-adjusted difference',
  'PrePost and CUPED report, per condition and slice, the metric adjusted by the covariates exactly as the regression they document: CUPED subtracts theta*(covariate - mean covariate) with theta the pooled least squares slope, PrePost fits the pre-period covariates with a treatment interaction, centred within the slice. '
  'The adjusted comparison equals the difference (AbsoluteChange) or percentage change of the adjusted values, within each split_by slice only.',
  ['inputs', 'configurations'],
  'every numeric content for which the regression is well defined; stratification by unit, one or two covariates, split_by or not',
  'The adjustment is a closed form of all the cells; tests check a few fixed tables with sklearn.',
  ['operations.py'],
  [('adjustment', 'operations.py: PrePost/CUPED.adjust_value, compute_on_children')])

p('P13', 'Linear models are the least-squares solution on every path',
  'LinearRegression and Ridge coefficients (with and without intercept, with normalize, per split_by slice) satisfy the normal equations of their documented objective on the grouped child data. '
  'The sufficient-statistics computation used in magic mode (compute_on_sql with mode=magic) yields the same coefficients as fitting the model on the data.',
  ['inputs', 'configurations'],
  'every numeric content for which the design is non-degenerate within the bounds; one or two covariates; intercept, normalize, alpha',
  'The sufficient statistics formulas are rational functions of all the data; tests compare rounded values on fixed tables.',
  ['models.py'],
  [('sufficient statistics and normal equations', 'models.py: compute_ols/compute_ridge/get_sufficient_stats_elements, symmetrize_triangular')])

p('P14', 'SQL of leaf, composite and list metrics computes the same as pandas',
  'For every metric built from the leaf metrics, metric arithmetic and MetricList, with filters at any level and any split_by, compute_on_sql (and executing to_sql in BigQuery semantics) returns the same slices, columns and values as compute_on on the same table. '
  'In particular NULL cells, nested filters, duplicate or special column names and operator precedence lead to the same numbers. An empty sum (0 or NULL), an empty count (0 or null) and a division by zero (inf or NULL) are not counted as differences.',
  ['inputs', 'programs', 'configurations'],
  'every content of the bounded tables incl. nulls and every outcome of the filters; the listed metric trees with split_by on plain columns',
  'The repository has no SQL engine in its tests: generated SQL is never executed, and equality on all tables cannot be sampled.',
  ['metrics.py', 'sql.py', 'utils.py'],
  [('query generation', 'metrics.py: to_sql, get_sql_and_with_clause, get_sql_columns'),
   ('query representation and merging', 'sql.py: Sql, Columns, Column, Filters, Datasource(s), Join')])

p('P15', 'SQL of operations computes the same as pandas',
  'For Distribution, CumulativeDistribution, PercentChange, AbsoluteChange, MH, PrePost, CUPED and the diversity metrics over arbitrary children, compute_on_sql in sql mode and in mixed mode returns the same slices, columns and values as compute_on on the same table. '
  'This includes filters at any level, split_by, multi-column conditions and nesting of operations.',
  ['inputs', 'programs', 'configurations'],
  'every content of the bounded tables and every occupancy pattern listed; the listed operation trees',
  'Generated SQL is never executed by the tests; alignment of conditions, strata and slices in joins and windows depends on the data.',
  ['operations.py', 'diversity.py', 'sql.py'],
  [('operation SQL', 'operations.py/diversity.py: get_sql_and_with_clause'),
   ('mixed mode', 'operations.py: compute_on_sql_mixed_mode, compute_children_sql')])

p('P16', 'SQL of Jackknife and bootstraps computes the same as pandas',
  'Jackknife in SQL returns the same estimates, standard errors and intervals as compute_on on the same table, on both its one-pass and its general path; the SQL of Bootstrap and PoissonBootstrap computes, for every outcome of RAND and of the hash, the standard deviation over replicates of the metric on the resampled rows or units. '
  'Every slice resamples exactly its own rows or units, all parts of a metric see the same resample, no two units or replicates share their randomness, and PoissonBootstrap draws Poisson(1) weights; pure SQL and mixed mode (with any batch_size) agree. Sums over no values (0 or null) and rows without a unit are not compared.',
  ['inputs', 'programs', 'configurations'],
  'every content and every (slice, unit) occupancy of the bounded tables; every outcome of RAND()',
  'Generated SQL is never executed by the tests, and the leave-one-out SQL is a nontrivial rewrite.',
  ['operations.py', 'sql.py'],
  [('jackknife SQL', 'operations.py: Jackknife SQL generation (get_se_data, fast path)'),
   ('bootstrap SQL', 'operations.py: Bootstrap/PoissonBootstrap.get_resampled_data_sql')])

p('P17', 'Melted and unmelted results carry the same values under the same keys',
  'For every metric and operation, with and without split_by, compute_on(melted=True) has exactly the same (metric, slice, value columns) content as compute_on(melted=False), utils.melt and utils.unmelt are inverse to each other on such results, and return_dataframe=False or column renaming changes the container or labels only. '
  'Index names and slice keys survive both directions, including results with several value columns such as standard errors and intervals.',
  ['inputs', 'configurations', 'programs'],
  'every numeric content; the listed metric trees; zero, one or two split_by columns with arbitrary key patterns',
  'Row order and key alignment after stack/unstack depends on the set of keys present in every metric; tests compare a few literal frames.',
  ['utils.py', 'metrics.py', 'operations.py'],
  [('reshaping', 'utils.py: melt, unmelt, remove_empty_level, apply_name_tmpl'),
   ('container conversion', 'metrics.py: manipulate, to_dataframe')])

p('P18', 'SQL of models in magic mode yields the coefficients of the direct fit',
  'For LinearRegression, Ridge, Lasso and ElasticNet, compute_on_sql in magic mode passes through SQL aggregates that equal the moments of the grouped data for every table and returns coefficients that satisfy the documented objective (exactly for the closed forms, the KKT conditions of the converged iterate for the penalised ones). '
  'Names, intercept handling, normalize and split_by behave as in compute_on.',
  ['inputs', 'configurations'],
  'every content of the bounded tables with a non-degenerate design; one or two covariates; split_by or not',
  'The SQL is never executed by the tests; equality of rational functions over all data cannot be sampled.',
  ['models.py', 'sql.py', 'metrics.py'],
  [('sufficient statistics through SQL', 'models.py: compute_on_sql_magic_mode, get_sufficient_stats_elements'),
   ('iterations', 'models.py: elastic net and logistic regression solvers')])

p('P19', 'Display of intervals marks exactly the significant changes',
  'In confidence_interval_display.get_formatted_df / render, a change is marked positive iff its confidence bounds are both above zero, negative iff both are below zero, and neutral otherwise; every input row appears exactly once under its metric and dimension; and control rows show the control value, never a change. '
  'Value, ratio and bounds shown in a cell are those of that row, for every order and sorting option.',
  ['inputs', 'configurations'],
  'every value of ratio and bounds; bounded sets of dimensions, metrics, control flags and ordering options',
  'Sign and alignment are data dependent; tests compare rendered HTML of a few fixed frames.',
  ['confidence_interval_display.py'],
  [('cell construction', 'confidence_interval_display.py: get_formatted_df, MetricFormatter, add_control_rows')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
  for d in P:
    f.write(json.dumps(d) + '\n')
