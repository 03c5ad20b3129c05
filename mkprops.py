#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
S = 'include/boost/accumulators/statistics/'
F = 'include/boost/accumulators/framework/'
N = 'include/boost/accumulators/numeric/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'Count, sum, min and max summarise exactly the samples seen',
  'After any history of samples, count is the number of samples, sum (and sum_of_variates / sum_of_weights) is the exact sum of the values pushed, and min and max are the smallest and largest sample, each sample being used exactly once whatever its sign, order or ties. This holds for floating-point and integer sample types (integer results are never narrowed or truncated) and from the very first sample on.',
  ['inputs', 'histories'], 'all finite sample values, all orders, all history lengths',
  'tests push a handful of fixed values; a defect for a particular ordering, sign or count is invisible to them',
  [S + 'count.hpp', S + 'sum.hpp', S + 'min.hpp', S + 'max.hpp'],
  [('count_impl::operator()', S + 'count.hpp'), ('sum_impl::operator()', S + 'sum.hpp'), ('min_impl/max_impl::operator()', S + 'min.hpp')],
  [('cnt', 'number of samples', S + 'count.hpp'), ('sum', 'running sum', S + 'sum.hpp')], ['count(acc), sum(acc), min(acc), max(acc)'])
p('C02', 'Mean and raw moments equal the exact averages, lazy and immediate alike',
  'After any non-empty history of n samples, mean equals (sum of samples)/n and moment<K> equals (sum of K-th powers)/n; the immediate (incrementally updated) mean equals the lazy one at every point of the history, for samples and for variates alike. For integer samples the results are the fractional averages, never truncated to integers.',
  ['inputs', 'histories'], 'all samples and variates, all counts, every prefix of the history',
  'the incremental recurrence is only checked at the end of a few short constant streams',
  [S + 'mean.hpp', S + 'moment.hpp'],
  [('immediate_mean_impl::operator()', S + 'mean.hpp'), ('mean_impl::result', S + 'mean.hpp'), ('moment_impl', S + 'moment.hpp')],
  [('mean', 'running mean', S + 'mean.hpp')], ['mean(acc), moment<K>(acc), mean_of_variates(acc)'])
p('C03', 'Variance equals the mean squared deviation, lazy and immediate alike',
  'After any history of n >= 1 samples, lazy variance and (immediate) variance both equal the population variance (1/n) * sum (x_i - mean)^2 of exactly the samples seen; in particular a single sample has variance 0 and the value is the same whichever implementation and whichever mean it was built on.',
  ['inputs', 'histories'], 'all samples, all counts, every prefix',
  'tests compare a few fixed streams; the recurrence must be right for every count and every value',
  [S + 'variance.hpp', S + 'mean.hpp', S + 'moment.hpp'],
  [('variance_impl::operator()', S + 'variance.hpp'), ('lazy_variance_impl::result', S + 'variance.hpp')],
  [('variance', 'running variance', S + 'variance.hpp')], ['variance(acc), lazy_variance(acc)'])
p('C04', 'Skewness, kurtosis and the error of the mean follow their definitions',
  'After any history, skewness is the third central moment divided by variance^(3/2), kurtosis is the fourth central moment divided by variance^2 minus 3, and error_of<mean> is sqrt(variance/(n-1)), all computed from exactly the samples seen, for lazy and immediate means and variances.',
  ['inputs', 'histories'], 'all sample histories (non-degenerate where the definition divides by the variance)',
  'checked only on random normal streams within a loose tolerance, or a handful of values',
  [S + 'skewness.hpp', S + 'kurtosis.hpp', S + 'error_of_mean.hpp', S + 'error_of.hpp'],
  [('skewness_impl::result', S + 'skewness.hpp'), ('kurtosis_impl::result', S + 'kurtosis.hpp'), ('error_of_mean_impl::result', S + 'error_of_mean.hpp')],
  (), ['skewness(acc), kurtosis(acc), error_of<tag::mean>(acc)'])
p('C05', 'Covariance equals the mean product of deviations of sample and variate',
  'After any history of (sample, variate) pairs, covariance equals (1/n) * sum (x_i - mean_x)(y_i - mean_y) for exactly the pairs seen, at every point of the history and independently of the order in which sample and variate are named; for a vector-valued variate it holds component by component.',
  ['inputs', 'histories'], 'all pairs, all counts, every prefix',
  'one fixed three- or four-element data set per type is tested',
  [S + 'covariance.hpp', S + 'mean.hpp', S + 'variates/covariate.hpp'],
  [('covariance_impl::operator()', S + 'covariance.hpp')], [('cov_', 'running covariance', S + 'covariance.hpp')], ['covariance(acc)'])
p('C06', 'Weighted statistics equal the weighted sums they are named after',
  'With W the sum of weights, after any history of weighted samples: sum is sum(w x), mean is sum(w x)/W (lazy and immediate), moment<K> is sum(w x^K)/W, variance (lazy and immediate) is the weighted population variance, covariance/skewness/kurtosis are built from the weighted central moments, and sum_of_weights is W; requesting an unweighted feature on a weighted accumulator set yields its weighted counterpart. Giving every sample weight 1 (or any constant) reproduces the unweighted results, for floating-point and integer weights.',
  ['inputs', 'histories'], 'all samples, all positive weights (including non-uniform), all counts',
  'a few fixed weighted streams; the weighted recurrences must hold for every weight sequence',
  [S + x for x in ('weighted_sum.hpp', 'weighted_mean.hpp', 'weighted_moment.hpp', 'weighted_variance.hpp', 'weighted_covariance.hpp', 'weighted_skewness.hpp', 'weighted_kurtosis.hpp')],
  [('immediate_weighted_mean_impl::operator()', S + 'weighted_mean.hpp'), ('weighted_variance_impl::operator()', S + 'weighted_variance.hpp'), ('weighted_covariance_impl::operator()', S + 'weighted_covariance.hpp')],
  (), ['sum/mean/moment/variance/covariance/skewness/kurtosis on a weighted set'])
p('C07', 'Kahan sums perform the compensated-summation recurrence exactly',
  'The Kahan variants of sum, weighted sum (and of variates and weights) follow the compensated recurrence y = x - c; t = s + y; c = (t - s) - y; s = t on every sample starting from s = initial value and c = 0, so that the floating-point result is bit-for-bit that of Kahan summation and in exact arithmetic equals the plain sum.',
  ['inputs', 'histories'], 'all sample/weight sequences, all compensation states',
  'one cancellation example is tested; the recurrence must hold in every state of the compensation term',
  [S + 'sum_kahan.hpp', S + 'weighted_sum_kahan.hpp'],
  [('sum_kahan_impl::operator()', S + 'sum_kahan.hpp'), ('weighted_sum_kahan_impl::operator()', S + 'weighted_sum_kahan.hpp')],
  [('compensation', 'running compensation', S + 'sum_kahan.hpp')], ['sum_kahan(acc), sum_of_weights_kahan(acc), weighted_sum_kahan(acc)'])
p('C08', 'The rolling window holds exactly the last min(n, window size) samples',
  'After n samples the rolling window contains exactly the most recent min(n, window_size) samples in arrival order (oldest first) and rolling_count is their number, for every window size >= 1, before, at and after the window first fills and wraps around, and also in a copied accumulator set.',
  ['inputs', 'histories', 'configurations'], 'all histories, all window sizes, all wrap positions of the buffer',
  'only a few window sizes and short streams are tested; wrap-around and copies at arbitrary phases are not',
  [S + 'rolling_window.hpp', S + 'rolling_count.hpp'],
  [('rolling_window_plus1_impl::operator()', S + 'rolling_window.hpp'), ('rolling_window_impl::result', S + 'rolling_window.hpp'), ('is_rolling_window_plus1_full', S + 'rolling_window.hpp')],
  [('buffer_', 'circular buffer of window+1 samples', S + 'rolling_window.hpp')], ['rolling_window(acc), rolling_count(acc)'])
p('C09', 'Rolling sum, mean, moment and variance depend only on the current window',
  'At every point of any history, rolling_sum, rolling_mean, rolling_moment<K> equal the sum, average and K-th raw moment of the samples now in the window, rolling_variance equals their unbiased variance (0 for fewer than two samples), and the lazy and immediate variants agree; samples that have left the window have no influence.',
  ['inputs', 'histories', 'configurations'], 'all histories, all window sizes, lazy and immediate variants',
  'the running updates are compared only on short fixed streams; every eviction must be compensated exactly',
  [S + x for x in ('rolling_sum.hpp', 'rolling_mean.hpp', 'rolling_moment.hpp', 'rolling_variance.hpp', 'rolling_window.hpp')],
  [('rolling_sum_impl::operator()', S + 'rolling_sum.hpp'), ('immediate_rolling_mean_impl::operator()', S + 'rolling_mean.hpp'), ('immediate_rolling_variance_impl::operator()', S + 'rolling_variance.hpp'), ('rolling_moment_impl::operator()', S + 'rolling_moment.hpp')],
  (), ['rolling_sum, rolling_mean, rolling_moment<K>, rolling_variance'])
p('C10', 'The tail caches exactly the most extreme samples, sorted and paired',
  'For any history and cache size k, the left (right) tail yields exactly the min(n,k) smallest (largest) samples in increasing (decreasing) order, duplicates included, and the tail variates (and tail weights) yield, position by position, the covariate (and weight) that arrived with that sample. Reading the tail between samples, or copying the accumulator, changes none of this.',
  ['inputs', 'histories', 'configurations'], 'all sample orders incl. ties, all cache sizes, any interleaving of reads',
  'tests check a handful of orders; which slot is replaced depends on the order, on ties and on whether the tail was read before',
  [S + 'tail.hpp', S + 'tail_variate.hpp'],
  [('tail_impl::assign / operator()', S + 'tail.hpp'), ('tail_impl::result sorting', S + 'tail.hpp'), ('tail_variate_impl::assign', S + 'tail_variate.hpp')],
  [('samples', 'cached samples', S + 'tail.hpp'), ('indices', 'heap / sorted permutation of cache slots', S + 'tail.hpp'), ('is_sorted', 'whether indices are sorted', S + 'tail.hpp')], ['tail(acc), tail_variate(acc), tail_weights(acc)'])
p('C11', 'Tail quantile and tail means equal their order-statistic formulas',
  'For any history of n samples and any probability p whose tail fits in the cache, the left (right) tail_quantile is the m-th smallest (largest) sample with m = ceil(n p) (ceil(n (1-p))), the non_coherent_tail_mean is the average of those m most extreme samples, and the coherent tail mean applies the documented correction with that quantile; when the tail does not fit in the cache the result is NaN and never a wrong number or an out-of-range access.',
  ['inputs', 'histories', 'configurations'], 'all histories, all probabilities, all cache sizes',
  'a few probabilities on one random stream with tolerance; boundary ranks (first, last, insufficient cache) are not covered',
  [S + 'tail_quantile.hpp', S + 'tail_mean.hpp', S + 'tail.hpp'],
  [('tail_quantile_impl::result', S + 'tail_quantile.hpp'), ('non_coherent_tail_mean_impl::result', S + 'tail_mean.hpp'), ('coherent_tail_mean_impl::result', S + 'tail_mean.hpp')],
  (), ['quantile(acc, quantile_probability=p), tail_mean(...)'])
p('C12', 'Tail variate means average the variates that came with the tail samples',
  'For any history of samples with vector-valued covariates, the absolute tail_variate_means is the component-wise average of the covariates belonging to the m most extreme samples (m = ceil(n p) left, ceil(n (1-p)) right), and the relative one is the same divided by the non-coherent tail mean, so that covariates of samples outside the tail have no influence.',
  ['inputs', 'histories', 'configurations'], 'all histories, probabilities and cache sizes',
  'one fixed data set; pairing of samples and covariates across replacement and sorting is order dependent',
  [S + 'tail_variate_means.hpp', S + 'tail_variate.hpp', S + 'tail.hpp'],
  [('tail_variate_means_impl::result', S + 'tail_variate_means.hpp')], (), ['tail_variate_means(acc), relative_tail_variate_means(acc)'])
p('C13', 'Weighted tail statistics accumulate weight from the extreme end of the sample',
  'For weighted samples, the weighted tail_quantile is the first sample, counted from the extreme end, at which the accumulated weight reaches p W (left) or (1-p) W (right), the weighted non-coherent tail mean is the weighted average of the samples up to and including it, and the weighted tail variate means are the corresponding weighted averages of the covariates; an insufficient cache yields NaN and the query always terminates.',
  ['inputs', 'histories', 'configurations'], 'all weighted histories, probabilities, cache sizes',
  'tested on random streams with tolerance only; accumulation boundaries and insufficient caches are not',
  [S + 'weighted_tail_quantile.hpp', S + 'weighted_tail_mean.hpp', S + 'weighted_tail_variate_means.hpp', S + 'tail.hpp'],
  [('weighted_tail_quantile_impl::result', S + 'weighted_tail_quantile.hpp'), ('non_coherent_weighted_tail_mean_impl::result', S + 'weighted_tail_mean.hpp'), ('weighted_tail_variate_means_impl::result', S + 'weighted_tail_variate_means.hpp')],
  (), ['weighted tail_quantile / tail_mean / tail_variate_means'])
p('C14', 'The P-square quantile follows the P-square algorithm with ordered markers',
  'For every p and every history of at least five samples, p_square_quantile maintains five markers whose heights stay sorted between the observed minimum and maximum and whose positions stay strictly increasing from the first to the last sample, and each new sample moves them exactly as the P-square algorithm (Jain and Chlamtac) prescribes: cell location, increment of positions, desired positions, and parabolic-else-linear adjustment; the weighted variant does the same with cumulated weights.',
  ['inputs', 'histories'], 'all probabilities, samples, weights and marker states',
  'statistical tests on a uniform stream with a tolerance cannot see a wrong adjustment in rare marker configurations',
  [S + 'p_square_quantile.hpp', S + 'weighted_p_square_quantile.hpp'],
  [('p_square_quantile_impl::operator()', S + 'p_square_quantile.hpp'), ('weighted_p_square_quantile_impl::operator()', S + 'weighted_p_square_quantile.hpp')],
  [('heights', 'marker heights q_i', S + 'p_square_quantile.hpp'), ('actual_positions', 'marker positions n_i', S + 'p_square_quantile.hpp'), ('desired_positions', "desired positions n'_i", S + 'p_square_quantile.hpp')], ['p_square_quantile(acc)'])
p('C15', 'The P-square cumulative distribution is a monotone histogram of the stream',
  'For every number of cells and every history of at least (cells+1) samples, p_square_cumulative_distribution reports markers with non-decreasing heights from the sample minimum to the sample maximum paired with non-decreasing cumulative fractions ending at 1, and every new sample updates the markers exactly as the extended P-square algorithm prescribes; the weighted variant does the same with cumulated weights.',
  ['inputs', 'histories', 'configurations'], 'all samples, weights, marker states; numbers of cells',
  'tests check one random stream against the normal distribution with a coarse tolerance',
  [S + 'p_square_cumul_dist.hpp', S + 'weighted_p_square_cumul_dist.hpp'],
  [('p_square_cumulative_distribution_impl::operator()', S + 'p_square_cumul_dist.hpp'), ('weighted_p_square_cumulative_distribution_impl::operator()', S + 'weighted_p_square_cumul_dist.hpp')],
  (), ['p_square_cumulative_distribution(acc)'])
p('C16', 'Extended P-square markers track all requested quantiles in order',
  'For every list of increasing probabilities and every history, extended_p_square maintains 2m+3 markers with sorted heights whose extremes are the sample minimum and maximum and with strictly increasing positions, each new sample updates them exactly as the extended P-square algorithm prescribes, and the result lists the m requested quantile estimates in order; the weighted variant does the same with cumulated weights.',
  ['inputs', 'histories', 'configurations'], 'all probability lists, samples, weights and marker states',
  'statistical tests with tolerance on one stream',
  [S + 'extended_p_square.hpp', S + 'weighted_extended_p_square.hpp', S + 'times2_iterator.hpp'],
  [('extended_p_square_impl::operator()', S + 'extended_p_square.hpp'), ('weighted_extended_p_square_impl::operator()', S + 'weighted_extended_p_square.hpp'), ('times2_iterator', S + 'times2_iterator.hpp')],
  (), ['extended_p_square(acc)'])
p('C17', 'Extended P-square quantiles interpolate between the tracked quantiles',
  'For every probability inside the range of the tracked probabilities, the (linear or quadratic) extended_p_square_quantile interpolates through the neighbouring tracked (probability, quantile) points, returns exactly the tracked quantile when the probability is one of the tracked ones, and returns NaN (never an out-of-range access or an extrapolated number) when the probability lies outside the tracked range.',
  ['inputs', 'histories', 'configurations'], 'all probability lists, query probabilities and tracked heights',
  'a few query probabilities on one stream; the choice of neighbouring points depends on where the query falls',
  [S + 'extended_p_square_quantile.hpp'], [('extended_p_square_quantile_impl::result', S + 'extended_p_square_quantile.hpp')], (), ['quantile(acc, quantile_probability = p)'])
p('C18', 'The density histogram assigns every sample to its bin and sums to one',
  'Once cache_size samples have been seen, density yields num_bins+2 bins with equally spaced increasing boundaries spanning the cached minimum to maximum plus under- and overflow bins, each bin holding exactly the fraction (or weight fraction) of all samples that fall into it, so that the fractions sum to one; before that the result is not yet filled.',
  ['inputs', 'histories', 'configurations'], 'all samples incl. values on boundaries, all histories',
  'tests compare a normal stream within tolerance; boundary samples and under/overflow are order and value dependent',
  [S + 'density.hpp', S + 'weighted_density.hpp'], [('density_impl::operator() / result', S + 'density.hpp'), ('weighted_density_impl', S + 'weighted_density.hpp')], (), ['density(acc)'])
p('C19', 'Medians are the half-probability point of their underlying estimator',
  'median (with_p_square_quantile) is the P-square quantile estimate for probability 1/2, with_density_median is the point where the cumulated density histogram reaches 1/2 (linear within its bin) and with_p_square_cumulative_distribution_median the point where the estimated cumulative distribution reaches 1/2; the same for the weighted medians. The value always lies within the bin or between the two markers where one half is reached and does not depend on how often or when it was queried before.',
  ['inputs', 'histories'], 'all histories and all interleavings of queries',
  'tests query once, at the end of one long stream',
  [S + 'median.hpp', S + 'weighted_median.hpp'], [('with_density_median_impl::result', S + 'median.hpp'), ('with_p_square_cumulative_distribution_median_impl::result', S + 'median.hpp'), ('median_impl::result', S + 'median.hpp')], (), ['median(acc)'])
p('C20', 'Peaks over threshold fits the excesses and is unaffected by queries',
  'For a given threshold (or threshold probability), peaks_over_threshold returns the generalized-Pareto parameters (u_bar, beta_bar, xi_hat) obtained by the method of moments from the samples beyond the threshold (the n(1-p) most extreme ones for the probability form), and pot_quantile and pot_tail_mean are the documented functions of them; results depend only on the samples seen, never on earlier queries.',
  ['inputs', 'histories', 'configurations'], 'all histories, thresholds, tails, weights, interleavings of queries',
  'tests query once on a fixed stream with tolerance',
  [S + 'peaks_over_threshold.hpp', S + 'weighted_peaks_over_threshold.hpp', S + 'pot_quantile.hpp', S + 'pot_tail_mean.hpp'],
  [('peaks_over_threshold_impl', S + 'peaks_over_threshold.hpp'), ('peaks_over_threshold_prob_impl::result', S + 'peaks_over_threshold.hpp'), ('pot_quantile_impl::result', S + 'pot_quantile.hpp'), ('pot_tail_mean_impl::result', S + 'pot_tail_mean.hpp')], (), ['peaks_over_threshold(acc), quantile, tail_mean'])
p('C21', 'An accumulator set feeds every accumulator once per sample, dependencies first',
  'An accumulator set contains the accumulators of all requested features and, transitively, of everything they depend on, each exactly once; every push updates each of them exactly once with the same arguments (all of them, however many and whether or not the first is given by name; likewise for construction and extraction) and never before the accumulators it depends on, so that results do not depend on the order in which features are listed or on which other features are present.',
  ['programs', 'inputs', 'histories'], 'feature lists in any order, all samples',
  'tests fix one feature list each; order and co-presence of features vary in user programs',
  [F + 'accumulator_set.hpp', F + 'depends_on.hpp', F + 'accumulator_base.hpp'],
  [('accumulator_set::operator()', F + 'accumulator_set.hpp'), ('depends_on / insert_dependencies / contains_feature_of', F + 'depends_on.hpp')], (), ['any extractor'])
p('C22', 'Queries are pure and copies are independent',
  'Extracting any result any number of times between samples changes no later result of any accumulator, and a copied accumulator set gives the results of the original and from then on evolves independently of it (up to the choice among equally extreme, tied, samples for the weights and variates kept with tails).',
  ['histories', 'inputs'], 'any interleaving of pushes, queries and copies',
  'tests query at the end; cached and lazily recomputed results only go wrong when queries are interleaved',
  [S + 'tail.hpp', S + 'density.hpp', S + 'median.hpp', S + 'peaks_over_threshold.hpp', F + 'accumulator_set.hpp', S + 'p_square_cumul_dist.hpp', S + 'rolling_window.hpp'],
  [('is_dirty caching in result()', S + 'median.hpp'), ('copy constructor', F + 'accumulator_set.hpp'), ('tail_impl copy constructor', S + 'tail.hpp')], [('is_dirty', 'cached result is stale', S + 'density.hpp')], ['every extractor'])
p('C23', 'Dropping a feature freezes its result and stops its updates',
  'A droppable accumulator is updated by every sample as long as it is listed and not dropped or some not dropped (or not droppable) feature depends on it, directly or indirectly, and is never updated again once no such user is left; features that are not droppable are always updated. So dropping freezes a result at the value it had at the drop (unless it is computed from accumulators that other features still keep alive and it is not cached with with_cached_result), features may be dropped in any order, dropping one never disturbs another, and copies of a set carry the dropped state and drop independently.',
  ['histories', 'programs'], 'any interleaving of pushes, queries and drops',
  'one scenario is tested; reference counts and cached results depend on the order of drops',
  [F + 'accumulators/droppable_accumulator.hpp', F + 'accumulator_set.hpp', F + 'depends_on.hpp'],
  [('droppable_accumulator_base::operator() / drop / add_ref', F + 'accumulators/droppable_accumulator.hpp'), ('with_cached_result', F + 'accumulators/droppable_accumulator.hpp'), ('accumulator_set::drop', F + 'accumulator_set.hpp')],
  [('ref_count_', 'number of active users', F + 'accumulators/droppable_accumulator.hpp')], ['drop<F>, extractors'])
p('C24', 'External, value and reference accumulators and external weights are transparent',
  'A value accumulator yields the value it was given, a reference accumulator always yields the current value of the referenced object, and a feature extracted through an external accumulator (or external weights) yields exactly the result held by the referenced accumulator set, updated by pushes into that set and not by pushes into the referring one.',
  ['histories', 'programs'], 'any interleaving of pushes into both sets',
  'tests push each set once in a fixed order',
  [F + 'accumulators/external_accumulator.hpp', F + 'accumulators/reference_accumulator.hpp', F + 'accumulators/value_accumulator.hpp', F + 'extractor.hpp'],
  [('external_impl', F + 'accumulators/external_accumulator.hpp'), ('reference_accumulator_impl', F + 'accumulators/reference_accumulator.hpp'), ('value_accumulator_impl', F + 'accumulators/value_accumulator.hpp')], (), ['value_tag, reference_tag, extract with named accumulator argument'])
p('C25', 'Serialization round-trips the full accumulator state',
  'Saving an accumulator set with its serialization interface and loading it into another accumulator set of the same type built with the same parameters (fresh or already used) reproduces every result, and both sets continue to agree on every later sample, at every point of the history; saving leaves the saved set unchanged. (Features whose accumulators have a serialize member; sample and variate types arithmetic or std::vector.)',
  ['histories', 'inputs'], 'all histories before and after the save, all serializable features',
  'tests save and load once and compare one value immediately; state that only matters for later samples is not compared',
  [F + 'accumulator_set.hpp', S + 'tail.hpp', S + 'rolling_window.hpp', S + 'p_square_quantile.hpp', S + 'density.hpp'],
  [('serialize members', 'every accumulator'), ('accumulator_set::serialize', F + 'accumulator_set.hpp')], (), ['every extractor after load'])
p('C26', 'Vector, valarray and complex samples behave component-wise',
  'The numeric operators and functions the library applies to samples act component-wise on std::vector and std::valarray (and arithmetically on std::complex): sums, means, min/max, moments and promotions of vector-valued samples equal, in each component, the scalar statistic of that component, division of integers or integer vectors by an integer count or weight is promoted to floating point and never truncates, the state before the first sample has the dimension of the prototype sample the set was constructed with, and the constants zero and one of every sample type are its additive and multiplicative identities.',
  ['inputs', 'histories'], 'all component values and dimensions, all histories',
  'tests use one small vector each',
  [N + 'functional.hpp', N + 'functional/vector.hpp', N + 'functional/valarray.hpp', N + 'functional/complex.hpp'],
  [('numeric::functional::*', N + 'functional.hpp'), ('vector operators', N + 'functional/vector.hpp'), ('valarray functional', N + 'functional/valarray.hpp')], (), ['any statistic on vector/valarray/complex samples'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
