"""Texts of the properties: (id, title, statement, quantifier text, over, why tests can't, files,
mechanism [(name, where)], design note)."""
SRC = 'src/'
P = []


def p(id, title, statement, quant, why, files, mech, design, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                  design=design, over=list(over)))


SAMPLE = 'The tests evaluate a few hand-picked arrays; '

p('P01', 'Calls only touch memory that belongs to their arguments',
  'A call reads only the elements of its input arrays and writes only the elements of its output arrays, for every shape, '
  'stride and element value. It leaves its inputs unchanged and never dies with an arithmetic fault. Every element of a fresh output is '
  'written, and its value does not depend on what the memory held before.',
  'every ufunc, every loop type, every element value, empty and non-empty core dimensions, contiguous, padded, reversed, '
  'transposed and broadcast memory layouts', SAMPLE + 'an out-of-bounds read or a leftover of uninitialised memory '
  'usually goes unnoticed there, and index values that leave the array are hardly sampled.',
  ['src'], [('type specialised loops over strided memory', 'src/*/*_gufunc.h'), ('stride arithmetic', 'src/util/'),
            ('shape checks before the loop', 'process_core_dims functions in src/*/*_gufunc.h')],
  'the loop registered with NumPy is executed symbolically on memory whose blocks have exactly the extent of the arrays; '
  'every load and store emits a bounds obligation, every division a fault obligation; outputs start as fresh symbols and may not occur in the result',
  ('inputs', 'configurations'))
p('P02', 'Results do not depend on memory layout, batching or position',
  'Applying a function to a batch gives, for each element of the batch, the result of applying it to that element alone. The result is the same for '
  'contiguous, padded, reversed, transposed and broadcast arguments.',
  'every ufunc and loop type, all element values, batch of two, all layouts',
  SAMPLE + 'non-contiguous arguments are tried for a handful of functions and values; a stride slip shows only for particular layouts.',
  ['src'], [('outer loop stepping', 'src/*/*_gufunc.h'), ('core strides', 'src/util/')],
  'two symbolic runs of the same loop (strided batch of two against two single contiguous runs) on the same symbols; outputs must be identical terms, '
  'else the solver decides equality', ('inputs', 'configurations'))
p('P03', 'Every type combination computes the same function',
  'Each registered type combination of a function is served by code for exactly those types, and applied to values representable in several types, '
  'the different combinations agree in meaning. No registered combination can read or write elements of the wrong size.',
  'every ufunc, every registered type combination, all element values',
  SAMPLE + 'most type combinations are never called by a test at all.',
  ['tools', 'src'], [('generated loop tables', 'tools/'), ('type arrays of the extension modules', 'src/*')],
  'the loop table, its type codes and its data pointers are read from the built module; each entry is executed symbolically with elements of the registered types '
  'and compared with the wide reference entry on integer/real values')
p('P04', 'Step functions: plateaus, ends and interpolating polynomial',
  'Left of the transition a step function returns its left value, right of it its right value, exactly; inside it follows the documented polynomial. '
  'The inverse returns the ends exactly at the end values, nan outside the range and satisfies the closed form inside.',
  'all finite and infinite arguments of float, double and long double', SAMPLE + 'order of the parameters, equality at the ends and infinite arguments are thin.',
  ['src/step'], [('branch structure and polynomial', 'src/step/step.h')],
  'IEEE encoding for branches and end values, real arithmetic for the interior formula')
p('P05', 'Dead zone and trapezoid pulse follow their piecewise definition',
  'The dead zone is zero on the zone and the argument shifted by the nearer edge outside. The trapezoid pulse is zero outside its support, the amplitude on top, linear on its edges, '
  'and nan when the corner points are not in order.',
  'all arguments except nan', SAMPLE + 'degenerate corners (equal corner points, infinities) are rarely sampled.',
  ['src/deadzone', 'src/trapezoid_pulse'], [('piecewise code', 'src/deadzone/deadzone.h'), ('piecewise code', 'src/trapezoid_pulse/trapezoid_pulse.h')],
  'IEEE encoding of branches, real arithmetic for edges')
p('P06', 'Hysteresis operators follow their recurrence over the whole signal',
  'The backlash output moves only as far as needed to stay within half the dead band of the input; the sum operator is the weighted sum of such operators and returns their final states. '
  'The relay switches only when the input leaves the band between its thresholds and otherwise keeps its state.',
  'every signal up to the bound, every dead band >= 0, every initial state, weights included',
  SAMPLE + 'the state after step k depends on the whole history of the signal.', ['src/backlash', 'src/hysteresis_relay'],
  [('state recurrence', 'src/backlash/backlash_gufunc.h'), ('relay state', 'src/hysteresis_relay/hysteresis_relay_gufunc.h')],
  'unrolled recurrence against a play operator / relay reference, real arithmetic / IEEE comparisons', ('inputs', 'histories'))
p('P07', 'nan handling: replacing, classifying and filling',
  'Replacing nan changes nan elements only; the signaling-nan test is true exactly for the signaling bit patterns. Filling keeps every valid element, extends the first and last valid elements '
  'outward and interpolates linearly between the neighbours of a gap.',
  'all element values, in particular every nan bit pattern and every placement of nan in the signal', SAMPLE + 'the patterns of nan positions and payloads are exponentially many.',
  ['src/nan_to_num', 'src/issnan', 'src/fillnan1d'], [('bit tests', 'src/issnan'), ('gap search', 'src/fillnan1d/fillnan1d_gufunc.h')],
  'bit-vector encoding of the payload tests, IEEE encoding of copying, real arithmetic for interpolation')
p('P08', 'Next representable values are adjacent',
  'The successor (predecessor) of a finite value is strictly above (below) it and no value of the type lies between; infinity in the direction is a fixed point and nan stays nan. '
  'The n-step variant lists consecutive successors.',
  'all values of float, double, long double', SAMPLE + 'zero, subnormals, largest finite and infinite values each behave differently.',
  ['src/next', 'src/nextn'], [('nextafter and direction', 'src/next'), ('chain', 'src/nextn')], 'exact bit-level encoding of nextafter and adjacency with a free witness value')
p('P09', 'First match: position and value of the earliest hit',
  'The result is the earliest element (or its index) that satisfies the comparison with the target, and the fallback value (or -1) when there is none.',
  'all arrays up to the bound, all six comparisons, any numeric type', SAMPLE + 'every type has its own generated loop and few are exercised.',
  ['src/first'], [('loop template', 'src/first/first_gufunc.h')], 'symbolic arrays, targets and operation codes against the definition')
p('P10', 'Extremes and their positions',
  'Minimum and maximum bound every element and are elements; a reported position is the first position of the extreme. The combined functions agree with the single ones.',
  'all arrays up to the bound without nan, every numeric type', SAMPLE + 'ties, unsigned extremes and each of the generated loops are barely reached.',
  ['src/minmax'], [('loop templates', 'src/minmax/minmax_gufunc.h')], 'symbolic arrays of every type against the definition')
p('P11', 'Order and equality predicates decide every adjacent pair',
  'The ordered predicate is true exactly when every adjacent pair satisfies the comparison, and the all-same predicate exactly when all elements are equal. Arrays of length zero and one are ordered and all the same.',
  'all arrays up to the bound including nan, every numeric type, six comparisons', SAMPLE + 'nan and unsigned wrap-around are not sampled per type.',
  ['src/ordered', 'src/all_same'], [('loop templates', 'src/ordered/ordered_gufunc.h, src/all_same/all_same_gufunc.h')], 'symbolic arrays against the definition')
p('P12', 'Binary search returns the insertion point',
  'In a sorted array the left (right) search returns the number of elements smaller than (not greater than) the value.',
  'all sorted arrays up to the bound, every numeric type, every value', SAMPLE + 'lengths, ties and positions multiply.',
  ['src/searchsorted'], [('binary search', 'src/searchsorted/searchsorted_gufunc.h')], 'symbolic sorted arrays; all insertion points')
p('P13', 'Counting adds exactly the occurrences',
  'Counting adds to each output bin the number (or summed weights) of the index values equal to that bin, ignoring negative and too large indices. The one-hot encoding is 1 at its index and 0 elsewhere.',
  'all index values including negative, too large and extreme ones of every integer type; all weights', SAMPLE + 'extreme index values of unsigned types are not sampled.',
  ['src/bincount', 'src/one_hot'], [('index test and accumulation', 'src/bincount/bincount_gufunc.h'), ('index test', 'src/one_hot/one_hot_gufunc.h')],
  'symbolic indices, weights and initial outputs', ('inputs',))
p('P14', 'Base conversion yields the digits',
  'The output holds the least significant digits of the number in the base, each in range, so that their weighted sum is the number modulo the base to the number of digits.',
  'all numbers >= 0 and bases >= 2 of every integer type', SAMPLE + 'large values of the narrow and unsigned types are not sampled.',
  ['src/convert_to_base'], [('division loop', 'src/convert_to_base/convert_to_base_gufunc.h')], 'bit-vector encoding against repeated quotient and remainder')
p('P15', 'Percentile of a score counts as documented',
  'The result is the percentage of the array below the score, with ties counted as the chosen kind documents, and lies between 0 and 100.',
  'all arrays up to the bound, all four kinds, every type', SAMPLE + 'the tie rules differ per kind and per type.',
  ['src/percentileofscore'], [('counting', 'src/percentileofscore/percentileofscore_gufunc.h')], 'symbolic arrays; counts as integers, scaling over reals')
p('P16', 'Cross products',
  'The three-dimensional product has the three determinant components and the two-dimensional product is the determinant, in every type.',
  'all element values; integers wrap in their own width', SAMPLE + 'component, sign and stride slips show for particular layouts only.',
  ['src/cross'], [('components', 'src/cross/cross.h')], 'symbolic vectors; bit-vectors for integers, reals for floats')
p('P17', 'Triangle area',
  'The area of the triangle through three points equals the value of Heron\'s formula for the side lengths, for direct and indexed points. Negative indices count from the end and indices out of range give nan.',
  'all finite points, all index values', SAMPLE + 'index values out of range and negative are rare.', ['src/tri_area'],
  [('side lengths, sorting, area', 'src/tri_area/tri_area_gufunc.h'), ('index normalisation', 'src/tri_area/tri_area_gufunc.h')],
  'real arithmetic with case splitting over the orderings of the sides')
p('P18', 'Vector norm, root mean square and dot product',
  'The norm of order p is (sum of |x|^p)^(1/p), with the limits at 1, 2 and infinity, nan for orders <= 0 and zero for the zero vector. Root mean square and dot product follow their definition.',
  'all finite vectors up to the bound, all orders, real and complex', SAMPLE + 'each order has its own branch.', ['src/vnorm'],
  [('branches by order', 'src/vnorm/vnorm_gufunc.h')], 'real arithmetic, pow uninterpreted with facts')
p('P19', 'Mean absolute difference, relative form and Gini coefficient',
  'The three statistics equal their pairwise definition, with the unbiased denominators when requested, and degenerate to inf or nan for zero mean.',
  'all finite arrays up to the bound', SAMPLE + 'the implementation uses different formulas than the definition.', ['src/mad'],
  [('accumulation over pairs', 'src/mad/mad_gufunc.h')], 'real arithmetic with case splitting')
p('P20', 'Mean/variance and Pearson correlation equal their definition',
  'The pair returned is the arithmetic mean and the sum of squared deviations divided by n - ddof. The correlation is the normalised covariance, nan when a variance is zero or for fewer than two points as documented.',
  'all finite arrays up to the bound, any ddof, every type', SAMPLE + 'the update formulas differ from the definition and each type has its own loop.', ['src/meanvar', 'src/corr'],
  [('running update', 'src/meanvar/meanvar_gufunc.h'), ('two pass formula', 'src/corr/pearson_corr_gufunc.h')], 'real arithmetic')
p('P21', 'Geometric, harmonic and power means equal their definition',
  'Weighted and unweighted means follow exp of the mean logarithm, the reciprocal of the mean reciprocal and the p-th root of the mean p-th power, with the documented limits (zero elements, order 0, plus and minus infinity).',
  'all positive arrays up to the bound, all orders, all nonnegative weights', SAMPLE + 'zero elements, zero weights and the special orders are separate branches.', ['src/means'],
  [('branches by order', 'src/means/means_gufunc.h')], 'real arithmetic with log, exp, pow uninterpreted plus algebraic facts')
p('P22', 'Compensated sum',
  'In exact arithmetic the compensated sum equals the sum, and the correction term carries what rounding lost. Infinite and nan elements give the result of plain summation.',
  'all arrays up to the bound including infinities and nan', SAMPLE + 'special values at particular positions take another path.', ['src/kbnsum'],
  [('Neumaier update', 'src/kbnsum/kbnsum_gufunc.h')], 'real arithmetic with infinities; IEEE encoding of the special value paths')
p('P23', 'Weighted Jaccard index',
  'The result is the sum of minima over the sum of maxima, nan for a zero denominator, symmetric in its arguments.', 'all arrays up to the bound, every type',
  SAMPLE + 'integer types convert before comparing.', ['src/wjaccard'], [('sums of min and max', 'src/wjaccard/wjaccard_gufunc.h')], 'real arithmetic, case splitting')
p('P24', 'Peak to peak is the spread without overflow',
  'The result is the difference of the largest and the smallest element as a number; for signed integers it is exact in the unsigned type of the same width.',
  'all arrays up to the bound, every type', SAMPLE + 'the extremes of signed types are where overflow shows.', ['src/peaktopeak'],
  [('unsigned difference', 'src/peaktopeak/peaktopeak_gufunc.h')], 'bit-vectors for integers, IEEE for floats')
p('P25', 'Softmax is a distribution; logistic family consistent',
  'The softmax elements are nonnegative, sum to one and are proportional to the exponentials, without overflow for large arguments. The logistic function, its derivative, its logarithm and swish satisfy their defining equations and stay within their ranges for every argument.',
  'all arguments including huge and infinite', SAMPLE + 'large magnitudes are sampled at single points.', ['src/softmax', 'src/logistic'],
  [('shift by the maximum', 'src/softmax/softmax_gufunc.h'), ('branches by sign', 'src/logistic/logistic.h')], 'real arithmetic with exp/log facts; IEEE for no overflow')
p('P26', 'Unwrap keeps congruence and bounded jumps',
  'The unwrapped signal differs from the input by multiples of the period and consecutive elements differ by at most half the period; the first element is unchanged.',
  'all finite signals up to the bound, any period > 0', SAMPLE + 'jumps of many periods and half-period ties are not sampled.', ['src/unwrap'],
  [('jump correction', 'src/unwrap/unwrap_gufunc.h')], 'real/integer arithmetic', ('inputs', 'histories'))
p('P27', 'Second order sections filter equals the difference equation',
  'The output of the filter is the cascade of the sections\' difference equations from zero (or the given) state. Filtering a signal in two pieces with the carried state equals filtering it at once.',
  'all coefficients and signals up to the bound', SAMPLE + 'the state carried over depends on the whole history.', ['src/sosfilter'],
  [('direct form II transposed', 'src/sosfilter/sosfilter_gufunc.h')], 'real arithmetic, exact polynomial identity', ('inputs', 'histories'))
p('P28', 'Linear interpolation',
  'Inside the range the result lies on the segment between the neighbouring knots, at a knot it is the knot value; outside the range, for nan and without knots it is nan.',
  'all increasing knots up to the bound, all arguments', SAMPLE + 'interval search and ends are separate paths.', ['src/linear_interp1d'],
  [('interval search', 'src/linear_interp1d/linear_interp1d_gufunc.h')], 'real arithmetic over all interval choices')
p('P29', 'Table driven special functions select the right approximation',
  'Over its whole domain the Debye, scaled complementary error, log-gamma and log-factorial functions stay within the stated tolerance of the mathematical function, in particular across the borders of the approximation intervals.',
  'all arguments', SAMPLE + 'each interval and border has its own coefficients.', ['src/debye1', 'src/normal', 'src/loggamma1p', 'src/logfactorial'],
  [('interval tables', 'src/debye1, src/normal'), ('series and asymptotic branches', 'src/loggamma1p, src/logfactorial')],
  'the polynomial or rational piece is extracted per interval by symbolic execution and compared with the reference over the interval by the solver')
p('P30', 'Exponential integral and normal distribution functions',
  'The distribution function and its logarithm, and their complements, satisfy symmetry, limits, monotonicity and consistency; the exponential integral agrees with its logarithm.',
  'all arguments', SAMPLE + 'branch borders and tails.', ['src/expint1', 'src/normal'], [('branches', 'src/normal, src/expint1')], 'real arithmetic with erfc, exp, log uninterpreted; IEEE for limits')
p('P31', 'Element-wise formulas agree with their definition',
  'Ramps, semivariograms, power functions, power transformations, squared modulus and three dimensional hypotenuse equal their documented formula and special cases; the Yeo-Johnson transform and its inverse are inverse to each other.',
  'all arguments in the domain', SAMPLE + 'each case of the piecewise definitions has few samples.', ['src/ramp', 'src/semivar', 'src/pow1pm1', 'src/yeo_johnson', 'src/abs_squared', 'src/abssq', 'src/hypot3'],
  [('formulas', 'src/ramp, src/semivar, src/pow1pm1, src/yeo_johnson')], 'real arithmetic and IEEE branch encoding')
p('P32', 'Complex log1p variants',
  'The real part is the logarithm of |1+z| and the imaginary part the argument of 1+z, on every branch; special values follow the documentation.',
  'all complex arguments', SAMPLE + 'cancellation branches are selected by magnitude.', ['src/log1p'], [('double-double evaluation', 'src/log1p')], 'IEEE/real encoding with log and atan2 uninterpreted')
p('P33', 'Multivariate log-beta',
  'The result is the sum of the log-gammas of the elements minus the log-gamma of their sum.', 'all positive arrays up to the bound', SAMPLE + 'n = 1 and 2 are special.',
  ['src/multivariate_logbeta'], [('sum', 'src/multivariate_logbeta/multivariate_logbeta_gufunc.h')], 'real arithmetic with lgamma uninterpreted')
p('P34', 'gendot composes product and sum',
  'The generated function applies the first function to the elements pairwise and reduces with the second, for every shape and layout, without touching memory outside its buffers.',
  'all pairs of loop types and sizes', SAMPLE + 'types whose sizes differ between product and sum are not tried.', ['src/gendot', 'ufunclab/_gendot_wrap.py'],
  [('composed loop and buffer', 'src/gendot')], 'symbolic execution of the composed loop with stub inner loops', ('inputs', 'programs'))
p('P35', 'Object elements: references and errors',
  'Loops over Python objects neither lose nor leak references, follow the same definition as the numeric loops, and report an exception of a comparison without producing a result.',
  'all outcomes of the comparisons and failures at every call', SAMPLE + 'exceptions in the middle of a loop and reference counts are not tested.', ['src/first', 'src/minmax', 'src/ordered', 'src/all_same', 'src/searchsorted', 'src/cross', 'src/peaktopeak'],
  [('object loops', 'src/first, src/minmax, src/ordered, src/all_same, src/searchsorted, src/peaktopeak')], 'Python C-API calls are nondeterministic stubs with a reference count model', ('inputs', 'fault_sequences'))
p('P36', 'Python wrappers: axis, shape and output handling',
  'The Python wrappers move the requested axis, choose output shapes and default sizes as documented and reject invalid axes; the result does not depend on whether an output array is passed.',
  'all axes, shapes and argument combinations up to the bound', SAMPLE + 'combinations of axis, dimension and output arguments multiply.', ['ufunclab/_wrapped.py'],
  [('wrapper functions', 'ufunclab/_wrapped.py')], 'symbolic execution of the Python source with symbolic integers')
