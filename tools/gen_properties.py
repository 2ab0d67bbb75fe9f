"""Writes properties.jsonl (kept as a script so the long JSON lines stay reviewable)."""
import json, os
P = []
IA='autobound/interval_arithmetic.py'; PO='autobound/polynomials.py'; EA='autobound/enclosure_arithmetic.py'
EF='autobound/elementwise_functions.py'; PE='autobound/primitive_enclosures.py'; JB='autobound/jax/jax_bound.py'
JE='autobound/jax/jaxpr_editor.py'; GE='autobound/graph_editor.py'; TY='autobound/types.py'
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'Interval operations enclose every pointwise result',
  'For interval arrays and plain arrays of any compatible shapes, the result of adding, subtracting, negating, multiplying, raising to a non-negative integer power, taking outer products and powers, contracting, or applying a matrix-product-like or convolution-like bilinear operation encloses the value of the same operation at every choice of points inside the operands, up to floating-point roundoff. This includes operands that straddle zero, touch zero, are degenerate, or mix an interval with a plain array, and every returned lower end is at most the upper end.',
  ['inputs'], 'all shapes, signs and positions of the operands relative to zero; all points inside each operand; all exponents and bilinear operations',
  'The tests sample a few fixed operands; enclosure is a for-all over a continuum of points and over every sign pattern of the end points.',
  [IA], [('end-point rules of add/subtract/multiply/power', IA), ('positive/negative-part rule for bilinear operations', IA+' arbitrary_bilinear')],
  ['public methods of the interval arithmetic object'])
p('C02', 'Interval operations are exact wherever a best interval is computable',
  'Elementwise interval addition, subtraction, negation, multiplication and integer power, outer products, and bilinear operations in which only one operand is an interval return the smallest enclosing interval (both ends are attained), and outer powers of a vector are exact on their diagonal where squares cannot be negative. When no operand is an interval, the result is the plain array result, not an interval.',
  ['inputs'], 'all sign patterns and shapes of the operands, all exponents',
  'Looser-but-sound results pass every soundness test; exactness must hold for each of the sign combinations, not the sampled ones.',
  [IA], [('assume_product rule', IA+' arbitrary_bilinear'), ('even/odd power rule', IA+' power'), ('diagonal handling', IA+' outer_power')])
p('C03', 'Polynomial product, power and evaluation obey polynomial algebra',
  'For coefficients of any kind (numbers, arrays, intervals, or abstract objects with user-supplied operations), evaluating the product or integer power of polynomials agrees with multiplying or exponentiating their values, with exactly the terms of the multinomial expansion. With interval coefficients every coefficient of the computed power encloses the true one, and is the smallest such interval for squares and for powers of two-term polynomials.',
  ['inputs'], 'all polynomial lengths, exponents, coefficients and user-supplied operations',
  'The tests check a handful of short polynomials; the expansion must be right for every length and exponent, and for non-commuting bookkeeping arguments.',
  [PO], [('multinomial expansion over partitions', PO+' integer_power'), ('convolution of coefficients', PO+' arbitrary_bilinear'), ('Horner-free evaluation', PO+' eval_polynomial')])
p('C04', 'Evaluating and truncating a Taylor enclosure is sound',
  'Evaluating an enclosure at a displacement, or over an interval of displacements, encloses the value of every polynomial whose coefficients lie in the enclosure; reducing its degree over a trust region gives an enclosure of at most the requested degree that contains the original at every displacement in the region. Coefficients below the new degree are left unchanged, and an enclosure already within the degree is returned unchanged.',
  ['inputs'], 'all enclosures (point and interval coefficients, scalar and vector displacement, any batch shape), all trust regions including asymmetric ones, all degrees and displacements',
  'Soundness is a for-all over displacements and over every selection of coefficients from the intervals; tests compare a few fixed outputs.',
  [EA, PO], [('folding of excess terms into the last coefficient', EA+' enclose_enclosure'), ('enclosure evaluation', PO+' eval_taylor_enclosure, eval_elementwise_taylor_enclosure')])
p('C05', 'Arithmetic on Taylor enclosures preserves enclosure over the trust region',
  'If two functions lie inside given enclosures over a trust region, then their sum, difference, product, quotient, negation, power, bilinear combination, and composition with an enclosed elementwise function lie inside the enclosure the library returns, at every displacement in the region. The returned enclosure never exceeds the configured degree.',
  ['inputs'], 'all operand enclosures (point/interval coefficients, different lengths and batch shapes), all trust regions, maximum degrees, exponents (negative, fractional, integer), scalar and vector variables',
  'Excess-degree folding has many index cases (i, j, degree, region sign) that fixed examples do not reach, and soundness quantifies over all displacements and selections.',
  [EA, PO, PE], [('per-term excess-degree distribution', EA+' arbitrary_bilinear'), ('truncation', EA+' _truncate_if_necessary'), ('composition', EA+' compose_enclosures')])
p('C06', 'Point-coefficient enclosures follow exact polynomial algebra',
  'When all operand coefficients are plain arrays, every coefficient of a sum, difference, product, integer power or bilinear combination below the maximum degree is the exact polynomial-algebra coefficient, as a plain array; the last one is also exact and plain when nothing had to be truncated. Operand order, batch shapes and the number of variables do not change this.',
  ['inputs'], 'all point-coefficient operands, degrees, variable dimensions and batch shapes',
  'A truncation applied one degree too early, or an interval where an exact value is available, is still sound, and the tests only compare a few cases.',
  [EA, PO], [('coefficient convolution', EA+' multiply/arbitrary_bilinear/power'), ('broadcasting of coefficients', EA+' add')])
p('C07', 'Elementwise function facts (derivatives, extrema, ranges) are true',
  'For every supported elementwise function and derivative order, the callable returned is that derivative, the reported Taylor coefficients are its Taylor coefficients, the reported range over any interval is exactly the set of values taken there, and every reported monotonicity or symmetry claim is true. Asking for an unsupported order raises a not-implemented error.',
  ['inputs'], 'all functions and derivative orders; all intervals, including those with several extrema, or with an end exactly at an extremum',
  'The range is decided by which extrema fall in the interval and how they compare with the ends: many combinations, of which the tests sample few.',
  [EF], [('extrema tables', EF+' _FUNCTION_DATA'), ('range computation', EF+' get_range, maximum_value, minimum_value'), ('monotonicity over a region', EF+' monotone_over')])
p('C08', 'Elementwise function enclosures are valid over the whole trust region',
  'For every supported elementwise function (exponential, logarithm, absolute value, sigmoid, softplus, swish and real powers), degree, reference point and trust region inside the domain and containing the point, the function lies within the returned polynomial enclosure at every point of the region, up to roundoff. Where the function is undefined or unbounded on part of the region, the enclosure makes no false finite claim.',
  ['inputs'], 'all functions, degrees, reference points, trust regions (one-sided, asymmetric, straddling extrema, inflection points or zero) and points in the region',
  'Validity depends on which case (monotone, symmetric, fallback, sign case) each reference point and region selects; the tests cover few of the combinations.',
  [PE, EF], [('sharp monotone-derivative enclosure', PE), ('even-symmetric quadratic enclosure', PE), ('derivative-range fallback', PE), ('sign cases of powers', PE+' pow_enclosure')])
p('C09', 'Elementwise function enclosures are as tight as promised',
  'When the derivative of order equal to the degree is monotone over the trust region, or the degree is two and that derivative is symmetric about zero and falls away from it (softplus), the last coefficient is exactly the range of the scaled Taylor remainder (both ends attained). In every case it is at least as tight as the bound obtained from the range of that derivative, and the lower coefficients are exactly the Taylor coefficients.',
  ['inputs'], 'all functions, degrees, reference points and trust regions inside the domain',
  'A loose but valid enclosure passes every validity test; tightness must hold for each region and reference point.',
  [PE, EF], [('sharp enclosures', PE), ('selection between sharp and fallback per element', PE+' get_elementwise_taylor_enclosure')])
p('C10', 'Elementwise results are independent per element and per array back end',
  'Computing an elementwise enclosure, range or monotonicity answer for an array gives at every position the same result as computing it for that element alone, whatever its neighbours are. Using the NumPy or the JAX back end gives the same numbers up to roundoff, for every part of the library that is parameterized by the back end.',
  ['inputs', 'configurations'], 'all arrays mixing regions that select different cases; both back ends; all functions and arithmetic operations',
  'Tests mostly use scalars or homogeneous arrays, so a decision taken for the whole array instead of per element goes unnoticed.',
  [PE, EF, IA, PO, EA], [('elementwise selection', PE), ('back end parameter', TY)])
p('C11', 'Bounds on a function of one variable hold over the trust region',
  'For every function of a scalar built from supported operations, every maximum degree, reference point and trust region containing it, the function value at each point of the trust region lies between the lower and upper bound evaluated there, up to roundoff. This holds for any composition, nesting and sharing of sub-expressions.',
  ['programs', 'inputs'], 'all compositions of supported operations, degrees, reference points, trust regions and points in them',
  'The space of programs is unbounded and soundness is for all points; the tests check a list of about a hundred functions at sampled points.',
  [JB, EA, PE, PO, IA], [('abstract interpretation of the traced program', JB+' taylor_bounds'), ('push-forward rules', JB+' _pushforward_funs')])
p('C12', 'Bounds on functions of vectors and arrays hold over the trust region',
  'For every function of a vector built from supported operations, including reshaping, transposition, broadcasting, squeezing, sums, windowed sums, (batched) matrix products and convolutions, each output element lies between the corresponding lower and upper bound at each point of the trust region, up to roundoff. Reported coefficients have the shape of the output followed by one copy of the input shape per degree.',
  ['programs', 'inputs'], 'all compositions of structural and elementwise operations, dimension numbers and shapes, degrees, boxes and points',
  'Index bookkeeping differs per dimension configuration; tests use a few shapes, and mistakes may hide when sizes are equal or values symmetric.',
  [JB, EA, IA], [('per-coefficient structural operations', JB), ('bilinear push-forward', JB+' _dot_general_pushforward_fun, _conv_general_dilated_pushforward_fun')])
p('C13', 'Bound results are well formed',
  'The returned polynomial has degree at most the requested one, all coefficients except possibly the last are plain arrays, the last one is a plain array or a pair (low, high) with low at most high up to roundoff, and every shape is the output shape followed by the input shape once per degree. Evaluating the result, its lower and its upper bound, and its final interval agree with those coefficients, the bounds bracket each other, and the result remembers the reference point and region it was computed for.',
  ['programs', 'inputs'], 'all programs, degrees, points and regions, including constant, linear and degree-zero results',
  'Tests check specific expected outputs, not the form of every result.',
  [JB, EA], [('bound object', JB+' TaylorBounds'), ('truncation to the maximum degree', EA)])
p('C14', 'Bounds contain the Taylor polynomial and touch the function at the center',
  'For a smooth function, coefficients below the maximum degree equal the Taylor coefficients of the function at the reference point, and the last coefficient, if an interval, contains the Taylor coefficient of that order (and equals it if it is a plain array). Consequently lower and upper bounds both equal the function value at the reference point whenever the maximum degree is at least one.',
  ['programs', 'inputs'], 'all programs of smooth supported operations, scalar and vector, all degrees and reference points',
  'A wrong coefficient can be hidden by a wide final interval, so sampled soundness does not reveal it.',
  [JB, EA, PE, PO], [('exact lower coefficients through composition', EA), ('Taylor coefficients of primitives', PE+', '+EF)])
p('C15', 'Polynomials within the degree are recovered exactly',
  'If the function is a polynomial of degree at most the maximum degree, written with additions, subtractions, products, non-negative integer powers, linear structural operations and contractions, then the bounds are that polynomial itself: lower and upper bound coincide everywhere, whatever the trust region is. The coefficients do not depend on the trust region.',
  ['programs', 'inputs'], 'all polynomial programs of degree at most the maximum degree, scalar and vector, all trust regions',
  'The tests include few polynomial programs; premature truncation or an unnecessary interval is sound and passes.',
  [JB, EA, PO], [('no truncation below the maximum degree', EA), ('integer powers by expansion', PO)])
p('C16', 'Propagating trust regions stays sound and never loosens the bounds',
  'With trust-region propagation enabled, the bounds still contain the function over the whole trust region, keep the same lower-degree coefficients, and are nowhere looser than the bounds computed without it, up to roundoff. Every function that can be bounded without propagation can be bounded with it.',
  ['programs', 'configurations', 'inputs'], 'all programs, degrees, reference points and trust regions, with the option on and off',
  'Only a few tests enable the option; the comparison between the two modes is not tested over programs.',
  [JB], [('intersection of two range enclosures per intermediate value', JB+' taylor_bounds')])
p('C17', 'Unsupported inputs are refused, never silently mis-bounded',
  'If a program applies an operation without a known enclosure rule to a value that depends on the input, bounding it raises a not-implemented error whichever position the operation has in the program, and the same operation applied only to constants is accepted. Invalid arguments (negative degree, malformed enclosures as operands of products, quotients and powers, negative exponents of polynomials, mismatched shapes, inputs with too many dimensions) raise an error rather than return a bound, and an operation registered by the user is from then on bounded with the rule given.',
  ['programs', 'inputs', 'histories'], 'all positions of an unsupported operation in a program, all argument errors listed, registration before or after other uses',
  'Tests check one or two unsupported programs; silently passing over an unknown operation at some other position would be unsound.',
  [JB, EA, IA, PO, EF, PE], [('lookup of the rule for each operation', JB+' taylor_bounds'), ('argument validation', EA+', '+IA+', '+PO), ('registration', JB+' register_elementwise_primitive')])
p('C18', 'Bounds do not depend on how a function is wrapped or its constants built',
  'Wrapping all or any part of a function in just-in-time compilation, at any nesting depth and with any number of arguments and results, or computing its constants with any operations inside the function, leaves the bounds unchanged up to roundoff. The same holds when the bounding itself is run under just-in-time compilation.',
  ['programs', 'configurations'], 'all programs, all placements of compiled sub-functions (repeated, nested, several inputs and outputs, captured constants), all constant sub-expressions',
  'The tests barely exercise nested compiled functions; a rule that treats them as linear passes most simple cases.',
  [JB, JE], [('inlining of nested calls', JB+' _inline_jitted_calls'), ('constant folding', JB+' taylor_bounds')])
p('C19', 'Bounding is a function of its arguments, whatever was done before',
  'Calling a bounding function repeatedly, with different points, shapes and regions, interleaved with other bounding functions, failed calls, registrations of unrelated operations, and switches between single and double precision, always gives the same result as the same call made first in a fresh process. Arguments are never modified, and earlier results do not change later.',
  ['histories', 'configurations'], 'all sequences of calls, errors, registrations and precision switches',
  'Tests make independent single calls; dependence on history (caches, mutated tables, stale traces) needs particular sequences.',
  [JB, JE], [('per-call tracing and rewriting', JB+' taylor_bounds, _rewrite_jaxpr'), ('module-level tables', JB)],
  state=[('elementwise rule table', 'maps operations to enclosure rules', JB), ('rewrite rules', 'patterns for composite functions', JB)])
p('C20', 'Composite activation functions are recognized exactly when present',
  'Wherever the sigmoid, softplus or swish library function is applied to a varying value, at any position, nesting, number of occurrences, array shape and precision, the result uses the dedicated tight enclosure for that function. A program that merely resembles one of them is never treated as one of them, so its bounds still contain it.',
  ['programs', 'configurations'], 'all positions and repetitions of the activation functions in programs, near-miss programs, shapes, both precisions',
  'Tests apply each function once; recognition must survive surrounding code, several occurrences and precision settings, and near misses must not match.',
  [JB, JE, GE], [('pattern rewriting', JB+' _rewrite_jaxpr'), ('structural equivalence of sub-programs', JE)])
p('C21', 'Graph matching reports exactly the valid matches',
  'Matching a pattern operation sequence against a subject sequence yields a mapping exactly when some consistent assignment of pattern variables to permitted subject variables turns the pattern into the subject; the mapping returned then does so, binds only permitted pairs, and covers exactly the variables of the pattern. Otherwise it reports that there is no match.',
  ['inputs'], 'all pairs of operation sequences (arities, repeated variables, repeated operation kinds) and all binding restrictions',
  'The tests list a few pairs; correctness quantifies over all variable-sharing patterns.',
  [GE], [('greedy consistent binding', GE+' match')])
p('C22', 'Graph replacement rewrites leftmost non-overlapping occurrences only',
  'Search-and-replace scans left to right, rewrites each non-overlapping occurrence of the pattern that can be removed safely with the replacement instantiated by that occurrence\'s own bindings, and leaves every other operation, the order of operations, and the graph inputs, outputs and attached data unchanged. It always terminates and does not modify its arguments.',
  ['inputs'], 'all subject graphs, patterns and replacements, including self-overlapping patterns, adjacent and repeated occurrences',
  'The tests cover three or four tiny graphs; overlapping and repeated occurrences with different bindings are not reached.',
  [GE], [('left-to-right scan', GE+' replace')])
p('C23', 'Graph replacement keeps graphs well formed and preserves meaning',
  'If the pattern and its replacement compute the same function, the edited graph computes the same outputs as the original for every interpretation of the operations and every input. In the edited graph every variable is defined before use, at most once, and every graph output is defined, including when an intermediate value of an occurrence is used elsewhere.',
  ['inputs', 'programs'], 'all well-formed graphs, equivalent pattern/replacement pairs, interpretations and inputs',
  'Meaning preservation is a for-all over graphs; tests compare a few literal results.',
  [GE, JE], [('instantiation by the match', GE+' replace'), ('safety test for removed variables', GE+' replace')])
p('C24', 'Program editing replaces exactly the equivalent sub-programs',
  'Replacing one program by another inside a third rewrites every leftmost, non-overlapping, contiguous occurrence in its sequence of equations that is the same computation up to variable names and array shapes (called sub-programs, i.e. compiled, rematerialized and with custom derivatives, are compared likewise) and whose intermediate results are not needed elsewhere, and no occurrence that differs in an operation, parameter, literal, constant or data flow. The edited program is well formed and, evaluated, equals the original with each occurrence computed by the replacement, however many occurrences there are.',
  ['programs'], 'all subject/pattern/replacement programs with repeated occurrences, several inputs and outputs, literals, shapes and nested sub-programs',
  'Tests cover a few single-occurrence replacements; near misses and repeated occurrences are not reached.',
  [JE, GE], [('structural comparison of parameters', JE), ('conversion between programs and graphs', JE)])
p('C25', 'Shrinking the trust region tightens the bounds',
  'For the same function, degree and reference point, the bounds computed for a smaller trust region lie within those for a larger one at every point of the smaller, up to roundoff. As the region shrinks to the reference point, the width of the last coefficient shrinks to zero in proportion for smooth functions, so that degree-k bounds are accurate to order k+1.',
  ['programs', 'inputs'], 'all programs, degrees, reference points and nested trust regions, with and without propagation',
  'Each test looks at one region; a rule that is needlessly wide, or wide only for some regions, stays sound.',
  [JB, EA, PE, IA], [('inclusion-isotone rules', IA+', '+EA+', '+PE)])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
