#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so wording stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
G, F, C = 'grisu_exact.h', 'fp_to_chars.h', 'fp_to_chars/fp_to_chars.cpp'
ALLX = 'every finite nonzero float and double, either sign, normal and subnormal'
CONV = [('promotion of the input and computation of the scaled upper end point', G + ': grisu_exact_impl::compute, step 1'),
        ('kappa search (decreasing / increasing)', G + ': compute step 2, increasing_search, is_zf_smaller_than_deltaf'),
        ('right end point adjustment', G + ': compute step 3'),
        ('correct rounding search', G + ': compute step 4')]
CST = [('significand/exponent', 'decimal significand and exponent being built', G + ': compute, ret_value'),
       ('zi, deltai, r, divisor', 'integer parts of scaled upper end point and interval length, remainder, 10^kappa', G + ': compute')]
RT = 'uniform_random_test compares a few thousand random bit patterns with the bundled Ryu in the default configuration; '

prop('C01', 'Default conversion reads back as the same number',
 'For every finite nonzero float or double, the decimal number significand*10^exponent returned by the default conversion, read back with correct rounding to nearest (ties to even), is exactly the original number, bit for bit, with the same sign. This holds for every input, including subnormals, powers of two (where the gap below is half the gap above) and the largest finite values, and the conversion always returns.',
 ['inputs'], ALLX + ' (2^32-2^24-2 floats, 2^64-2^53-2 doubles)',
 RT + 'the failure set of a wrong boundary decision can be a single bit pattern out of 2^64.', [G], CONV, CST,
 ['return value of jkj::grisu_exact(x)'])
prop('C02', 'Default conversion is as short as possible',
 'For every finite nonzero float or double, no decimal number with fewer significant digits than the default result (trailing zeros not counted) reads back, under round to nearest ties to even, as the original number. Consequently the result never ends in a zero digit and never has more than 9 digits for float or 17 digits for double.',
 ['inputs'], ALLX,
 RT + 'an output one digit too long still reads back correctly, and happens only when a short decimal lies very close to an end point of the rounding interval.', [G], CONV, CST,
 ['return value of jkj::grisu_exact(x)'])
prop('C03', 'Default conversion is the closest shortest decimal, ties to even',
 'For every finite nonzero float or double, among all decimal numbers of the minimal number of significant digits that read back as the original number, the default result is the one closest to it; when two are exactly equally close, the one with the even significand is returned.',
 ['inputs'], ALLX,
 RT + 'ties and near-ties, and the rare inputs needing many correction steps, are sets random testing practically never hits for double.', [G], CONV, CST,
 ['return value of jkj::grisu_exact(x)'])
prop('C04', 'Nearest rounding modes honour their interval, shortest and closest',
 'In each of the six round-to-nearest modes (ties to even, to odd, toward plus infinity, toward minus infinity, toward zero, away from zero) the result lies in the set of reals that a reader using that tie rule maps back to the original number, end points being included exactly when that tie rule says so. In that set no decimal with fewer significant digits exists, and with the default correct-rounding policy no other decimal of the same length is closer to the original number, exact ties going to the even significand.',
 ['inputs', 'configurations'], ALLX + '; six nearest rounding modes; default correct-rounding policy',
 'No existing test instantiates any rounding mode but the default one; end-point inclusion only matters on inputs whose end point is itself a short decimal.', [G],
 [('interval providers', G + ': namespace grisu_exact_rounding_modes')] + CONV, CST, ['return value of jkj::grisu_exact(x, mode)'])
prop('C05', 'Directed rounding modes honour their interval, shortest and closest',
 'In the four directed modes the result lies in the half-open set of reals that a reader rounding toward plus infinity, toward minus infinity, toward zero or away from zero maps back to the original number, and no decimal with fewer significant digits lies in it. With every correct-rounding policy except do-not-care, the result is moreover the decimal of that length in the set that is closest to the original number.',
 ['inputs', 'configurations'], ALLX + '; toward plus infinity, toward minus infinity, toward zero, away from zero; all correct-rounding policies',
 'No existing test instantiates a directed mode; three defects in exactly this code were found and repaired while building these checks.', [G],
 [('directed interval providers', G + ': detail::left_closed_directed, right_closed_directed'), ('closest-candidate search for left-closed intervals', G + ': compute step 4')] + CONV[:3], CST,
 ['return value of jkj::grisu_exact(x, mode, policy)'])
prop('C06', 'Tie-breaking policies decide exact ties and nothing else',
 'In every nearest rounding mode, whichever of the policies tie-to-even, tie-to-odd, tie-to-up, tie-to-down is selected, the result is a shortest decimal of the rounding set and a closest one among those. When two admissible shortest decimals are exactly equally close to the original number, the policy picks the even, the odd, the larger-magnitude or the smaller-magnitude significand respectively; when there is no such tie, all four policies give the same result.',
 ['inputs', 'configurations'], ALLX + '; nearest modes x four policies',
 'Only tie-to-even is ever instantiated by the tests, and an exact tie has to be constructed.', [G],
 [('policy dispatch', G + ': namespace grisu_exact_correct_rounding'), ('tie decision', G + ': compute step 4, is_product_integer')], CST,
 ['return value of jkj::grisu_exact(x, mode, policy)'])
prop('C07', 'Skipping the correct-rounding search keeps round trip and length',
 'With the do-not-care policy, in every rounding mode, the result still lies in the rounding set of the selected mode and still has the minimal number of significant digits; only closeness to the original number is given up. In particular it has exactly as many digits as the result of any other policy in the same mode.',
 ['inputs', 'configurations'], ALLX + '; all fourteen rounding modes with do_not_care',
 'The policy is never instantiated by the tests.', [G],
 [('do_not_care branches', G + ': compute, if constexpr on CorrectRoundingSearch::tag')] + CONV[:3], CST,
 ['return value of jkj::grisu_exact(x, mode, do_not_care)'])
prop('C08', 'Static-boundary modes equal their dynamic counterparts',
 'Each of the four nearest modes offered in a static-boundary variant returns, for every input and every correct-rounding policy, exactly the same significand, exponent and sign as the mode it is a variant of.',
 ['inputs', 'configurations'], ALLX + '; four mode pairs x five policies x with/without sign',
 'Never instantiated by the tests.', [G],
 [('static boundary delegates', G + ': nearest_*_static_boundary')], CST, ['pairs of return values'])
prop('C09', 'Sign is reported and treated consistently',
 'The reported sign is the sign bit of the input, and the sign-less form of the conversion returns the same significand and exponent as the signed form. Negating the input negates the result and changes nothing else in every mode whose rule is symmetric in sign; in a mode rounding toward plus (minus) infinity, the result for -x equals the result for x in the mirrored mode rounding toward minus (plus) infinity.',
 ['inputs', 'configurations'], ALLX + '; all modes, all policies, both return forms',
 'Tests use the default mode only; uniform random bits do exercise both signs there, nothing elsewhere.', [G],
 [('is_negative', G + ': bit_representation_t::is_negative, compute'), ('sign-dependent interval selection', G + ': *_infinity modes')], (), ['pairs of return values'])
prop('C10', 'Strings render the converted number exactly',
 'For every finite nonzero input, mode and policy, the text produced is an optional minus sign, the significand digits with a point after the first one when there is more than one digit, the letter E and the exponent as a plain decimal integer without padding, plus sign or leading zero, and denotes exactly the number the numeric conversion returns for the same arguments. In the default configuration a correctly rounding reader such as strtof or strtod turns it back into the original bits.',
 ['inputs', 'configurations'], ALLX + '; all modes and policies; every significand length 1..9 / 1..17 and exponent',
 RT + 'the digit-pair writing code has a case for each length and magnitude that needs specific inputs.', [F, C],
 [('digit writer', C + ': fp_to_chars_impl'), ('length', C + ': decimal_length'), ('exponent writer', C + ': fp_to_chars_impl')], (), ['bytes written by jkj::fp_to_chars'])
prop('C11', 'Zeros, infinities and NaNs render as fixed texts',
 'Positive zero renders as "0E0", negative zero as "-0E0", positive infinity as "Infinity", negative infinity as "-Infinity", and every NaN whatever its sign, quietness or payload as "NaN". The returned pointer is the end of that text, in every mode and policy and for both types.',
 ['inputs', 'configurations'], 'both zeros, both infinities, all 2^24-2 float NaNs and 2^53-2 double NaNs; all modes and policies; terminated and unterminated form',
 'The existing tests discard NaNs and infinities or hit them by chance only.', [F],
 [('special-value branches', F + ': fp_to_chars_n')], (), ['bytes written by jkj::fp_to_chars / fp_to_chars_n'])
prop('C12', 'String writers stay inside the text they produce',
 'The terminated writer writes exactly the returned text and one terminating NUL at the returned position, the unterminated writer writes exactly the returned text, and both touch no other byte of memory and never read uninitialised buffer bytes. The text is the same whatever the previous buffer contents or alignment, is at most 15 characters for float and 24 for double, and so always fits the documented 31-byte buffer.',
 ['inputs', 'configurations'], 'every float and double bit pattern including zeros, infinities and NaNs; all modes and policies; every buffer alignment and prior content',
 'Tests write into a large reused buffer and never look past the terminator.', [F, C],
 [('pointer arithmetic', C + ': fp_to_chars_impl'), ('NUL termination', F + ': fp_to_chars')], (), ['buffer surroundings, returned pointer'])
prop('C13', 'No undefined behaviour, assertion failure, crash or hang',
 'Converting or rendering any valid input in any mode and policy executes no undefined behaviour (out-of-range shift, signed overflow, invalid bit scan, out-of-bounds access, use of uninitialised data, misaligned or null access), triggers none of the internal assertions, and finishes in a small bounded number of steps. This includes inspecting non-finite values and rendering them, on 64-bit and 32-bit builds.',
 ['inputs', 'configurations'], 'every bit pattern of both types x all modes and policies x 64/32-bit builds with assertions enabled',
 'The tests are built without sanitizers and cover the default mode; UB often still yields the expected value on one compiler.', [G, F, C],
 [('range invariants', G + ': assert() and static_assert throughout')], CST, ['sanitizer reports, signals, watchdog'])
prop('C14', 'Results do not depend on compiler, word size or optimisation',
 'The same bits, mode and policy give the same significand, exponent, sign and text whether the library is built by gcc or clang, for 64-bit or 32-bit x86, with or without optimisation, with or without assertions.',
 ['inputs', 'configurations'], ALLX + '; all modes and policies; build configurations gcc/clang x -m64/-m32 x -O0..-O3 x NDEBUG',
 'The tests run on two gcc builds at one optimisation level and never compare them with each other; the clang-specific branch is never compiled.', [G, C],
 [('128-bit vs portable arithmetic', G + ': umul128, umul128_upper64, umul192_upper64, umul96_upper32, divisible_by_power_of_2'), ('clang branch', C + ': fp_to_chars_impl')], (), ['digests of result streams per build'])
prop('C15', 'Bit-level inspectors classify every pattern correctly',
 'For every bit pattern, the inspectors report the IEEE-754 meaning of its fields: stored significand and exponent bits, sign, finiteness, non-zeroness, subnormal-or-zero, infinity of either sign, NaN, quiet or signaling NaN and NaN payload, and the pattern round-trips through the inspected representation. Exactly one of finite, infinite and NaN holds for every pattern, quiet and signaling partition the NaNs, and positive and negative partition all patterns.',
 ['inputs'], 'all 2^32 float and all 2^64 double bit patterns',
 'No test calls most inspectors.', [G],
 [('inspectors', G + ': bit_representation_t, get_bit_representation')], (), ['return values of the inspectors'])
prop('C16', 'Conversions are stateless, repeatable and safe to run concurrently',
 'The result of a conversion or rendering depends only on its arguments: it is the same on the first and on every later call, after any sequence of other conversions in any mode, type or policy, and from any number of threads converting at once into their own buffers, without data races.',
 ['histories', 'schedules'], 'all call sequences and thread interleavings',
 'Every test is single threaded and evaluates each input once.', [G, F, C],
 [('no mutable static state', G + ' and ' + C)], (), ['results per call in recorded histories; ThreadSanitizer'])
prop('C17', 'Conversions are pure: no dependence on or change to the environment',
 'Results do not depend on the floating-point rounding mode, flush-to-zero or denormals-are-zero setting, locale or errno, and a conversion or rendering leaves the floating-point control word and exception flags and errno unchanged, allocates no memory, and throws nothing.',
 ['inputs', 'configurations'], 'all inputs and modes x rounding-control, FTZ/DAZ, exception flag and locale states',
 'Tests run in the default environment and cannot see a dependence on it.', [G, F, C],
 [('integer-only algorithm', G + ': compute'), ('memcpy bit access', G + ': get_bit_representation')], (), ['MXCSR/x87 state, errno, allocator hooks, results'])
prop('C18', 'Integer logarithm helpers are exact on their documented ranges',
 'The helpers computing the floors of e*log10(2), e*log2(10) and e*log5(2) return the mathematically exact floor for every integer e in their documented ranges (|e| <= 1650, 642 and 65536 respectively), without overflow, at run time and in constant evaluation alike.',
 ['inputs'], 'every integer in each documented range',
 'The tests compare consecutive values of the same formula with a big-integer recomputation on part of the ranges, in an unsanitized build where overflow goes unnoticed.', [G],
 [('fixed point multiplication and shift', G + ': floor_log10_pow2, floor_log2_pow10, floor_log5_pow2')], (), ['return values'])
prop('C19', 'Stored powers of ten are the exact rounded values',
 'For every decimal exponent k the conversions can ask for, the stored power of ten is 10^k scaled to exactly 64 (float) or 128 (double) significant bits, rounded down for k >= 0 and up for k < 0, with the top bit set; and every exponent the conversions ever ask for is inside the stored range.',
 ['inputs'], 'every k in the stored range of both types; every binary exponent of both types',
 'The generator test compares the table with the same generation code run by the same big-integer class; a wrong low bit is invisible to sampling tests.', [G],
 [('cache tables', G + ': cache_holder<float>, cache_holder<double>, get_cache')], (), ['get_cache<Float>(k)'])
prop('C20', 'Wide multiplications and divisibility tests are exact',
 'The helpers for 64x64, 64x128 and 32x64-bit products (full or upper part) return the exact bits of the mathematical product for all operands, the scaled product and interval length computed from a stored power of ten are the exact floors, and the tests for divisibility by powers of 2 and 5 answer exactly, in both the 128-bit-integer and the portable implementation.',
 ['inputs', 'configurations'], 'all operand values (carry-chain corner values, adversarial and random), all valid exponents; 64-bit and 32-bit builds',
 'Never tested directly; a lost carry in the portable code affects about one operand pair in 2^32.', [G],
 [('multiplication helpers', G + ': umul128, umul128_upper64, umul192_upper64, umul96_upper32, compute_mul, compute_delta'), ('divisibility', G + ': divisible_by_power_of_2, divisible_by_power_of_5')], (), ['return values'])
prop('C21', 'Special-case handlers and policy objects are honoured',
 'The special-case handler passed to a conversion is called exactly once, before any conversion work, with exactly the bit pattern of the input; whatever it throws reaches the caller, and handlers, modes and policies may be passed as temporaries, const or non-const objects without changing the result. The default handler stops non-finite inputs by assertion in checked builds and lets every finite input through.',
 ['inputs', 'configurations'], 'all bit patterns; user-defined handlers (counting, throwing, stateful); all argument value categories, modes and policies',
 'No test passes a handler or a named mode object.', [G],
 [('entry point', G + ': jkj::grisu_exact'), ('handlers', G + ': namespace grisu_exact_case_handlers')], (), ['recorded handler events, exceptions, results'])
prop('C22', 'Outputs keep the order of the inputs',
 'Within one type, mode and policy, if x < y are finite nonzero numbers then the decimal number produced for x is strictly less than the one produced for y; in particular different inputs never produce the same number or the same text.',
 ['inputs', 'configurations'], 'all pairs of finite nonzero inputs, in particular neighbours; all modes and policies',
 'Tests look at each output in isolation.', [G, F, C], CONV, CST, ['pairs of return values of neighbouring inputs'])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
