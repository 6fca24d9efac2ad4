PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, note, **kw):
    p = dict(id=id, title=title, statement=statement, quantifier={'over': over if isinstance(over, list) else [over], 'text': text}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, note=note)
    p.update(kw)
    PROPS.append(p)


IR = 'Every obligation is generated from the LLVM IR of the current headers and discharged by z3/cvc5 for all inputs and iterations. Trusted: clang front end, the VC generator, the assumed contracts of libstdc++. '

P('C19', 'nonCollinearPoints returns n points of the square, no three on a line',
  'Random::nonCollinearPoints(n, dim) returns exactly n points with both coordinates strictly between -dim and dim, no three of which are collinear. It is rejected with invalid_argument exactly if n is negative, dim is not larger than n or dim exceeds 2^29 - 1. Otherwise it ends with domain_error only if the search for a prime was fruitless, and nothing overflows.',
  ['inputs', 'histories'], 'all n and dim, all sequences of draws',
  'singular rotations, too small primes and leading coefficients of zero give collinear points only for rare draws',
  ['src/validate.h'], [('curve', 'Random::nonCollinearPoints'), ('prime field', 'Random::prime, applyMod'), ('arguments of the curve', 'Random::distinct')],
  IR + 'Remainders modulo the prime carry their class as a polynomial; that three points of a rotated parabola modulo a prime are not collinear is proved in Lean (lean/Points.lean). prime, integer and distinct are used through their contracts (C18, C10, C12).')

P('C21', 'Modular arithmetic is exact for all 64-bit operands',
  'Reducing, multiplying and raising to a power modulo a positive 64-bit modulus return exactly the mathematical residue in [0, modulus) for every signed 64-bit operand, also where the intermediate product does not fit 64 bits and for negative operands. A modulus that is not positive and a negative exponent are rejected with a domain error and nothing else is rejected.',
  'inputs', 'all triples of signed 64-bit integers (base/factor, exponent/factor, modulus)',
  'the tests never call these functions directly; the 2^192 operand triples with overflow boundaries cannot be sampled',
  ['src/validate.h'], [('widening to 128 bit before the reduction', 'mulMod, details::mulMod'), ('square and multiply with invariant res*base^exp', 'details::powMod'), ('sign correction', 'applyMod')],
  IR + 'The recursion equation of b^e mod m is proved in Lean (lean/Lemmas.lean).')

P('C22', 'Modular inverses and the extended Euclid are correct for all operands',
  'For every signed 64-bit n and every modulus m > 0, multInv(n, m) returns the unique r in [0, m) with n*r = 1 (mod m) when n and m are coprime and -1 otherwise; a modulus that is not positive is rejected with a domain error. extendedEuclid(a, b) returns g = gcd(a, b) together with x, y such that a*x + b*y = g. No intermediate value overflows.',
  'inputs', 'all pairs of signed 64-bit integers for multInv, all pairs of non-negative ones for extendedEuclid',
  'the tests never call these functions; correctness is a statement about the whole iteration of the Euclidean algorithm',
  ['src/validate.h'], [('loop invariant a*x + b*y and gcd preserved', 'extendedEuclid'), ('reduction, gcd test and sign correction', 'multInv')],
  IR + 'The gcd recursion and the invertibility criterion are proved in Lean (lean/Gcd.lean). Divergence of the loop is excluded by a variant.')

P('C23', 'isPrime and primes() are exact over the whole 64-bit range',
  'isPrime(n) is true exactly when n is a prime, for every signed 64-bit n. primes(lower, upper) and primes(upper) return exactly the primes p with lower <= p < upper, each once and in increasing order, also when the range lies far above its own length; an empty range is rejected with invalid_argument and nothing else is rejected.',
  'inputs', 'all signed 64-bit n; all ranges whose bounds stay 2^32 away from the ends of the 64-bit range and whose length allows allocation',
  'strong pseudoprimes and composites with two large factors are vanishingly rare among sampled inputs, and sieving errors need a particular residue of the lower bound',
  ['src/validate.h'], [('trial division by small primes, Miller-Rabin rounds', 'isPrime'), ('witness table', 'details::MILLER_RABIN_WITNESS'), ('segmented sieve', 'primes')],
  IR + 'Trusted arithmetic fact: the seven bases of the witness table decide primality below 2^64 (Sinclair). Fermat, the sequence lemmas and the least-prime-factor lemmas are proved in Lean (lean/NumTh2.lean). primes() uses isPrime through its contract.')

P('C26', 'Number-theoretic and combinatorial sequences are exact',
  'range(from, to, step) returns exactly from, from+step, ... up to (excluding) to, for positive and negative steps, and rejects a zero step with domain_error; thueMorse(upper) and thueMorse(lower, upper) return the parities of the number of one bits of 0..upper-1 respectively lower..upper-1.',
  'inputs', 'all 64-bit bounds and steps whose sequence does not leave the 64-bit range',
  'the tests never call these functions; the count of elements depends on rounding of a division with signs',
  ['src/validate.h'], [('number of elements and start value', 'range'), ('popcount parity', 'thueMorse')],
  IR)

P('C07', 'Floating point comparison follows the tolerance definition for every value',
  'floatEqual(given, expected, absTol, relTol) is true exactly when the absolute difference is at most absTol, or the difference divided by expected is in absolute value at most relTol, for finite values; NaN equals only NaN, an infinity only an infinity, and neither equals a finite value; floatLess and floatGreater additionally accept strictly smaller respectively larger values, infinities included. A negative or NaN tolerance is rejected with domain_error and nothing else is rejected.',
  'inputs', 'all quadruples of long double values including NaN, infinities, signed zeros and denormals',
  'the outcome depends on special values and on boundaries of a comparison with rounding; a test samples a handful of ordinary numbers',
  ['src/validate.h'], [('case distinction on finiteness', 'details::floatEqual'), ('tolerance checks', 'floatEqual, floatLess, floatGreater')],
  IR + 'Subtraction and division of long doubles are uninterpreted (any rounding), comparisons and classification are those of the IEEE format.')

P('C08', 'Character classes, case mapping and string comparison are exact',
  'isLower, isUpper, isLetter, isDigit, isVowel and isConsonant accept exactly the ASCII characters of their class (no other byte value); on strings they are true exactly when every character is in the class and otherwise report the first offending character. toLower, toUpper and toDefaultCase change exactly the letters of the other case, in place. stringEqual compares byte by byte, ignoring only the case of ASCII letters when asked to, and reports the first position that differs; tokens are exactly the non-empty strings without white space.',
  'inputs', 'all 256 byte values and all strings of any length',
  'a class that is wrong for one byte value or an index that is wrong for one length class is not met by sampled strings',
  ['src/validate.h'], [('character ranges', 'isLower ... isConsonant, toLower, toUpper'), ('first mismatch', 'details::stringEqual, stringEqual'), ('tokens', 'details::isToken')],
  IR)

P('C09', 'Command line commands and their parameters are found and read exactly',
  'After parsing argv, arguments[c] gives the argument c that starts with -- and is longer than that, with exactly the arguments up to the next such command; getRaw(c) gives the first argument equal to c with all following ones; absent names do not exist, names that are no tokens and duplicate commands are rejected. exists, parameterCount, operator[] and asString(s), asInteger(s), asReal(s), with and without <N> or default, access exactly these parameters. A default is used only if the parameter is missing; missing or unreadable values throw.',
  ['inputs'], 'all argument lists and all names',
  'boundaries between commands, repeated tokens, missing trailing parameters and defaults interact; tests run with a few fixed command lines',
  ['src/validate.h', 'doc/validate.md'], [('parsing', 'CommandParser::CommandParser, isCommand, addCommand'), ('look-up', 'CommandParser::operator[], getRaw'), ('parameters', 'Command, Parameter, ParameterBase')],
  IR + 'Texts are abstracted to handles (equal texts have equal handles); their characters are accessed only by isCommand, which is proved on characters, and by isToken (C08) and parse (C04), which are used through contracts. std::map and std::vector are used through their specifications. Operations that would move the stored arguments while views of them exist are refused. The instances <2> and <3> of the tuple accessors are verified.')

P('C10', 'Random::integer is exactly unbiased and inside its range',
  'Random::integer(lower, upper) returns lower + floor(d*s/2^64) with s = upper-lower, where d is the first 64-bit output of the engine whose d*s mod 2^64 is at least 2^64 mod s; outputs are rejected only when they fall below that threshold, hence every value of [lower, upper) has exactly the same number of preimages, for every width up to the full signed 64-bit range, and no other value can occur. Exactly the empty ranges are rejected (invalid_argument); integer() returns the raw 64 bits and bit() their parity.',
  ['inputs', 'histories'], 'all pairs of signed 64-bit bounds and all sequences of engine outputs',
  'a bias of one part in 2^64 or a wrong rejection threshold has no effect on any sampled outcome',
  ['src/validate.h'], [('multiply-shift with rejection', 'Random::integer(lower, upper)'), ('parity of the engine word', 'Random::bit')],
  IR + 'That the accepted outputs are exactly floor(2^64/s) per value is proved in Lean (lean/Unbiased.lean). Termination of the rejection loop holds only with probability one and is not claimed.')

P('C11', 'Random reals and bounded distributions never leave their documented ranges',
  'Random::real() is the 64-bit mantissa (first engine word with its top bit set) scaled by 2^(-64-z), z the number of zero bits before the first one in the following words, hence inside (0, 1); real(u), real(l, u), normal(l, u, ..), exponential(l, u, ..), geometric(l, u, p), binomial(n, p) in [0, n], binomial(l, u, ..), maximum, minimum, minmax and discrete<...> return values of the documented half-open range for all arguments up to the full 64-bit span, without integer overflow. A call throws domain_error only for an argument outside the documented domain (NaN included) and invalid_argument only for an empty range or a bad count; every such call is rejected. For n < 5 maximum is the largest of n draws of integer(l, u), and discrete returns the index whose prefix sums enclose one draw, never an index of weight zero.',
  ['inputs', 'histories'], 'all arguments (NaN, infinities and extreme ranges included) and all sequences of engine outputs',
  'rounding onto the excluded bound or an overflow happens once in 2^64 draws or only for extreme parameters; the tests compare hashes for a few ordinary ones',
  ['src/validate.h'], [('mantissa and exponent', 'Random::real()'), ('rejection against the range', 'Random::real(lower, upper)'), ('geometric method', 'Random::binomial(n, p)'), ('inverse of the maximum', 'Random::maximum(lower, upper, n)')],
  IR + 'long double arithmetic is uninterpreted except for assumed facts instantiated per operation: signs and NaN/infinity of + - * /, exactness and monotonicity of conversions of 64-bit integers, sign of log, log2, log1p, range of exp2, floor and llround; real() itself is proved over bit vectors with the exact conversion. Assumed: fewer than 200 zero engine words in a row. Preconditions: p > 0 for geometric (p = 0 has no such distribution, the bounded form never returns), n < 2^63-1 for binomial, n > -2^63 for minmax. Termination of rejection loops holds with probability one only and is not claimed.')

P('C24', 'isPerm decides permutations exactly and names a culprit',
  'isPerm(sequence, offset) is true exactly when the n elements are offset..offset+n-1 in some order, for signed and unsigned element types and every offset, elements far outside that range included; when false it reports an element of the sequence that is out of range or occurs twice. isPerm(sequence, sequence) is true exactly when one is a rearrangement of the other, and reports an element of the first sequence when they have the same length and differ. No index leaves the marks array.',
  'inputs', 'all sequences of any length of int, long or unsigned long values with any offset',
  'wrap-around of element minus offset only matters for values near the ends of the type, and an out-of-range index may go unnoticed in a test',
  ['src/validate.h'], [('range check, marks', 'isPerm(first, last, offset)'), ('sorted copies', 'isPerm(sequence, sequence)')],
  IR + 'Precondition: offset + n does not overflow the element type. Equality of sorted sequences as criterion for rearrangements: lean/Sort.lean.')

P('C25', 'Monotonicity, adjacency and distinctness predicates are exact',
  'anyAdjacent, noneAdjacent and allAdjacent quantify over exactly the n-1 neighbouring pairs (in order, none for sequences of length 0 or 1) for every binary predicate; areIncreasing, areNonDecreasing, areDecreasing and areNonIncreasing are true exactly for the sequences of that kind and otherwise report the second index of the first offending pair; areDistinct is true exactly when all elements are pairwise different and otherwise reports an element that occurs at least twice.',
  'inputs', 'all sequences of any length, all predicates',
  'boundary positions and ties have to be right for every length and position, samples only visit some',
  ['src/validate.h'], [('neighbour scan', 'anyAdjacent'), ('comparison objects', 'areIncreasing, areNonDecreasing, areDecreasing, areNonIncreasing'), ('sorted copy', 'areDistinct')],
  IR)

P('C12', 'Random::distinct draws without replacement, uniformly and in range',
  'distinct(count, lower, upper) and distinct(count, upper) return exactly count pairwise different values of [lower, upper). Each value is one uniform choice among exactly the values not chosen before, which makes every ordered selection equally likely. Exactly a negative count and a range with fewer than count values are rejected with invalid_argument.',
  ['inputs', 'histories'], 'all counts and 64-bit bounds for which lower + count does not overflow, all sequences of draws',
  'a collision in the sparse swap table needs a particular sequence of draws; no sampled test meets it',
  ['src/validate.h'], [('sparse Fisher-Yates table of displaced values', 'Random::distinct')],
  IR + 'Random::integer is used through its contract (C10).')

P('C13', 'shuffle, rotate and perm rearrange uniformly and lose nothing',
  'shuffle leaves a rearrangement of the elements, made by one uniform choice of partner among the positions not yet settled per step, hence every arrangement equally likely; a pair is swapped exactly on one outcome of a fair coin. rotate rotates by a uniform amount in [0, size), returns it, and rejects exactly empty containers; perm(count, offset) is such a shuffle of offset..offset+count-1 and rejects exactly negative counts.',
  ['inputs', 'histories'], 'all containers of any length, all sequences of draws',
  'a partner range that is off by one still yields arrangements; only the distribution over all draws tells',
  ['src/validate.h'], [('partner chosen from the unsettled positions', 'Random::shuffle'), ('offset of the rotation', 'Random::rotate'), ('shuffled range', 'Random::perm(count, offset)')],
  IR + 'Random::integer and range are used through their contracts (C10, C26). That such choices reach every arrangement in exactly one way is a counting fact stated in DESIGN.md.')

P('C14', 'Permutations with prescribed cycles or fixed points honour the request',
  'perm(cycles, offset) maps, along a random arrangement of all elements, every element to its successor inside consecutive segments of exactly the given lengths, so the cycle lengths are those requested; exactly non-positive lengths are rejected with invalid_argument. perm(count, fix, offset) returns a permutation of offset..offset+count-1 that leaves every listed point in place, also when points are listed repeatedly, and rejects exactly negative counts and points outside the range.',
  ['inputs', 'histories'], 'all lists of cycle lengths and of fixed points, all offsets, all arrangements',
  'duplicates in the list, single-element cycles and the bookkeeping of free places matter only in combination',
  ['src/validate.h'], [('segments of a shuffled range', 'Random::perm(cycles, offset)'), ('free values fill free places', 'Random::perm(count, fix, offset)')],
  IR + 'perm(count), range and shuffle are used through their contracts (C13, C26). The counting facts (as many free values as free places) are proved in Lean (lean/Seq.lean).')

P('C15', 'Random sequences have the requested length, range and order',
  'multiple, increasing, decreasing, nonDecreasing and nonIncreasing return exactly count values of [lower, upper), in the requested strict or weak order; the two strict ones are pairwise different values. Every element of multiple is one uniform choice. Exactly the requests that cannot be met are rejected with invalid_argument.',
  ['inputs', 'histories'], 'all counts and 64-bit bounds without overflow of lower + count, all sequences of draws',
  'ties and end points of the range appear in few samples, and an order relation has to hold between all pairs',
  ['src/validate.h'], [('one draw per element', 'Random::multiple'), ('sorted distinct or repeated draws', 'Random::increasing, decreasing, nonDecreasing, nonIncreasing')],
  IR + 'distinct and integer are used through their contracts (C12, C10); std::sort is assumed to sort by the comparison object of the real code.')

P('C16', 'Random::partition splits the total into parts of the minimal size',
  'partition(n, k, min) and partition(n, k) return exactly k parts, each at least min, whose sum is exactly n. The parts are the differences of k-1 different uniformly chosen cuts, so every such split is equally likely. Exactly the requests that cannot be met (n or k not positive, k*min > n) are rejected with invalid_argument.',
  ['inputs', 'histories'], 'all n up to 2^61, all k and min for which (min-1)*k stays above -2^61, all choices of cuts',
  'the sum has to be exact for every choice of cuts; an off-by-one in the range of the cuts only removes some splits',
  ['src/validate.h'], [('differences of sorted cuts', 'Random::partition')],
  IR + 'increasing is used through its contract (C15). Telescoping of the sum is proved in Lean (lean/Seq.lean).')

P('C17', 'Random strings, brackets and selections are well formed and unbiased',
  'string(n, alphabet) consists of n independent uniform choices of positions of the alphabet. bracketSequence(n) is a balanced sequence of n pairs, and each next character is opening with exactly the share of the completions that open, so all balanced sequences are equally likely. select returns the element at a uniformly chosen position (a reference into the same container for lvalues) and rejects exactly empty containers.',
  ['inputs', 'histories'], 'all lengths, alphabets and containers, all sequences of draws',
  'the exact probability at each prefix is invisible in a sample, and overflow of the products matters only for long sequences',
  ['src/validate.h'], [('one draw per character', 'Random::string'), ('ballot probabilities', 'Random::bracketSequence'), ('uniform position', 'Random::select')],
  IR + 'The share of completions is proved in Lean (lean/Ballot.lean). Precondition of bracketSequence: the two characters differ.')

P('C18', 'Random::prime returns primes of the range and can return each of them',
  'prime(lower, upper) and prime(upper) return only primes of [lower, upper). Every odd number of the range, and two when it lies in the range, is a possible candidate of the last draw. Exactly empty ranges are rejected with invalid_argument, and only a fruitless search ends with domain_error.',
  ['inputs', 'histories'], 'all 64-bit bounds with upper - lower representable, all sequences of draws',
  'candidates are mapped through a halved range, whose end points are wrong for some parities of the bounds only',
  ['src/validate.h'], [('candidates 2t+1 and the special case 2', 'Random::prime')],
  IR + 'isPrime and Random::integer are used through their contracts (C23, C10). That the retry limit suffices for every range is not claimed.')

P('C02', 'Reading white space and tokens accepts exactly the allowed input',
  'In space sensitive mode space() and newline() consume exactly the one required character, string() requires the token to start at once with a visible character, and eof() requires that nothing is left; otherwise white space is skipped and the separators are no-ops. string() returns the maximal token, folded to lower case unless case sensitive. Everything else ends the program with the verdict configured for the stream.',
  'inputs', 'all input texts of any length (all 256 character values), all positions, all four mode combinations, all verdict codes',
  'acceptance is an if-and-only-if over all byte sequences; tests sample a few well-formed texts, and rejection ends the process',
  ['src/validate.h'], [('one character, exactly', 'InputStream::space, newline'), ('nothing left', 'InputStream::eof, noteof'), ('maximal token', 'InputStream::string()')],
  IR + 'std::istream is assumed to deliver a finite character sequence with the documented flags ("C" locale); InputStream::fail and toDefaultCase are used through their contracts (C43, C08).')

P('C03', 'Length, pattern and list reads of strings are exact',
  'string(...) with a length range or a pattern returns the next token exactly when its length lies in [lower, upper) and the whole token matches, else the verdict of the stream is issued; strings(...) reads exactly count such tokens with exactly one separator between consecutive ones and none at the end. Separators other than space and newline are rejected with invalid_argument. A constraint is told the bounds and the length of every token that was accepted, once each.',
  'inputs', 'all input texts, bounds, patterns, counts, separators and modes',
  'an off-by-one in the length range, in the number of separators or in what a constraint records concerns inputs at a boundary only',
  ['src/validate.h'], [('length range', 'InputStream::string(lower, upper)'), ('whole token matches', 'InputStream::check'), ('count and separators', 'InputStream::strings')],
  IR + 'string(), space() and newline() are used through their contracts (C02); matching is an arbitrary predicate of pattern and token. Precondition: count is not negative.')

P('C04', 'Integers are accepted exactly in canonical form and range',
  'integer() accepts exactly the tokens 0 and -?[1-9][0-9]* whose value fits in 64 bits, and returns that value; integer(lower, upper) additionally requires lower <= value < upper. integers(...) reads exactly count of them, separated as for strings, and constraints are told bounds and value of each. isInteger decides the same language and reports the value; everything else yields the verdict of the stream.',
  'inputs', 'all input texts, bounds, counts, separators and modes',
  'leading zeros, -0, a plus sign and values just outside 64 bits are single points of an infinite language',
  ['src/validate.h'], [('language of integers', 'INTEGER_REGEX'), ('value and overflow', 'details::parse'), ('range', 'InputStream::integer(lower, upper)'), ('count and separators', 'InputStream::integers')],
  IR + 'The pattern of the current source is compared with the specified language by automata; std::regex_match and std::from_chars are assumed to meet their specification.')

P('C05', 'Reals are accepted exactly in form, precision and range',
  'real() accepts exactly [+-]? digits with at most one decimal point and an optional exponent and returns the value that from_chars gives; real(lower, upper) requires the value to lie in [lower, upper) or to equal a bound up to the tolerances of the stream. realStrict accepts exactly -?(0|[1-9][0-9]*)(.[0-9]*)? with a number of decimals in [min, max) and a value in [lower, upper) without tolerance. Lists, constraints, isReal and verdicts behave as for integers; NaN and infinities are never accepted.',
  'inputs', 'all input texts, bounds (also NaN and infinite), decimals ranges, tolerances, counts and separators',
  'the accepted language and the borders of the range are points that sampled tokens miss; NaN bounds compare unlike any number',
  ['src/validate.h'], [('languages of reals', 'REAL_REGEX, STRICT_REAL_REGEX'), ('plus sign and whole-token parse', 'details::parse'), ('range with tolerance', 'InputStream::real(lower, upper)'), ('decimals and strict range', 'InputStream::realStrict'), ('count and separators', 'InputStream::reals, realsStrict')],
  IR + 'Patterns are compared with the specified languages by automata; floatEqual is used through its contract (C07). Values at the ends of the long double range are left to std::from_chars. Precondition: tolerances and counts are not negative.')

P('C06', 'expectString, expectInt and expectReal accept exactly the expected value',
  'expectString accepts exactly a token that equals the expected text, character by character and ignoring case unless case sensitive, and rejects expected texts that are no token with invalid_argument; expectInt accepts exactly a canonical integer of that value, expectReal exactly a real equal up to the tolerances. The token and nothing else is consumed. Every difference is reported, without a fault while formatting it, with the verdict of the stream.',
  'inputs', 'all input texts, expected values of any length, modes and tolerances',
  'the message formatting indexes around the first difference for every combination of lengths and positions, and only on rejection',
  ['src/validate.h'], [('comparison and message', 'InputStream::expectString'), ('comparison of values', 'InputStream::expectInt, expectReal')],
  IR + 'string() is used through its contract (C02), floatEqual through C07. std::regex_match and std::from_chars as in C04, C05.')

P('C01', 'A verdict always ends the program with its exit code, also after a failing read',
  'Printing a verdict to an ostream or OutputStream and Verdict::exit() end the program with exactly the exit code of that verdict (AC 42, WA and PE 43, FAIL 1), whatever the state of the streams. A rejected read reports its position and ends with the verdict of its stream: it terminates for every input text and position, seekable or not, never returns, throws or touches memory outside its buffers, so no failing submission is judged by a crash.',
  'inputs', 'all input texts, reading positions, stream states and exit codes',
  'the position report slices an excerpt by arithmetic on line length, token length and window; tests fail at a handful of short positions',
  ['src/validate.h'], [('exit code', 'Verdicts::Verdict, exitVerdict'), ('re-reading the input up to the failure', 'InputStream::fail'), ('excerpt window', 'InputStream::fail')],
  IR + 'std::exit is the end of an execution. Precondition: the input is shorter than 2^59 characters.')

P('C27', 'Polygon predicates decide convexity, orientation and simplicity exactly',
  'For polygons with integer coordinates of absolute value below 2^30, isConvex holds exactly for counterclockwise convex polygons with nonzero area and distinct vertices that wind once (three consecutive points may be on a line), isStrictlyConvex additionally excludes collinear consecutive points, and isCCW tells whether the signed area is positive. isSimple holds exactly if no edges meet except consecutive ones in their common vertex. Larger coordinates are rejected with an exception and no computation overflows.',
  ['inputs'], 'all polygons with at most 2^30 vertices; isSimple: bounded',
  'winding numbers, collinear points, duplicate vertices, overlapping edges and overflow of area sums need specific polygons',
  ['src/validate.h'], [('convexity', 'isConvex, isStrictlyConvex'), ('orientation', 'isCCW'), ('simplicity', 'isSimple'), ('arithmetic', 'cross, details::assertBounds')],
  IR + 'Convexity is proved as the local criterion (no equal neighbours, all turns nonnegative, one positive, two changes of lexicographic direction); its equivalence with the global definition is assumed and checked for all small polygons. isSimple (a sweep line over an ordered set with a state dependent comparator) is only checked BOUNDED: all polygons with up to 5 vertices on a 4x4 grid, 6 on 4x3 and 7 on 3x3, against the quadratic definition; it is not counted as proved.')

P('C28', 'UnionFind maintains exactly the partition given by the joins',
  'A new UnionFind(n) has n singleton sets. unionSets(a, b) joins exactly the sets of a and b and returns whether they were different; findSet returns the same element of the set for all its members and connected(a, b) tells whether both are in one set, and neither changes the partition. Every call terminates and only accesses elements of the structure.',
  ['inputs', 'histories'], 'all n, all sequences of calls (fewer than 2^62 joins)',
  'a wrong link or path compression corrupts the forest only after particular sequences of joins and queries',
  ['src/graph_val.h'], [('class invariant: parents lead to the representative', 'UnionFind::findSet, linkSets'), ('joins', 'UnionFind::unionSets'), ('queries', 'UnionFind::connected')],
  IR + 'The recursion of findSet is verified against its own contract with a ghost height that strictly grows towards the representative. Efficiency is not claimed. Precondition: elements are in [0, n).')

P('C29', 'Graph answers queries about the edges added so far exactly',
  'Graph(l, r) has the vertices l..r-1 and no edges; addEdge adds one undirected edge. After every history, neighbours, degree (distinct neighbours), hasEdge, edgeCount, nodeCount, size, areConnected, isConnected, isForest (no edge joined connected vertices), isTree, isBipartite, hasSelfloop and hasMultiedge describe exactly the edges added so far, and queries do not change the graph. All accesses stay within the vectors.',
  ['inputs', 'histories'], 'all vertex ranges and all sequences of addEdge and queries (fewer than 2^58 edges)',
  'connectivity and bipartiteness are maintained incrementally; a wrong update shows only after particular sequences of edges, loops and parallel edges',
  ['src/graph_val.h'], [('class invariant', 'Graph::addEdge, BaseGraph::addEdge_'), ('double cover', 'Graph::buf'), ('queries', 'Graph')],
  IR + 'UnionFind is used through its contracts (C28), std::set through its specification. That joins compute reachability, that each join reduces the number of classes by one and that a graph is bipartite exactly if no vertex meets its copy in the double cover is proved in Lean (lean/Graph.lean). Precondition: vertices are in [l, r).')

P('C30', 'DiGraph answers queries, tree and DAG tests about its edges exactly',
  'addEdge adds one directed edge; after every history, successors, predecessors, degrees, hasEdge, hasReverse, edgeCount, nodeCount, size, hasSelfloop and hasMultiedge describe exactly the edges added so far. isDAG returns an order of all vertices in which every edge leads forward exactly if there is no cycle. isTree returns the only vertex without incoming edges exactly if there is one such vertex, one edge less than vertices, and no edge joined already connected vertices.',
  ['inputs', 'histories'], 'all vertex ranges, all sequences of addEdge and queries (fewer than 2^58 edges)',
  'the root is maintained incrementally and the in degrees are consumed in an order that depends on the graph; cycles are an unbounded condition',
  ['src/graph_val.h'], [('class invariant', 'DiGraph::addEdge, BaseGraph::addEdge_'), ('topological order', 'DiGraph::isDAG'), ('first vertex without incoming edges', 'DiGraph::root, rootCount')],
  IR + 'UnionFind is used through its contracts (C28), std::set through its specification (ascending iteration, size is the number of elements). Facts about finite sets and positions, and that vertices which all have a predecessor among themselves contain a cycle, are proved in Lean (lean/Graph.lean). Precondition: vertices are in [l, r).')

P('C33', 'Xoshiro256ss is xoshiro256** and jump advances it by 2^128 steps',
  'operator() returns the output of xoshiro256** for the current state and moves to its next state; min() and max() are 0 and 2^64-1. jump() moves every state to the state that 2^128 calls of operator() reach. The constructors start at the given state, or at the digits of pi combined with the seed and advanced by one jump.',
  ['inputs', 'histories'], 'all 2^256 states and all seeds',
  'a wrong bit in a constant or shift keeps the output looking random; that a jump equals 2^128 steps cannot be run',
  ['src/rng.h'], [('one step', 'Xoshiro256ss::operator()'), ('2^128 steps', 'Xoshiro256ss::jump'), ('seeding', 'Xoshiro256ss::Xoshiro256ss')],
  IR + 'The state after jump() is a linear function of the bits of the state: its matrix over GF(2), read off the term of the symbolic execution, is compared with the 2^128th power of the matrix of one step (exact computation).')

P('C34', 'The block cipher is AES-256 as specified by FIPS-197',
  'Encrypting a 16 byte block with a 32 byte key yields exactly the AES-256 cipher text of FIPS-197 (key expansion, 14 rounds of substitution, row shift, column mix and key addition), and encryption changes neither the key nor the block.',
  'inputs', 'all 2^256 keys and all 2^128 blocks',
  'no test runs the cipher; one wrong entry of the substitution table is met by a fraction of the blocks only and the output still looks random',
  ['src/secure_rng.h'], [('key expansion', 'AES::AES'), ('rounds', 'AES::operator(), subBytes, shiftRows, mixColumns, addRoundKey'), ('tables', 'AES::SBOX, AES::GF_MUL_TABLE, AES::R_CON')],
  IR + 'Every byte of the result is reduced to a canonical form: a linear form over GF(2) of the input bits and of applications of the substitution box, which is decided exactly; the tables are compared with their algebraic definition entry by entry.')

P('C35', 'AES_RNG outputs the encrypted counter and its counter has full period',
  'Each call increments the 128-bit little-endian counter by one modulo 2^128, leaves the key alone and returns the exclusive or of the two little-endian halves of the encryption of the new counter; min() and max() are 0 and 2^64-1. The constructors start at the given key and counter, or at the fixed digits of pi with the seed combined into the lower half of the counter.',
  ['inputs', 'histories'], 'all keys, all 2^128 counter values (hence all histories of calls) and all seeds',
  'a lost carry between counter bytes shows only after at least 2^8 (for the upper bytes 2^64 and more) calls and does not make the output look less random',
  ['src/secure_rng.h'], [('counter with carry, output assembling', 'AES_RNG::operator()'), ('fixed key, seeding', 'AES_RNG::AES_RNG')],
  IR + 'AES enters through its contract (a function of key and block, C34).')

P('C39', 'Lists, pairs and tuples are printed with exactly one separator in between',
  'Writing a container, array, pair or tuple to an OutputStream, OutputStream::join and join(first, last, separator), join(container, separator), join(tuple, separator) print exactly the given elements in order, with exactly one separator (default: space) between neighbours, and nothing else. Without a separator (NOSEP) and for empty ranges nothing is added. Scalars are printed as they are.',
  ['inputs'], 'all ranges of integers, reals and strings, all separators; tuples of up to four elements',
  'superfluous or missing separators show only for empty or single element ranges, NOSEP or particular tuples, and make output files invalid',
  ['src/validate.h', 'doc/validate.md'], [('ranges', 'OutputStream::join, operator<<'), ('tuples', 'OutputStream::join'), ('writers', 'join, details::TempWriter')],
  IR + 'The output is a sequence of pieces (character, integer, real, string); the texts of numbers are left to the standard library. join of a brace list and asString are only covered by the search for failing inputs.')

P('C40', 'A constraint summarises exactly the values and bounds that were logged',
  'After any sequence of log calls on one constraint it holds the smallest and largest logged value (the size for a container), the smallest lower and the largest upper bound, with integer upper bounds turned into closed ones, and whether some value met the lower and some value met the (closed) upper bound of its own call: exactly for integers and sizes, up to the default float tolerances for reals. A value of another type (integer, real, or another type of container) than the first one is rejected with logic_error.',
  ['histories', 'inputs'], 'all sequences of calls (one step of an arbitrary state, and the first call), all bounds above the smallest 64-bit integer and all values',
  'only the sequence as a whole shows a summary that forgets an earlier value; the repository has no test for it',
  ['src/validate.h'], [('accumulation', 'Bounds::update'), ('closed upper bound, type check', 'Constraint::update'), ('value or size', 'Constraint::log')],
  IR + 'details::floatEqual enters through its contract (C07). std::variant and std::optional are symbolically executed from their real code. The file written at the end of the program is not covered.')

P('C32', 'Generators build exactly the documented graphs and draw edges uniformly indexed',
  'independent(n), clique(n), bipartite(n, m), star(n), path(n), cycle(n), wheel(n) (n >= 3 for both), lolly(p, c) (c >= 1) and broom(p, l) have exactly the documented vertices and edges, in the directed variants too. randomGraph(n, m) and randomBipartite(n, m, k) have exactly the requested number of edges: one per number drawn by Random::distinct, through a bijection between those numbers and all possible edges. The versions with a probability draw the number of edges as binomial over exactly the number of possible edges.',
  'inputs', 'all sizes from the stated minimum up to 2^30 and all results of the random draws',
  'no test builds any of these graphs; decoding a number to an edge fails at particular rows and parities only',
  ['src/graph_gen.h'], [('decoding a number to an edge', 'randomGraph, randomBipartite'), ('shapes', 'clique, bipartite, star, path, cycle, wheel, lolly, broom')],
  IR + 'The operations of GraphType enter by contract (C31), Random::distinct by its own (C12). Two facts about integers (unique quotient and remainder, n(n-1) is even) are proved in Lean (lean/Graph.lean).')

P('C31', 'A graph is a consistent set of vertices and edges under every operation',
  'Every operation of Graph and DiGraph keeps the structure consistent (adjacency of both ends, edge numbers, ends and data agree; no loops, no parallel edges) and accepts exactly arguments that name vertices. addEdge, eraseEdge, hasEdge, findEdge, getEdgeById, degree, getEdges, operator[], setMinId, normalize, reverse, combine, append (of the graph itself too), range, subgraph, undirected, directed, copies, permutate and permutateEdges have exactly the documented effect on vertices, edges and edge data, and leave everything else (the argument too) as it was.',
  ['histories', 'inputs'], 'all graphs that satisfy the invariant (hence all sequences of operations), all vertex ids and sizes up to 2^30',
  'there are no tests of the graph classes; a stale edge number after an erasure shows only when a later operation uses exactly the moved edge',
  ['src/graph_gen.h'], [('insertion and removal', 'GraphType::addEdge, eraseEdge'), ('union of graphs', 'GraphType::combine, append'), ('parts of graphs', 'GraphType::range, subgraph'), ('orientation', 'GraphType::reverse, undirected, directed'), ('renaming', 'GraphType::setMinId, normalize, permutate, permutateEdges')],
  IR + 'The edge data is one 64-bit integer. std::map and std::vector enter as assumed contracts, Random by its contracts (C12, C13). complement, power, products and the version of directed with a predicate are not covered.')

P('C41', 'Command line and settings reach the streams of every kind of program',
  'After init of InputValidator, AnswerValidator, OutputValidator, Interactor and Generator the tolerances and the space and case sensitivity are the values set before, overridden by the arguments (the specific tolerance arguments override float_tolerance; input and answer validators are always sensitive), --seed seeds the random engine and --constraints_file names the constraints file. Every stream reads from or writes to its documented file or standard stream with exactly these settings, its documented verdict (43 for what a team, an input or an answer submits, 1 for trusted files) and the default number format; unusable arguments and files are rejected. init succeeds at most once, and afterwards no setting can be changed.',
  ['inputs', 'histories'], 'all command lines (presence, absence and value of every recognised argument), all values set before init and all outcomes of opening files',
  'init reads its arguments from main and can run only once in a process; a stream created with the default tolerances or the sensitivity of another stream shows only with unusual arguments',
  ['src/validate.h'], [('parsing of the flags', 'ValidateBase::details::init'), ('streams', 'InputValidator::init, AnswerValidator::init, OutputValidator::init, Interactor::init, Generator::init'), ('settings are frozen', 'SettingBase::operator=, details::initialized'), ('stream construction', 'InputStream::InputStream, OutputStream::OutputStream')],
  IR + 'CommandParser and Command enter by contract (whether a name occurs, its value), paths, files and streams by the assumed contracts of specs/envm.py.')

P('C42', 'Multipass state is handed from each pass to exactly the next one',
  'Multipass::init numbers the passes 0, 1, 2, ... by the number stored in the file .pass and stores its own; in pass n the previous state is read from the file to which pass n-1 wrote (there is none in pass 0), the next state goes to the other file, which is created anew, and both alternate between .state0 and .state1. The previous state is read with the current tolerances, case sensitive, not space sensitive and with verdict 1. NEXT() ends the program with exit code 42 after nextpass.in received exactly what was written to nextpass; init before the init of the program and unusable files are rejected.',
  ['histories'], 'all numbers of passes (one step from an arbitrary stored number), all tolerances and all outcomes of opening files',
  'a pass is a run of a program of its own; mixing up the two state files shows from the third pass on only',
  ['src/validate.h'], [('pass number and state files', 'Multipass::init'), ('hand over', 'Multipass::NEXT')],
  IR + 'Paths, files and streams enter by the assumed contracts of specs/envm.py (what is written to a file reaches it when it is flushed, closed or destroyed).')

P('C38', 'Colour arithmetic of the visualizers is exact and saturates per channel',
  'Colours of both visualizers are built from and compared by all their channels, operator[] selects the documented channel (for reading and writing) and throws out_of_range beyond the last one. + and - saturate every channel (alpha too) at 0 and 255, the product with a real rounds every channel to the nearest integer and saturates, lerp(a, b, f) is a*f+b*(1-f); the assigning operators do the same in place. blend returns the upper (lower) colour if the upper one is opaque (fully transparent) and the documented integer formula otherwise, and combine<M> is assignment, blend, + or -.',
  'inputs', 'all colours and all reals (products within the range of a 64-bit integer)',
  'there are no tests of the visualizers; wrong channels or wrap-around show for particular colours only',
  ['src/visualizer_png.h', 'src/visualizer_svg.h'], [('saturation', 'clamp_color'), ('arithmetic', 'operator+, operator-, operator*, lerp'), ('compositing', 'blend, details::combine'), ('channels', 'Color::operator[], operator==, operator!=')],
  IR + 'Products, differences and std::llround of reals are uninterpreted: the code is shown to apply them to exactly the documented arguments.')

P('C36', 'The written file is a valid PNG with exactly the pixels of the image',
  'PNGWriter::write writes, for every image of w x h pixels that fits, exactly one valid PNG file: signature, IHDR with width, height and 8-bit RGBA, one IDAT chunk of its announced length, IEND, each with the CRC-32 of its type and data, and nothing else. The data is a zlib stream of one stored block per row (the last one marked as final, length and complement correct) with the filter byte 0 and the channels r, g, b, a of every pixel, the rows from the last to the first (FLIP_Y), followed by its Adler-32.',
  'inputs', 'all images with 1 <= w <= 16383, h >= 1 and less than 2^31 bytes of data, and all pixel values',
  'there are no tests of the visualizers; checksums and block lengths fail for particular sizes and contents only',
  ['src/visualizer_png.h'], [('file layout', 'details::PNGWriter::write'), ('CRC-32', 'details::PNGWriter::writeU8, details::CRC32'), ('Adler-32', 'details::PNGWriter::writeU8Adler'), ('chunks', 'details::PNGWriter::beginChunk, endChunk')],
  IR + 'writeU8 is proved over bit vectors to make one step of the bitwise definition of CRC-32 and enters write by this contract. The bytes reach the file in the order in which they are written to the stream (assumed). Images with rows of different lengths, which clear() cannot create, are not covered.')

P('C37', 'Drawing changes exactly the pixels of the shape, each exactly once',
  'fillRectangle combines every pixel of the closed rectangle with the border colour (on its edges) or the fill colour (inside) exactly once, for corners in any order. drawLine combines exactly one pixel per step along the longer axis, the nearest one to the straight line, from the first to the last point inclusive; floodFill combines exactly the pixels of the 4-connected area of the colour of the start. All other pixels and the size stay the same; clear, operator(), width and height do what they say, clear rejects widths above 16383, and write() and the destructor write exactly this image if it has a file name and pixels.',
  ['inputs'], 'all images (up to 2^30 in each direction) and all points inside, all four blend modes and all colours',
  'there are no tests of the visualizers; a pixel that is combined twice, an off by one at an edge or a tie of the line shows for particular coordinates only',
  ['src/visualizer_png.h'], [('rectangles', 'PNG::fillRectangle'), ('lines', 'PNG::drawLine'), ('areas', 'PNG::floodFill'), ('image', 'PNG::clear, PNG::operator(), PNG::write')],
  IR + 'details::combine enters by its contract (C38), PNGWriter by its own (C36). Colours given by reference do not refer to pixels of the image itself. Termination of floodFill is not part of the statement.')

P('C43', 'Trees, cubes and bit graphs have the documented shape; random trees are uniform',
  'pruefer(code) returns exactly the labelled tree with that Pruefer code: the least vertex left that does not occur in the rest of the code is joined with the next entry, the last two vertices with each other. randomTree(n) is pruefer of n-2 independent uniform vertices (so every labelled tree is equally likely). completeTree(level, children) and hypercube(dimension) have the documented recursive shape and size, booleanLattice(level) joins exactly the numbers that differ in one bit, rado(n) joins j and i exactly if bit j of i is set (directed as documented), and randomGrowingGraph joins every vertex with distinct smaller ones, rejecting only p outside of [0, 1].',
  'inputs', 'all codes, all sizes up to 2^30 vertices, all levels, dimensions and probabilities, all results of the random draws',
  'no test builds any of these graphs; decoding fails only for codes in which a vertex becomes a leaf behind the scan position',
  ['src/graph_gen.h'], [('decoding', 'pruefer'), ('sampling', 'randomTree'), ('recursive shapes', 'completeTree, hypercube'), ('bits', 'booleanLattice, rado'), ('growing graphs', 'randomGrowingGraph')],
  IR + 'The operations of GraphType enter by contract (C31), Random::integer, real and distinct by theirs (C10 to C12). lean/Pruefer.lean proves that the order of removal used as specification exists for every code; that different codes give different trees is the classical theorem. The directed randomTree (a depth first search over the undirected one) is not covered.')
