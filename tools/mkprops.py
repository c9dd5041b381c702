#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

prop('C01', 'A die keeps exactly the distribution it was built from',
     'Building a die from any values and non-negative integer weights keeps every outcome\'s exact share of the total weight: outcomes come out ascending and distinct, equal outcomes are merged, booleans count as 0 and 1, weights are reduced by their greatest common divisor, outcomes of weight zero stay outcomes, here and through every later operation, unless the setting to drop them is on, truncation (setting or argument) cuts towards zero, and no outcomes at all means the constant 0. Lists of different length, negative weights and non-integer weights are rejected. Two dice are called equal exactly when they have the same outcomes in the same proportions.',
     ['inputs', 'configurations'], 'all value and weight lists (duplicates, order, negatives, fractions, zeros, booleans, huge weights, empty), under every combination of the truncate and ignore-zero settings',
     'Tests build a few dozen dice, mostly sorted uniform ones; merge/sort/reduce logic has to hold for every list and settings combination.',
     ['src/randvar.py', 'src/factory.py'], [('constructor sort/group/normalise', 'src/randvar.py RV.__init__/_sort_and_group'), ('from_const/from_seq', 'src/randvar.py')], ['vals/probs of the returned die'])
prop('C02', 'Operators between dice and numbers give the exact distribution',
     'For independent dice, +, -, *, floor division, true division, %, power, the six comparisons, and/or (and with a number or a sequence, counted by its sum, on either side) produce exactly the distribution of applying the operation to every pair of outcomes, as do negation, absolute value, rounding, floor, ceiling and truncation to every outcome. Not of a die is 1 only for a die that is always 0, a die cannot be used as a truth value, and division by an outcome 0 is an error.',
     ['inputs'], 'all pairs of operands (dice with any weights, ints, dyadic floats, sequences, lists), all operators, both operand orders, chained expressions, truncation on or off',
     'The convolution must be right for every pair of supports and weights and both operand orders; tests sample a few symmetric dice.',
     ['src/randvar.py'], [('convolution', 'src/randvar.py RV._convolve/_rconvolve/_rdict.fast_convolve'), ('unary maps', 'src/randvar.py RV._apply_operation')], ['vals/probs of results'])
prop('C03', 'Sequences follow the documented sequence algebra',
     'A sequence keeps its elements in the order written, flattening nested lists, ranges and sequences, replacing a die by its outcomes in ascending order, and dropping blanks. It acts as the sum of its elements in arithmetic, boolean and die operations; compared with a number it counts the elements satisfying the comparison; compared with a sequence it is true when the comparison holds at every position with the shorter one padded by minus infinity (not-equal being the negation of equal). Selecting positions counts from 1, out-of-range positions give 0, several positions are summed, and a plain number is indexed by its decimal digits. Two sequences are called equal exactly when they have the same elements in the same order.',
     ['inputs'], 'all nestings of lists, ranges, sequences and dice, all operators against numbers, sequences and dice on both sides, all index lists including out of range and repeated',
     'Length mismatches, empties, nesting and reflected operands multiply into far more cases than the tests list.',
     ['src/seq.py', 'src/factory.py', 'src/utils.py', 'src/roller.py'], [('flattening and expansion', 'src/seq.py Seq.__init__, src/factory.py get_seq, src/utils.py flatten'), ('comparison', 'src/seq.py Seq._compare_to'), ('selection', 'src/seq.py Seq.__matmul__/__rmatmul__/__getitem__'), ('inclusive range', 'src/roller.py myrange')])
prop('C04', 'Rolling dice gives the exact distribution of the sum',
     'Rolling n of a die gives exactly the n-fold sum of independent copies: a positive number of sides means 1..sides, a negative one sides..-1, zero the constant 0, a sequence a die with one face per element, and a fraction a one-faced die. Zero dice give the constant 0, a negative count the negated roll, a fractional count rounds up, a sequence count its sum, and a die as count the mixture over its outcomes; text like "3d6" and the operator shorthand (n*D*die, with a number or sequence as count) mean the same, a pool remembers how many dice it holds (1 unless two or more dice were rolled), and rolling an empty sequence or a blank gives a blank.',
     ['inputs'], 'all counts (small, hundreds, negative, zero, fractional, sequence, die) and all dice (sides, sequences with repeats, weighted dice, nested rolls)',
     'Doubling and caching must agree with plain repeated addition for every n and every weighted die; tests check a few counts.',
     ['src/roller.py', 'src/altcast.py'], [('argument handling', 'src/roller.py roll/_roll/_parse_from_str'), ('doubling', 'src/roller.py _roll_int_rv'), ('shorthand', 'src/altcast.py')])
prop('C05', 'Mixtures weigh every component by its weight alone',
     'Merging several dice, numbers and blanks with integer weights gives the mixture in which each component contributes its own distribution in proportion to its weight, regardless of how the component\'s own weights are scaled. Missing results and blanks are left out together with their weight, all weights default to equal, and nothing left gives a blank.',
     ['inputs'], 'all lists of components (dice with any totals, numbers, blanks, missing) and all weights including zero and non-coprime totals',
     'Needs exact rescaling for arbitrary totals; tests merge two or three simple dice.',
     ['src/randvar.py', 'src/factory.py'], [('from_rvs / merge_rvs', 'src/randvar.py RV.from_rvs')])
prop('C06', 'Position selection gives exact order statistics',
     'Selecting position k of a pool of n identical dice gives exactly the distribution of the k-th highest (or, when the order setting says lowest first, the k-th lowest) of the n rolled values, and 0 when k is outside 1..n. Selecting several positions gives the distribution of the sum of the dice at those positions within the same roll, counting repeats and ignoring out-of-range ones, under either order setting. A die or a non-integer used as a position is an error.',
     ['inputs', 'configurations'], 'all pools (n from 1 to over 100, any weighted die incl. zero weights), all positions and position lists, both position orders, whatever the other settings',
     'Order statistics of weighted dice for every n and k cannot be sampled by a few uniform examples.',
     ['src/randvar.py'], [('single position', 'src/randvar.py RV._get_kth_order_statistic'), ('several positions', 'src/randvar.py RV.__rmatmul__/_sum_at')])
prop('C07', 'Parameters are cast by declared type and results are mixed exactly',
     'A function with declared parameter types receives exactly what each type promises: a number parameter gets a sequence\'s sum and is called once for each outcome of a die (outcomes of weight zero included), a sequence parameter gets a number as a one-element sequence, and a die parameter gets a number as a constant die and a sequence as a die of its elements; undeclared parameters arrive unchanged, by position and by keyword alike. When dice had to be split, the result is the exact mixture over all combinations of outcomes (independent parameters multiply), with sequence results summed, die results mixed in, and missing results left out; when nothing had to be split the plain result is returned.',
     ['inputs', 'programs'], 'all functions with up to several parameters of any declared types, all argument types, positional and keyword, bodies returning numbers, sequences, dice, blanks or nothing, nested calls',
     'The nine casts combine over several parameters and keyword use; tests cover single-parameter rows of the table.',
     ['src/decorators.py'], [('cast table and outcome product', 'src/decorators.py anydice_type_casting')])
prop('C08', 'A pool given to a sequence parameter is expanded to every sorted roll',
     'Passing a pool of dice to a parameter expecting a sequence calls the function exactly once for every distinct roll sorted highest first, and weighs each result by the exact probability of that roll (all orders it can be rolled in, times the outcome weights). A single die is passed as one-element sequences.',
     ['inputs'], 'all pools (n dice, any weighted die), combined with other split parameters',
     'Multinomial weights for non-uniform dice have to hold for every pool; tests use uniform d6 pools.',
     ['src/randvar.py', 'src/decorators.py'], [('expansion', 'src/randvar.py RV._get_expanded_possible_rolls'), ('product of outcomes', 'src/decorators.py')])
prop('C09', 'Blank dice follow the blank algebra everywhere',
     'A blank (the empty die) is neutral in + and - and or, and absorbs every other operator, comparison and unary operator; it has length 0 and cannot be a truth value or a position selector. Passing a blank where a number or sequence is expected, or rolling a blank number of dice, yields the other kind of blank: it absorbs + and - too, has length 1, and every comparison, and/or and not with it on the left gives 1. Blanks contribute nothing to mixtures.',
     ['inputs'], 'all operators with either kind of blank on either side of numbers, sequences, dice and blanks, and all ways of producing a blank',
     'Two blank kinds times all operators times both sides: the tests only cover the programs the author compared with the reference site.',
     ['src/blackrv.py', 'src/randvar.py', 'src/roller.py', 'src/decorators.py'], [('blank operators', 'src/blackrv.py'), ('deferral to the blank', 'src/randvar.py RV._convolve/_rconvolve')])
prop('C10', 'The function depth limit truncates exactly at the limit and never leaks',
     'With a maximum depth of m, a call made while m limited functions are already active is not executed and gives a blank, and every other call is executed; a function that yields nothing gives a blank. Whatever happens inside - exceptions, caught or not, changed or reset settings (a reset may start the count afresh for the calls still running), casts calling the body many times - once a call has ended the depth is what it was before it started, and the truncation message is shown at most once until settings are reset.',
     ['histories', 'programs', 'fault_sequences'], 'all call trees mixing nested, sequential, recursive, failing and truncated calls, with the limit changed or settings reset at any point',
     'Needs arbitrary interleavings of calls, failures and setting changes; tests run one recursion.',
     ['src/decorators.py', 'src/settings.py'], [('depth counter', 'src/decorators.py max_func_depth')], ['which bodies ran, results, printed messages'])
prop('C11', 'The function library computes what its names say',
     'absolute, contains, count in, explode, highest/lowest/middle N of a pool, highest/lowest of two, maximum of, reverse, sort, and re-rolling low damage dice give exactly the distribution their documentation defines for every argument, with arguments cast like any function\'s. Explode adds another roll of the same die on its highest outcome, up to the explode-depth setting or an explicit depth; highest, lowest and middle mean the same dice under either position order; asking for more dice than the pool holds uses all of them and for none gives 0.',
     ['inputs', 'configurations'], 'all arguments (numbers, sequences, dice, pools, floats where accepted), all explode depths, both position orders',
     'Tests check a handful of d6 examples per function.',
     ['src/funclib.py'], [('library functions', 'src/funclib.py')])
prop('C12', 'Settings accept exactly the valid values and take effect at once',
     'Setting a known option to a valid value makes it effective for all following operations and leaves every other option alone; an unknown option or an invalid value is rejected and changes nothing; true/false options also accept those words in any letter case. Resetting restores every default, and settings stay in force across programs until changed.',
     ['histories', 'inputs'], 'all sequences of valid and invalid settings calls, resets and observations of the behaviour each option controls',
     'Histories of settings changes are unbounded; tests set one option and reset.',
     ['src/settings.py'], [('validation', 'src/settings.py settings_set'), ('reset', 'src/settings.py settings_reset')])
prop('C13', 'Values never change once created',
     'No operation - arithmetic, rolling, selection, mixing, casting, library calls, statistics, printing, compiling, failing - changes the distribution, elements, pool size, selection results or textual description of any die, sequence or blank that existed before it.',
     ['histories'], 'all histories of operations over shared values, with every earlier value re-examined afterwards',
     'Aliasing shows only in particular sequences of operations on shared objects; unit tests use fresh objects.',
     ['src/randvar.py', 'src/roller.py', 'src/seq.py', 'src/decorators.py'], [('fresh results', 'src/roller.py roll (memoised objects are shared)'), ('no in-place edits', 'src/randvar.py')])
prop('C14', 'Results do not depend on what was computed before',
     'An operation gives the same result whatever was computed earlier in the process, and however caches were filled: same operands and same settings give the same distribution, value types, pool size and description. In particular rolls of dice that differ only in weights, value types, count, or in the settings they were made under are never confused.',
     ['histories', 'configurations'], 'all histories of rolls and other operations on near-identical dice interleaved with settings changes, each history against a fresh process',
     'Needs history pairs that share a cache key; each unit test sees one history.',
     ['src/roller.py', 'src/utils.py', 'src/randvar.py'], [('roll memo', 'src/roller.py _roll_int_rv'), ('factorial memo', 'src/utils.py factorial'), ('cached total', 'src/randvar.py RV._get_sum_probs')])
prop('C15', 'Statistics describe the die exactly',
     'Mean and standard deviation equal those of the distribution, outcome/probability pairs list every outcome ascending with its probability, the cumulative die weighs each outcome by the probability of not exceeding it, and filtering removes exactly the given outcomes and renormalises (the constant 0 if none is left). A cut-off removes the largest possible group of least likely outcomes whose total probability is below it, and nothing else; a cut-off outside 0 to 1 is rejected.',
     ['inputs'], 'all dice, all filters, all cut-offs',
     'Tie and boundary behaviour of the cut and exactness for weighted dice need all inputs.',
     ['src/randvar.py'], [('statistics', 'src/randvar.py RV.mean/std/get_vals_probs/get_cdf/filter')])
prop('C16', 'Printed output shows the die faithfully',
     'Printing a value shows its name if given, mean and deviation rounded to two decimals, and one row per outcome in ascending order with the outcome right-aligned, its percentage to two decimals and a bar in proportion to the width, closed by a dashed line; a number or sequence is shown as the die it denotes, and blanks, missing values and empty sequences show only the name and the dashes. The text goes to the given print function, else to the configured one, else is returned if printing is off; the rows can be hidden, narrowed by width, and cut like the statistics.',
     ['inputs', 'configurations'], 'all values, names, widths, cut-offs, print settings',
     'Alignment, rounding and routing must hold for all values and widths; tests compare a few strings.',
     ['src/output.py'], [('rendering', 'src/output.py output/_output_blank')])
prop('C17', 'Sampling draws only possible outcomes with the right frequencies',
     'Sampling a die, number or sequence returns one outcome, or a tuple of exactly the requested number of independent outcomes, each of positive probability, with frequencies following the weights.',
     ['inputs', 'histories'], 'all dice incl. zero-weight outcomes, all counts, long sample runs',
     'Frequencies and independence are statistical; tests only check membership.',
     ['src/roller.py'], [('sampler', 'src/roller.py roller')])
prop('C18', 'Compiled expressions mean what the language defines',
     'Every expression of the dice language compiles to code that evaluates to the value the language\'s precedence and left-to-right grouping give it: | lowest, then &, comparisons, + and -, * and /, ^, @, d, #, and unary ! + - highest; / rounds down, [..] calls consume the longest expressions, braces build sequences with inclusive ranges. With integer-operator support on, @ and # work on the decimal digits of plain numbers and !, &, | treat them as truth values.',
     ['programs', 'configurations'], 'all expression texts (any operator nesting, parentheses, spacing, comments), under each combination of compiler flags and both execution modes',
     'Grouping errors only show for particular operator combinations; the tests compile whole programs with few nestings.',
     ['src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/utils.py'], [('grammar and precedence', 'src/parser/myparser.py'), ('emitted code', 'src/parser/python_resolver.py'), ('integer operators', 'src/utils.py')])
prop('C19', 'Compiled programs run statements, scopes and outputs as the language defines',
     'Running a compiled program produces exactly the program\'s outputs in order, each with its value and its name (any characters, with [VAR] replaced by the variable\'s text): assignments, loops over each element in order, if / else if / else taking the first true branch, functions with casts, results ending the call, recursion up to the depth limit, and settings statements. With dynamic scoping on, a function sees a copy of its caller\'s variables and its own changes vanish on return; with it off a function sees the global variables and never changes them. Restricted and plain execution agree.',
     ['programs', 'configurations'], 'all programs over the statement grammar, under both scoping modes and both execution modes',
     'Control flow, scoping and naming interact; tests cover about a hundred fixed programs.',
     ['src/parser/python_resolver.py', 'src/parser/parse_and_exec.py', 'src/decorators.py'], [('statement translation', 'src/parser/python_resolver.py resolve_node'), ('execution', 'src/parser/parse_and_exec.py safe_exec/unsafe_exec')])
prop('C20', 'The compiler accepts exactly the language and is a pure function',
     'Compiling accepts every text the grammar derives that has an output and only calls functions that exist, and rejects every other text with an error: empty input, illegal characters, unclosed strings, syntax errors anywhere, no output, unknown function, unknown flag. Comments, spacing and line breaks between tokens change nothing, and compiling the same text with the same flags always gives the same program, whatever was compiled or failed before, without altering its arguments.',
     ['inputs', 'histories'], 'all texts (valid programs, token mutations of them, random token strings), all compile histories',
     'Acceptance is over all strings and histories; tests list a few dozen.',
     ['src/parser/myparser.py', 'src/parser/parse_and_exec.py', 'src/parser/python_resolver.py'], [('lexer/grammar', 'src/parser/myparser.py'), ('checks', 'src/parser/parse_and_exec.py compile_anydice, src/parser/python_resolver.py resolve')])
prop('C21', 'Names chosen by the user never collide with anything',
     'Function and variable names of a program are the user\'s own: whatever words a function or variable is named with - words of the host language, of the support code, or of the function library - calls reach the user\'s function, everything the compiled code relies on keeps working, and library functions not redefined stay callable. Two functions differ when their words or the places of their parameters differ.',
     ['programs', 'configurations'], 'all function signatures and variable names the grammar allows, in every compiler mode',
     'The set of colliding names is open-ended; tests try two.',
     ['src/parser/python_resolver.py'], [('name translation', 'src/parser/python_resolver.py resolve_node (functions, calls, variables)')])
prop('C22', 'Text values add, compare, hash and print consistently',
     'Text outcomes form sums of texts with multiplicities plus, once a number has been added (even 0), a number: adding is commutative, associative and merges equal texts, equality means equal multiplicities and number whatever the order of building, equal values hash alike, ordering is total, places text above every number and compares texts without a number term by term in sorted order. Sequences and dice of texts follow the same rules as numeric ones where these apply (length, order as written, indexing, rolling, adding, reversing, sorting), and text is shown as its terms in sorted order, multiplicities other than 1 before the text, the number last, and quoted in listings when the text reads as a number.',
     ['inputs'], 'all combinations of texts and numbers, orders of adding, dice of texts',
     'Algebraic laws over all values; tests check examples.',
     ['src/string_rvs.py', 'src/factory.py', 'src/randvar.py'], [('text values', 'src/string_rvs.py')])
prop('C23', 'Huge totals stay accurate and never fail',
     'However large the exact weights become - hundreds of dice, order statistics of big pools, long sums, mixtures of many dice - operations succeed and every outcome\'s probability is within one part in a billion of the total of its exact value, with no outcome of substantial probability lost.',
     ['inputs'], 'all operations whose exact weight total exceeds the internal limit by any factor',
     'Only very large computations reach the reduction; tests reach it once without an exact oracle.',
     ['src/randvar.py'], [('probability limiter', 'src/randvar.py _INTERNAL_PROB_LIMIT_VALS')])
prop('C24', 'A die describes itself by how it was rolled',
     'A rolled die\'s text is its count (omitted when 1 in size) and sides with the sign of their product, as in 2d6 or -3d4; zero in either place shows d{0..0}; anything but plain sides (sequences, weighted dice, pools, results of operators) shows d{?} with the count kept when it is a number above 1 in size; a one-die roll of plain sides rolled again counts as plain sides. A sequence shows {?}, a blank d{} or d{?}.',
     ['inputs'], 'all shapes of roll arguments and nestings, all other ways to obtain values',
     'The rules interact over nested rolls; tests enumerate a grid but not nesting and sharing.',
     ['src/roller.py', 'src/randvar.py', 'src/seq.py', 'src/blackrv.py'], [('description', 'src/roller.py _setup_str_LHS_RHS, src/randvar.py RV.__str__')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
