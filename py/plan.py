"""Which proof units and which explorers decide which property."""
TRUSTED = ['Verus 0.2026.09.13 and its Z3', 'rustc and cargo', 'the token extraction of py/vx.py and the rewrites listed under units[].rewrites']
import ex_eager, ex_updater as U, ex_tr as T, ex_pred
def P(units, explore, bounded, proved='', assumptions=()):
    return dict(units=list(units), explore=list(explore), level='proof' if units else 'exploration', assumptions=list(assumptions),
                bounded=bounded, proved=proved)
NOT_APPLICABLE = []
PLAN = {
 'E01': P(['u_ops'], [ex_eager.e01], 'random scripts through solve; every model re-evaluated.', 'the bits of sums, differences, negations and constants, and the terms of the comparisons, from the adder up to encode_plus/minus/neg/gte/eq/bvuge, for all widths and all assignments'),
 'E02': P(['u_ops', 'u_stats', 'u_canon'], [ex_eager.e02], 'random scripts through solve, unsat answers checked by z3.', 'the bits of sums, differences, negations and constants, and the terms of the comparisons, from the adder up to encode_plus/minus/neg/gte/eq/bvuge, for all widths and all assignments; every constraint that is added can be satisfied by choosing the fresh bits; the search width covers the documented bound of the partition'),
 'E03': P(['u_adder', 'u_bits', 'u_ops'], [ex_eager.e03], 'all operand values at small widths, random ones at large widths, through solve.', 'the bits of sums, differences, negations and constants, and the terms of the comparisons, from the adder up to encode_plus/minus/neg/gte/eq/bvuge, for all widths and all assignments; every constraint that is added can be satisfied by choosing the fresh bits'),
 'E04': P(['u_adder', 'u_bits', 'u_ops'], [ex_eager.e04], 'all operand values at small widths, random ones at large widths, through solve.', 'the bits of sums, differences, negations and constants, and the terms of the comparisons, from the adder up to encode_plus/minus/neg/gte/eq/bvuge, for all widths and all assignments'),
 'E05': P(['u_canon'], [ex_eager.e05], 'random constraints, normal form compared by z3.', 'every step of the normalisation (sums, grouping of variables, constraints, chains of comparisons, distinct, exclusive or, if-then-else with its new variable) keeps the value of the term under every assignment, for all terms'),
 'E06': P(['u_bits'], [ex_eager.e06], 'literals and bit patterns up to 200 bits.', 'the bit iterators yield the bits of a constant or variable in order and constant bits have the value of the constant'),
 'E07': P(['u_stats'], [ex_eager.e07], 'random scripts, printed statistics against an independent computation.', 'the statistics and the bound: after a visit every constraint of the formula is in the statistics of one partition together with all its variables, coefficients, constants and its width, variables of one constraint are in one partition, nothing gathered is lost when partitions are joined, and the width of every variable covers the documented bound of its partition'),
 'E08': P(['u_plus'], [ex_eager.e08], 'random scripts, layout of the bits read through the hook.', 'fresh bits of sums and Booleans are numbered above all earlier ones and are disjoint from them'),
 'U01': P(['u_z3esc'], [U.u01], 'literals over a small alphabet up to length 6 and random ones.', 'convert_z3escapes returns exactly the documented conversion of every string.'),
 'U02': P(['u_modern'], [U.u02], 'random scripts against a reference translation.', 'every old function becomes its SMT-LIB 2.6 counterpart with the same arguments in order, re.nostr becomes re.none, literals are converted, every other variable, constant and function stays, at every depth (the traversal of terms by aws-smt-ir and printing assumed)'),
 'U03': P(['u_modern'], [U.u03], 'random scripts against a reference translation.', 'the command list, for every script: unchanged in order, and with exactly one set-logic after the leading options, of the right logic, when there was none (the traversal of terms by aws-smt-ir assumed)'),
 'T01': P(['u_props', 'u_litprops'], [T.t01], 'all pairs of 97 property sets; properties of literals of random partitions.', 'merge, new and update_with_truths combine as the join of the requirements; after setup_string_lit_oriented_props every literal of every partition asks for what all functions of all its partitions need, and where characters count one by one so does every character of it'),
 'T02': P(['u_fct'], [T.t02], 'every string function with its possible arguments.', 'the tables of required properties, for every function and argument position'),
 'T03': P(['u_charmap', 'u_charinit'], [T.t03], 'random queries with ranges, digits and illegal characters.', 'mapping a literal character by character: injective, order and membership of every range kept, no illegal value, earlier images kept; completion of the ranges; grouping of overlapping ranges; after initialize_charmap every range that the query mentions is a range of the mapping and the digits are kept as needed, so that mapping starts in a state where all this holds'),
 'T04': P(['u_charmap', 'u_recon'], [T.t04], 'random mappings and models.', 'the mapping that is inverted is injective and complete on every range; the reverse map takes every image back to its character, changes only characters of the mapping and is one-to-one on all characters, so that mapping a string back is the inverse of mapping it and different values stay different; names come back; the assertion for every value of an affected variable, placed before each check-sat, everything else as it was (parsing and printing of commands assumed)'),
 'T05': P(['u_subf', 'u_ident'], [T.t05], 'random queries, output mapped back and compared; satisfiability by z3.', 'for every list of commands without let, match and quantifiers, of any size: reconstruct_orig_query_shape gives the commands, in order, with the defined variables substituted (nested definitions too), so that no output assertion mentions a variable defined before it; it drops only declarations of new variables and assertions that hold wherever the new variables have their defined values; what satisfies the query satisfies the output, and what satisfies the output and gives the new variables their defined values satisfies the query; the first pass (IdentifyStringsBuilder) renames every declared symbol, at its declaration and at every use, each declaration to another name, replaces the string functions by new variables that have their values, so that every model of the renamed query extends to them, and asserts exactly that', ['the traversal of terms and commands by aws-smt-ir; other commands contain no terms']),
 'T06': P(['u_json'], [T.t06], 'all property sets, random mappings, mappings of random queries through a file.', 'the conversions between the mapping and its JSON structures, for all values: every list says exactly what the map or set says, property sets and per-string metadata come back unchanged whatever they require (serde itself, its derive attributes and the file system assumed)'),
 'T07': P(['u_graph', 'u_ident'], [T.t07], 'random forests and well-typed call graphs against a reference.', 'for every acyclic call graph: links and constraint-variable ids stay symmetric and right, propagation ends without an error, what a function is built from and used to build is exactly what is reachable through functions that pass information on, the partitions are exactly those of the documented cliques and are never lost, every node is in one, and when Boolean results are no arguments the partition of a function covers it and all it is built from, with their functions and literals; the constraint variables in a partition with a variable are found by name; the call graph that the first pass builds has a function for every string function of the query with its declared literals, variables, edges and siblings'),
 'T08': P(['u_subf'], [T.t08], 'random queries against an independent enumeration.', 'for every list of commands without let, match and quantifiers, of any size: the listing has exactly the function applications of the assertions, in evaluation order, each renamed by order of first appearance within it; two entries are equal if and only if the subformulas are equal up to a one-to-one renaming of variables; the JSON object holds the printed entries in order', ['the traversal of terms and commands by aws-smt-ir; other commands contain no terms; format!("v{}", n) is different for different n; serde_json']),
 'T09': P(['u_norec'], [T.t09], 'random queries in no-reconstruct mode, also with a global map.', 'for every list of literals and every state of the mapping: the compressing mapping ends, its indices are in range, different literals have different images, an image is never that of another range endpoint, an image is empty only for the empty literal, and it has the length and the digits that the properties of the literal ask for; literals mapped before keep their image; the result of a query that is added to the state keeps all this', ['the mapping starts in the state that initialize_charmap leaves (shown in u_charinit for characters, ranges and digits; no literal mapped yet)', 'a mapping loaded from a file has entries with the lengths and digits that it records', 'what the kept substrings of an image are is only explored']),
 'P01': P(['u_pred'], [ex_pred.p01], 'random benchmark lists for every dataset kind.', 'each operator is counted in its own counter, once per application; header and row of every dataset kind have the same columns, each value in the column of its counter; the rows are those of the listed benchmarks in order (parsing and the traversal of terms assumed)'),
}
