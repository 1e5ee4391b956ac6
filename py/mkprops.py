#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

EA='amzn-smt-eager-arithmetic/src/'
UP='amzn-smt-string-fct-updater/src/'
TR='amzn-smt-string-transformer/src/'
PR='amzn-smt-prediction/src/'
SUP=('Quantifier-free linear integer arithmetic with Booleans, ite, let, distinct over integers, uninterpreted functions and '
     'declared bit-vector constants (unsigned <=): the operators the solver accepts without reporting an error.')

prop('E01','A reported model satisfies every assertion of the script',
 'Whenever the arithmetic solver answers "sat" and gives a model, evaluating every assertion of the original script under that model '
 '(with the usual integer and Boolean meaning) yields true, and the model gives a value of the declared sort to every declared constant and function the assertions need.',
 ['inputs','programs'], SUP+' For every such script and every satisfying assignment the SAT solver may return.',
 'The tests solve five fixed scripts with one SAT assignment each; the statement ranges over all formulas, coefficient sizes, bit widths and over every assignment a SAT solver may pick.',
 [EA+'encoding.rs',EA+'canonicalize.rs',EA+'lib.rs',EA+'stats.rs'],
 [('boolean encoding of integer terms','Encoder::{fold_theory_op,fold_core_op,encode_plus_bitwise,encode_minus,encode_gte,encode_eq}'),
  ('normalisation of integer constraints','Canonicalizer::{normalize_constraint,canonicalize_plus,fold_core_op,fold_theory_op}'),
  ('reading the model back','Encoder::decode, reconstruct')],
 [('implied','constraints tying bits of sums to bits of summands','Encoder.implied')],
 ['return value of solve / solve_with_varisat'])

prop('E02','A satisfiable script is never reported unsatisfiable',
 'Whenever a supported script has an integer solution, the arithmetic solver answers "sat": neither the finite search range it picks for each variable, nor normalisation, nor the bit-level constraints it adds exclude all solutions.',
 ['inputs','programs'], SUP+' For every such script that has a solution, of whatever size.',
 'The tests check one unsatisfiable and a few satisfiable scripts; an encoding that loses solutions is only visible on formulas whose solutions all lie where it loses them.',
 [EA+'encoding.rs',EA+'canonicalize.rs',EA+'stats.rs',EA+'lib.rs'],
 [('solution width bound','Stats::{determine_special_case,solution_size_upper_bound_bits}, StatsVisitor'),
  ('sum widths grow by one bit','Encoder::encode_plus_bitwise'),
  ('normalisation','Canonicalizer')],
 [('var_bit_width_bounds','bits per integer variable','Encoder')],
 ['return value of solve / solve_with_varisat'])

prop('E03','Encoded sums, differences and multiples are exact at every width',
 'In every assignment that satisfies the constraints the encoding adds, the two\'s complement value of the bits that stand for a sum, difference, negation or constant multiple equals the mathematical result for the values of its operands; and for all operand values there is such an assignment. '
 'This holds for operands of any (also different) widths, negative values and constants included: no overflow, truncation or lost carry.',
 ['inputs'],'All operand widths, all operand values, all mixes of constants and variables, all sequences of operations (results are operands of later operations).',
 'Unit tests look at the bits of two constants and at zipping; sums are only exercised by five scripts with small numbers, so carries into the top bits, sign extension of the narrower operand and cached results are not covered.',
 [EA+'encoding.rs'],
 [('ripple-carry adder with an extra sign bit','adder, Encoder::encode_plus_bitwise'),('subtraction as complement plus one','Encoder::encode_minus, encode_neg'),
  ('sign extension of the narrower operand','Encoder::zip_bits'),('multiplication as repeated addition','Encoder::fold_theory_op')],
 [('encoded','results of operations already encoded','Encoder.encoded')],['values of sums in models returned by solve'])

prop('E04','Encoded comparisons decide exactly the integer or bit-vector order',
 'The Boolean term that the encoding produces for >=, >, <=, <, = over integers is true in exactly the assignments in which the relation holds between the two\'s complement values of the operands, and that for unsigned bit-vector <= exactly when it holds between their unsigned values; chained relations hold iff every adjacent pair is related. '
 'This holds for operands of any, also different, widths.',
 ['inputs'],'All operand widths and values, signs, constants and variables on either side, any number of chained arguments.',
 'The tests compare a few small positive numbers; sign handling, unequal widths, the least significant bit and constants on either side are not exhausted.',
 [EA+'encoding.rs'],
 [('bitwise signed and unsigned comparison','Encoder::{encode_gte,encode_unsigned_gte_bitwise,encode_bvuge,encode_eq}'),
  ('operators expressed through >=','Encoder::fold_theory_op')],
 [],['verdict and models of solve on comparisons'])

prop('E05','Normalising integer constraints preserves their meaning',
 'For every integer assignment, a normalised constraint or sum is true (has the same value) exactly when the original one is (has): flattening, collecting equal variables, cancelling, moving terms and constants across the relation, expanding chained and distinct relations and replacing ite by a fresh variable change nothing. '
 'The result has the documented normal form: a sum of distinct, non-cancelled summands on the left, at most one summand or a constant on the right.',
 ['inputs'],'All linear integer terms and constraints, all coefficients (zero, negative, repeated variables) and all assignments.',
 'The test normalises five hand-picked constraints and compares them syntactically; cancellation, sign and regrouping errors depend on the combination of summands.',
 [EA+'canonicalize.rs'],
 [('collecting and cancelling summands','Canonicalizer::canonicalize_plus_inner (group_same_vars), canonicalize_plus'),
  ('moving everything to one side','Canonicalizer::normalize_constraint'),('negation of terms','Canonicalizer::negate')],
 [],['normalised script (public solve on equivalent scripts)'])

prop('E06','Numbers and bit patterns are read and written as two\'s complement',
 'A non-negative integer literal becomes exactly its binary digits followed by a 0 sign bit, a binary literal stands for the bits written (most significant first), and a bit assignment for a variable is turned back into the integer with that two\'s complement value (negative ones as negations) or into the bit-vector literal written most significant bit first. '
 'This holds at every width, also beyond 64 bits.',
 ['inputs'],'All literals and all bit assignments of all widths (1 bit and up).',
 'Tests check 0, 1, 2, 3, 5 and 6; widths of 64 bits and more, the sign bit weight and the bit order of literals are not covered.',
 [EA+'lib.rs',EA+'encoding.rs'],
 [('bits of constants','ConstantBits, Encoder::constant_bits'),('bits of variables','IntVarBits, Encoder::int_var_bits'),('decoding','Encoder::decode')],
 [],['values in models; literals in scripts'])

prop('E07','The search width is the documented bound of the right partition',
 'The number of bits used for an integer variable is at least the documented bound computed from the constraints of its partition: the number of variables and constraints, the largest coefficient and constant by absolute value, the number of constraints that are not separation constraints and the largest number of summands. '
 'Variables that occur together in a constraint (directly or through others) are in the same partition, whatever the order in which constraints are met.',
 ['inputs','histories'],'All normalised formulas, all orders of constraints, all groupings of variables.',
 'One test checks that two unrelated constraints get different widths; the values of the statistics and of the formula, and merging partitions, are not checked.',
 [EA+'stats.rs'],
 [('statistics of a partition','Stats, StatsVisitor::visit_constraint/visit_const/visit_var/visit_theory_op'),
  ('merging partitions','StatsRef::unify_values, set_current_patition'),('bound formula','Stats::solution_size_upper_bound_bits, determine_special_case')],
 [('Stats','constraints, vars, mu_a, mu_b, w','stats.rs')],['printed partition statistics and bound; width of variables in the encoding'])

prop('E08','Different integer, Boolean and bit-vector unknowns never share a bit',
 'Every constant of the script, every intermediate sum and every fresh Boolean gets its own propositional variables: no two of them overlap, none is numbered zero, a repeated request for the same constant returns the same bits, and the number of bits is the width asked for.',
 ['histories'],'All sequences of allocations, of all widths, interleaved with repeated look-ups.',
 'The tests never inspect the allocation; overlapping bits only show as wrong verdicts on formulas that constrain both owners.',
 [EA+'encoding.rs',EA+'lib.rs'],
 [('bump allocation','Encoder::{advance_next_bool_var,new_bool_var,new_int_var,var}'),('bit ranges','Encoder::{int_var_bits,bit_vec_bits}, IntVarBits')],
 [('next_bool_var','first number not handed out','Encoder'),('bit_vars, bv_bit_vars','first bit and width of each unknown','Encoder')],
 ['models of scripts with many constants'])

prop('U01','Z3 escape sequences are converted exactly',
 'In every string literal the updater replaces exactly the Z3 escape sequences (\\xHH with two hex digits, \\a, \\b, \\f, \\n, \\r, \\t, \\v, scanned left to right) by the corresponding \\u{..} escape and leaves every other character as it is, incomplete sequences at the end of the literal or before another backslash included.',
 ['inputs'],'All strings, of all lengths, over all characters.',
 'The crate has no tests; escape handling depends on what precedes and follows a backslash.',
 [UP+'transpiler.rs'],[('escape scanner','convert_z3escapes'),('applied to string literals only','ModernizeStringsBuilder::fold_const')],
 [],['literals of the output script'])

prop('U02','Only the old string functions are rewritten, each to its equivalent',
 'Every application of str.to.re, str.in.re, str.to.int, int.to.str and three-argument re.loop and every use of re.nostr becomes its SMT-LIB 2.6 equivalent with the same arguments in the same order (the two bounds of re.loop become indices), at any nesting depth. '
 'Every other term, command and symbol is printed unchanged, in the same order.',
 ['inputs','programs'],'All scripts, all nestings of old and new functions, in any command that contains terms.',
 'The crate has no tests at all.',
 [UP+'transpiler.rs'],[('function renaming','ModernizeStringsBuilder::fold_uninterpreted_func'),('constant renaming','ModernizeStringsBuilder::fold_var')],
 [],['output script'])

prop('U03','Exactly one set-logic, after leading options, with the right logic',
 'A non-empty script without a set-logic command gets exactly one, placed directly after the set-option commands that open it: QF_SLIA if it uses integer arithmetic (+, -, *, comparisons) anywhere, QF_S otherwise. '
 'A script that has a set-logic command keeps it and gets no other, and the rest of the commands keep their order.',
 ['inputs','programs'],'All scripts: any number and placement of options, set-logic commands and arithmetic operators.',
 'The crate has no tests at all.',
 [UP+'transpiler.rs'],[('guess and insertion','modernize_string_fcts'),('arithmetic detection','ModernizeStringsBuilder::fold_theory_op'),('logic detection','ModernizeStringsBuilder::fold_set_logic')],
 [('has_arith, logic','what was seen so far','ModernizeStringsBuilder')],['output script'])

prop('T01','Required string properties are combined without losing any',
 'Combining the properties that two uses of a string require keeps every requirement of both: length, substrings, prefix/suffix overlaps, all character ranges and the stricter of the two digit requirements, and "change nothing" absorbs everything. '
 'The combination does not depend on order or grouping, and combining twice changes nothing.',
 ['inputs','histories'],'All pairs and sequences of requirement sets.',
 'The crate has no tests; losing one requirement shows only in queries that need exactly that one.',
 [TR+'transpiler.rs'],[('combination','StringSetProperties::update_with_truths, KeepInts::merge')],
 [('StringSetProperties','what must be preserved','transpiler.rs')],['public API'])

prop('T02','Each string function requires the documented string properties',
 'For every SMT-LIB string function (old and new spelling) the tool recognises the name and requires at least what the function\'s meaning depends on: length for len, at, indexof, loop, power and regex concatenation; substrings for containment, prefix, suffix, replace, substr, in_re, to_re, at, indexof, concatenation and range; digits for is_digit and exact digits for integer and code conversions; the character range for range; nothing may change for lexicographic order. '
 'Result types are those of the SMT-LIB signatures.',
 ['inputs','configurations'],'All string functions and all their literal arguments.',
 'No tests; the tables have one entry per function and a wrong entry only shows in queries that use that function in the right context.',
 [TR+'string_fcts.rs'],[('tables','StringFct::{get_required_props,get_args,string_fct_return_type,get_var_position_implies_char_substrings}, STRING_FCTS')],
 [],['public API; transformed queries'])

prop('T03','The character mapping is injective and keeps length, ranges and digits',
 'In char-to-char mode different characters are always mapped to different characters, the same character to the same one, and every string to a string of the same length, character by character. '
 'When the query mentions a character range, characters in the range are mapped into the image of the range and others outside it; when it needs the values of digits, digits are mapped to themselves.',
 ['inputs','histories'],'All sets of literals and ranges of a query, all orders in which strings are met, and models that use characters not mentioned in the query.',
 'No tests; collisions need specific combinations of ranges, digits and skipped characters.',
 [TR+'string_mappings.rs',TR+'transpiler.rs'],
 [('allocation of the next character','update_and_get_next_char, map_string_char_to_char'),('ranges','CharMap::{initialize_charmap_with_ranges,group_overlapping_ranges,get_range_for_char}'),
  ('digits','CharMap::initialize_charmap_for_ints'),('rest of the ranges','populate_ranges')],
 [('char_map, ranges, non_range_offset','current mapping and next free characters','CharMap')],['mapping file; transformed literals'])

prop('T04','Reconstruction is the inverse of the character mapping',
 'In char-to-char mode, mapping a string back with the mapping file returns the original string, characters that are not part of the mapping stay unchanged unless they are needed to keep the reverse mapping one-to-one, and variables get their original names back; so the values of a model of the transformed query become values of a model of the original query. '
 'The assertions are added before the check-sat and the rest of the query is unchanged.',
 ['inputs'],'All mappings that the tool produces, all strings and models over all characters.',
 'No tests; needs mappings that overlap their own image.',
 [TR+'reconstruct_tools.rs',TR+'mapping_tools.rs'],[('reverse maps','Mapping::{get_re_map,get_un_alpha_map}'),('string reconstruction','reconstruct_string, build_string_var_assertions')],
 [],['<file>_recon_check output'])

prop('T05','A char-to-char transformed query is the original up to renaming',
 'In char-to-char mode the transformed query, with the introduced definitions substituted back, is the original query with variables renamed one-to-one and every string literal replaced by its image under one injective character mapping; therefore (for queries without functions that depend on character codes or order) it is satisfiable exactly when the original is. '
 'A query with an unsupported function is reported as failed and never output as if transformed.',
 ['inputs','programs'],'All queries without let and ite over strings, in the string theory, Booleans and integers, any nesting and sharing of string functions.',
 'No tests; sharing of string functions, equalities between string functions and literals in different contexts interact.',
 [TR+'transpiler.rs',TR+'transpiler_visitors.rs',TR+'callgraph.rs',TR+'subformula_parser.rs'],
 [('naming string functions','IdentifyStringsBuilder::{process_string_fct,inspect_parameters,fold_*}'),('replacing literals','compute_replacement_strings, SimplifyStringsBuilder'),('substituting back','reconstruct_orig_query_shape')],
 [],['transformed query, mapping file'])

prop('T06','Mapping metadata survives the round trip through JSON',
 'Writing a mapping to its JSON file and reading it back returns the same character map, string map, variable lists, renamings and per-string metadata, including every combination of required properties and every character that strings may contain.',
 ['inputs'],'All mappings and property sets.',
 'No tests; the digit requirement is stored as text and parsed by hand.',
 [TR+'mapping_tools.rs',TR+'transpiler.rs'],[('conversion','StringSetPropertiesJson::{new,to_string_set_props}, MappedStringMetaObjJson::{new,to_meta_obj}, Mapping::{new,build_from_json_file}')],
 [],['<file>_mapping.json'])

prop('T07','The call graph links and propagates exactly what is connected',
 'After any sequence of additions, parent/child links are symmetric, siblings are mutual and never include the node itself, unknown nodes are rejected without changing the graph, and updates only add. '
 'After propagation every node\'s "built from" set contains everything reachable through its children and "used to build" everything through its parents (up to the functions at which information is lost), and variables used with a node in a common function see its functions and literals.',
 ['histories','inputs'],'All sequences of additions and links (acyclic), all orders of propagation.',
 'No tests; wrong propagation shows only as a missing requirement on some string far away in the query.',
 [TR+'forest.rs',TR+'callgraph.rs'],[('node updates','Forest::update_node_at_index, Node::*'),('links','CallGraph::{add_call,add_parent_child,add_direct_siblings}'),('propagation','CallGraph::{propagate_along_path,propagate_through_relnodes,propagate_all}')],
 [('forest, symbol_map, partitions','the graph','CallGraph')],['public API'])

prop('T08','Subformulas are listed once each with variables named by appearance',
 'The subformula listing contains one entry per function application of the query, in evaluation order, each with its variables renamed v0, v1, ... by first appearance within that subformula, so two entries are equal exactly when the subformulas are equal up to a one-to-one renaming of variables.',
 ['inputs','programs'],'All queries, all sharing and repetition of variables.',
 'No tests.',
 [TR+'subformula_parser.rs'],[('collection','StringSubformulaCountBuilder::fold_term'),('normalisation','VariableNameNormalizer, find_string_subforumlas')],
 [('cur_vars','names given so far in this subformula','VariableNameNormalizer')],['subformula JSON'])

prop('T09','The compressing mapping keeps strings distinct and required lengths',
 'In no-reconstruct mode different string literals are mapped to different strings, the empty string to the empty string and non-empty ones to non-empty ones; where the query depends on lengths the length is kept, and where it depends on digit values the digits are kept. '
 'A string that cannot be mapped this way makes the tool fall back or fail; it never loops for ever and never reuses a string.',
 ['inputs','histories'],'All sets of string literals and required properties of a query, in every order in which strings are met.',
 'No tests; collisions need several literals whose compressed forms coincide.',
 [TR+'string_mappings.rs',TR+'transpiler.rs'],
 [('compression','gen_string_keep_ranges, gen_string_keep_substrings, gen_string_freeforall, map_string_no_reconstruct'),('avoiding repetition','fix_repeated_string, is_range_endpoint')],
 [('string_map','strings mapped so far','CharMap')],['mapping file; transformed literals'])

prop('P01','Feature counts are exact and in the column their header names',
 'Each output row counts, for one benchmark, exactly the applications of each string operator in its assertions (each application once, at any depth), and every value stands in the column whose header names that operator, for each of the supported dataset kinds; rows appear in the order of the benchmark list.',
 ['inputs','configurations'],'All benchmark files, all operators, all dataset kinds.',
 'No tests; 35 counters and three hand-written column lists.',
 [PR+'main.rs'],[('counting','StringCounter::visit_theory_op'),('columns','string_counter_csv_header, string_counter_csv_{all,smtcomp,kepler}')],
 [('StringCounter','counts','main.rs')],['off_features_<name>.csv'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
