"""Declarations shared by the units of the string transformer."""
TR = 'amzn-smt-string-transformer/src/'
def props_types(u):
    """the enums of transpiler.rs and string_fcts.rs, as they are declared there"""
    for f, n in ((TR + 'transpiler.rs', 'KeepInts'), (TR + 'transpiler.rs', 'StringSetProperties'), (TR + 'transpiler.rs', 'IdentType'),
                 (TR + 'transpiler.rs', 'VarArgPositionCharSubstring')):
        u.item(f, 'enum', n, prefix='pub ' if n != 'KeepInts' else '#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub ')
HEAD = r'''
use std::collections::HashSet;
use std::collections::HashMap;
'''
PROPS_SPEC = r'''
/// what a set of requirements says, with the digit requirement as a rank
pub struct Req { pub all: bool, pub len: bool, pub ranges: Set<(char, char)>, pub ints: int, pub sub: bool, pub ps: bool }
pub open spec fn rank(k: KeepInts) -> int { match k { KeepInts::No => 0, KeepInts::AsInts => 1, KeepInts::ExactInts => 2 } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn none_required() -> Req { Req { all: false, len: false, ranges: Set::empty(), ints: 0, sub: false, ps: false } }
pub open spec fn everything() -> Req { Req { all: true, ..none_required() } }
impl StringSetProperties {
    pub open spec fn req(self) -> Req {
        match self {
            StringSetProperties::Some { len, ranges, keep_ints, keep_substrings, keep_prefix_suffix } =>
                Req { all: false, len: len, ranges: ranges@, ints: rank(keep_ints), sub: keep_substrings, ps: keep_prefix_suffix },
            StringSetProperties::Everything => everything(),
        }
    }
}
/// the weakest set of requirements that contains both
pub open spec fn both(a: Req, b: Req) -> Req {
    if a.all || b.all { everything() }
    else { Req { all: false, len: a.len || b.len, ranges: a.ranges.union(b.ranges), ints: max(a.ints, b.ints), sub: a.sub || b.sub, ps: a.ps || b.ps } }
}
pub open spec fn weaker(a: Req, b: Req) -> bool {
    b.all || (!a.all && (a.len ==> b.len) && a.ranges.subset_of(b.ranges) && a.ints <= b.ints && (a.sub ==> b.sub) && (a.ps ==> b.ps))
}
/// nothing is lost, nothing is invented, and the order in which requirements are merged does not matter
pub proof fn lemma_both(a: Req, b: Req, c: Req)
    requires a.ints >= 0, a.all ==> a == everything(), b.all ==> b == everything(), c.all ==> c == everything(),
    ensures weaker(a, both(a, b)), weaker(b, both(a, b)), weaker(a, c) && weaker(b, c) ==> weaker(both(a, b), c),
        both(a, b) == both(b, a), both(both(a, b), c) == both(a, both(b, c)), both(a, a) == a, both(none_required(), a) == a,
{
    assert(both(a, b).ranges =~= both(b, a).ranges);
    assert(both(both(a, b), c).ranges =~= both(a, both(b, c)).ranges);
    assert(both(a, a).ranges =~= a.ranges);
    assert(both(none_required(), a).ranges =~= a.ranges);
}
// assumed: hashing and equality of pairs of characters are those of the pairs
pub mod vx_ax { use vstd::prelude::*;
#[verifier::external_body]
pub broadcast proof fn axiom_char_pair_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(char, char)>() {}
}
broadcast use {vx_ax::axiom_char_pair_key, vstd::std_specs::hash::group_hash_axioms};
/// assumed: `a.union(b).cloned().collect()` of the standard library is the union
#[verifier::external_body]
pub fn vx_union(a: &HashSet<(char, char)>, b: &HashSet<(char, char)>) -> (r: HashSet<(char, char)>)
    ensures r@ == a@.union(b@)
{ a.union(b).cloned().collect() }
'''
UNION = ('desugar', '$a:id . union ( & $b:id ) . cloned ( ) . collect ( )', 'vx_union($a, &$b)', '*')
