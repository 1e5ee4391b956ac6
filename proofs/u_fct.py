"""The tables of string functions (T02): result sort, argument positions, requirements, relevant arguments."""
from tr_common import *
F, G = TR + 'transpiler.rs', TR + 'string_fcts.rs'
SPEC = r'''
/// result sort in the theory of strings
pub open spec fn sort_of(f: StringFct) -> IdentType {
    match f {
        StringFct::LexOrd | StringFct::RefClosLexOrd | StringFct::PrefixOf | StringFct::SuffixOf | StringFct::Contains | StringFct::InRe
        | StringFct::IsDigit | StringFct::StrEquality | StringFct::Distinct => IdentType::BoolType,
        StringFct::Len | StringFct::IndexOf | StringFct::ToCode | StringFct::ToInt => IdentType::IntType,
        StringFct::StrConcat | StringFct::SingStrAt | StringFct::Substr | StringFct::Replace | StringFct::ReplaceAll | StringFct::ReplaceRe
        | StringFct::ReplaceReAll | StringFct::FromCode | StringFct::FromInt => IdentType::StringType,
        StringFct::NO_OP => IdentType::ConstraintVarType,
        _ => IdentType::RegexStringType,
    }
}
/// what has to be kept for the function to mean the same on mapped strings
pub open spec fn needed(f: StringFct, args: StringFctArgs) -> Req {
    let n = none_required();
    match f {
        StringFct::Contains | StringFct::InRe | StringFct::PrefixOf | StringFct::SuffixOf | StringFct::Replace | StringFct::ReplaceAll
        | StringFct::ReplaceRe | StringFct::ReplaceReAll | StringFct::Substr | StringFct::ToRe | StringFct::StrConcat => Req { sub: true, ..n },
        StringFct::ReConcat => Req { len: true, sub: true, ..n },
        StringFct::SingStrAt | StringFct::IndexOf => Req { len: true, sub: true, ..n },
        StringFct::Len | StringFct::RePow | StringFct::ReLoop => Req { len: true, ..n },
        StringFct::IsDigit => Req { ints: 1, ..n },
        StringFct::ToCode | StringFct::FromCode | StringFct::ToInt | StringFct::FromInt => Req { ints: 2, ..n },
        StringFct::ReRange => match args {
            StringFctArgs::ReRange(a, b) => Req { ranges: Set::empty().insert((a, b)), sub: true, ..n },
            _ => everything(),
        },
        StringFct::LexOrd | StringFct::RefClosLexOrd => everything(),
        _ => n,
    }
}
/// which arguments of the function make every character of a literal count
pub open spec fn position(f: StringFct) -> VarArgPositionCharSubstring {
    match f {
        StringFct::StrConcat | StringFct::ReConcat => VarArgPositionCharSubstring::Any,
        StringFct::Contains | StringFct::Substr => VarArgPositionCharSubstring::RightMost,
        StringFct::PrefixOf | StringFct::SuffixOf | StringFct::IndexOf | StringFct::Replace | StringFct::ReplaceAll | StringFct::ReplaceRe
        | StringFct::ReplaceReAll => VarArgPositionCharSubstring::LeftMost,
        _ => VarArgPositionCharSubstring::No,
    }
}
pub open spec fn lower(a: char, b: char) -> char { if a as u32 <= b as u32 { a } else { b } }
pub open spec fn upper(a: char, b: char) -> char { if a as u32 <= b as u32 { b } else { a } }
pub open spec fn one_ascii(s: Seq<char>) -> bool { s.len() == 1 && (s[0] as u32) < 128 }
// assumed: a string of one byte is one ASCII character
#[verifier::external_body]
pub fn vx_len(s: &String) -> (n: usize) ensures (n == 1) == one_ascii(s@), n == 0 <==> s@.len() == 0 { s.len() }
#[verifier::external_body]
pub fn vx_first(s: &String) -> (c: char) requires s@.len() > 0, ensures c == s@[0] { s.chars().next().unwrap() }
#[verifier::external_body]
pub fn vx_min(a: char, b: char) -> (c: char) ensures c == lower(a, b) { std::cmp::min(a, b) }
#[verifier::external_body]
pub fn vx_max(a: char, b: char) -> (c: char) ensures c == upper(a, b) { std::cmp::max(a, b) }
#[verifier::external_body]
pub fn vx_to_string(s: &String) -> (r: String) ensures r@ == s@ { s.to_string() }
'''
def build(u):
    u.add(HEAD)
    types(u)
    u.add(PROPS_SPEC + SPEC)
    fns(u)
def types(u):
    props_types(u)
    u.item(G, 'enum', 'StringFct', prefix='#[derive(Clone, Copy)]\n#[allow(non_camel_case_types)]\npub ')
    u.item(G, 'enum', 'StringFctArgs', prefix='pub ')
def fns(u):
    u.add('impl KeepInts {')
    u.fn(F, 'KeepInts::merge', ensures='rank(r) == max(rank(*ki1), rank(ki2))', ret='r')
    u.add('}\nimpl StringSetProperties {')
    u.fn(F, 'StringSetProperties::new', ensures='r.req() == none_required()', ret='r')
    u.fn(F, 'StringSetProperties::update_with_truths', ret='r', rules=[UNION],
         ensures='r.req() == both(old(self).req(), new_props.req()), final(self).req() == old(self).req()')
    u.add('}\nimpl StringFct {')
    u.fn(G, 'StringFct::string_fct_return_type', ret='r', ensures='r == sort_of(*self)')
    u.fn(G, 'StringFct::get_var_position_implies_char_substrings', ret='r',
         ensures='position(*self) != VarArgPositionCharSubstring::No ==> r == position(*self) || r == VarArgPositionCharSubstring::Any')
    u.fn(G, 'StringFct::get_required_props', ret='r', ensures='weaker(needed(*self, args), r.req())')
    u.fn(G, 'StringFct::get_args', ret='r', ensures='''
        r matches StringFctArgs::Contains(s) ==> *self == StringFct::Contains && lits@.len() == 1 && s@ == lits@[0]@,
        r matches StringFctArgs::ReRange(a, b) ==> *self == StringFct::ReRange && lits@.len() == 2 && lits@[0]@.len() == 1 && lits@[1]@.len() == 1
            && a == lower(lits@[0]@[0], lits@[1]@[0]) && b == upper(lits@[0]@[0], lits@[1]@[0]),
        *self == StringFct::Contains && lits@.len() == 1 ==> r is Contains,
        *self == StringFct::ReRange && lits@.len() == 2 && one_ascii(lits@[0]@) && one_ascii(lits@[1]@) ==> r is ReRange''',
        rules=[('desugar', 'if let [ $s:id ] = $l:id { $b }', 'if $l.len() == 1 { let $s = &$l[0]; $b }', '*'),
               ('desugar', 'if let [ $s:id , $t:id ] = $l:id { $b }', 'if $l.len() == 2 { let $s = &$l[0]; let $t = &$l[1]; $b }', '*'),
               ('desugar', '$s:id . chars ( ) . next ( ) . unwrap ( )', 'vx_first($s)', '*'),
               ('desugar', '$s:id . to_string ( )', 'vx_to_string($s)', '*'),
               ('desugar', '$s:id . len ( ) == 1 && $t:id . len ( ) == 1', 'vx_len($s) == 1 && vx_len($t) == 1', '*'),
               ('desugar', 'std :: cmp :: min (', 'vx_min (', '*'), ('desugar', 'std :: cmp :: max (', 'vx_max (', '*')])
    u.add('}')
