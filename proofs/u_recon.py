"""Reconstruction (T04): the reverse maps, strings mapped back, the assertions and where they are put."""
from tr_common import *
M, R, V = TR + 'mapping_tools.rs', TR + 'reconstruct_tools.rs', TR + 'transpiler_visitors.rs'
NOTES = 'Assumed: parsing and printing of commands and terms (aws-smt-ir), the file system, str::replace, the standard collections. Required of the mapping: no character twice on either side (that is what T03 proves of populate_ranges), no name twice.'
SPEC = r'''
pub type Text = Seq<char>;
pub type CMap = Map<char, char>;
pub mod vx_ax2 { use vstd::prelude::*;
// assumed: hashing and equality of characters are those of the characters
#[verifier::external_body]
pub broadcast proof fn axiom_char_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<char>() {}
}
broadcast use {vx_ax2::axiom_char_key, vstd::std_specs::hash::group_hash_axioms};
#[verifier::external_body] pub struct MappedStringMetaObjJson { x: () }
// ---- the reverse character map
/// what a list of pairs says as a map
pub open spec fn fwd(v: Seq<(char, char)>) -> CMap decreases v.len() { if v.len() == 0 { Map::empty() } else { fwd(v.drop_last()).insert(v.last().0, v.last().1) } }
pub open spec fn flip(v: Seq<(char, char)>) -> Seq<(char, char)> { v.map_values(|p: (char, char)| (p.1, p.0)) }
/// no character twice on either side
pub open spec fn bij(v: Seq<(char, char)>) -> bool {
    (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0 == (#[trigger] v[j]).0 ==> i == j)
    && (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).1 == (#[trigger] v[j]).1 ==> i == j)
}
pub open spec fn is_img(v: Seq<(char, char)>, c: char) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == c }
pub open spec fn is_key(v: Seq<(char, char)>, c: char) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == c }
pub open spec fn one(m: CMap, c: char) -> char { if m.contains_key(c) { m[c] } else { c } }
/// following the map n times
pub open spec fn it(m: CMap, c: char, n: nat) -> char decreases n { if n == 0 { c } else { one(m, it(m, c, (n - 1) as nat)) } }
pub open spec fn map_str(m: CMap, s: Text) -> Text { s.map_values(|c: char| one(m, c)) }
/// the reverse map of a mapping
pub open spec fn back(v: Seq<(char, char)>, re: CMap) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> re.contains_key((#[trigger] v[i]).1) && re[v[i].1] == v[i].0)
    && (forall|c: char| #[trigger] re.contains_key(c) ==> is_img(v, c) || is_key(v, c))
    && (forall|c: char, d: char| one(re, c) == one(re, d) ==> c == d)
}
pub proof fn lemma_fwd(v: Seq<(char, char)>)
    requires forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0 == (#[trigger] v[j]).0 ==> i == j
    ensures forall|i: int| 0 <= i < v.len() ==> fwd(v).contains_key((#[trigger] v[i]).0) && fwd(v)[v[i].0] == v[i].1, forall|c: char| #[trigger] fwd(v).contains_key(c) ==> is_key(v, c), fwd(v).dom().len() <= v.len()
    decreases v.len()
{   if v.len() > 0 {
        let w = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && (#[trigger] w[i]).0 == (#[trigger] w[j]).0 implies i == j by { assert(v[i] == w[i] && v[j] == w[j]); }
        lemma_fwd(w);
        assert forall|i: int| 0 <= i < v.len() implies fwd(v).contains_key((#[trigger] v[i]).0) && fwd(v)[v[i].0] == v[i].1 by { if i < w.len() { assert(w[i] == v[i]); if v[i].0 == v.last().0 { assert(v[v.len() - 1] == v.last()); } } }
        assert forall|c: char| #[trigger] fwd(v).contains_key(c) implies is_key(v, c) by { if c == v.last().0 { assert(v[v.len() - 1].0 == c); } else { assert(fwd(w).contains_key(c)); let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == c; assert(v[i].0 == c); } }
    } }
pub proof fn lemma_flip(v: Seq<(char, char)>) requires bij(v)
    ensures forall|i: int| 0 <= i < v.len() ==> fwd(flip(v)).contains_key((#[trigger] v[i]).1) && fwd(flip(v))[v[i].1] == v[i].0, forall|c: char| #[trigger] fwd(flip(v)).contains_key(c) <==> is_img(v, c)
{   let w = flip(v);
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && (#[trigger] w[i]).0 == (#[trigger] w[j]).0 implies i == j by { assert(v[i].1 == v[j].1); }
    lemma_fwd(w);
    assert forall|i: int| 0 <= i < v.len() implies fwd(w).contains_key((#[trigger] v[i]).1) && fwd(w)[v[i].1] == v[i].0 by { assert(w[i] == (v[i].1, v[i].0)); }
    assert forall|c: char| #[trigger] fwd(w).contains_key(c) implies is_img(v, c) by { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == c; assert(v[i].1 == c); }
}
/// two characters that the map leads to the same character are the same
pub proof fn lemma_step_back(v: Seq<(char, char)>, c: char, d: char)
    requires bij(v), fwd(v).contains_key(c), fwd(v).contains_key(d), fwd(v)[c] == fwd(v)[d] ensures c == d
{ lemma_fwd(v); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == c; let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == d; assert(v[i].1 == v[j].1); }
/// once outside the keys, always outside
pub proof fn lemma_out(m: CMap, c: char, i: nat, j: nat) requires i <= j, m.contains_key(it(m, c, j)) ensures m.contains_key(it(m, c, i)) decreases j
{ if i < j { if !m.contains_key(it(m, c, (j - 1) as nat)) { assert(it(m, c, j) == it(m, c, (j - 1) as nat)); } lemma_out(m, c, i, (j - 1) as nat); } }
/// a character that nothing is mapped to is not met again: paths from such characters only meet at equal distances
pub proof fn lemma_path(v: Seq<(char, char)>, c: char, d: char, i: nat, j: nat)
    requires bij(v), !is_img(v, c), !is_img(v, d), it(fwd(v), c, i) == it(fwd(v), d, j), forall|k: nat| k < i ==> fwd(v).contains_key(#[trigger] it(fwd(v), c, k)), forall|k: nat| k < j ==> fwd(v).contains_key(#[trigger] it(fwd(v), d, k))
    ensures i == j, c == d decreases i
{   let m = fwd(v); lemma_fwd(v);
    if i > 0 { let x = it(m, c, (i - 1) as nat); assert(m.contains_key(x)); lemma_img(v, x); assert(it(m, c, i) == m[x]); }
    if j > 0 { let y = it(m, d, (j - 1) as nat); assert(m.contains_key(y)); lemma_img(v, y); assert(it(m, d, j) == m[y]); }
    if i > 0 && j > 0 { lemma_step_back(v, it(m, c, (i - 1) as nat), it(m, d, (j - 1) as nat)); lemma_path(v, c, d, (i - 1) as nat, (j - 1) as nat); }
}
pub proof fn lemma_img(v: Seq<(char, char)>, x: char) requires bij(v), fwd(v).contains_key(x) ensures is_img(v, fwd(v)[x])
{ lemma_fwd(v); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x; assert(v[i].1 == fwd(v)[x]); }
/// following the map as often as it has pairs leaves the keys
pub proof fn lemma_leaves(v: Seq<(char, char)>, c: char) requires bij(v), !is_img(v, c) ensures !fwd(v).contains_key(it(fwd(v), c, v.len()))
{   let (m, n) = (fwd(v), v.len()); lemma_fwd(v);
    if m.contains_key(it(m, c, n)) {
        assert forall|k: nat| k <= n implies m.contains_key(#[trigger] it(m, c, k)) by { lemma_out(m, c, k, n); }
        let s = Seq::new((n + 1) as nat, |k: int| it(m, c, k as nat));
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if s[i] == s[j] { lemma_path(v, c, c, i as nat, j as nat); } }
        s.unique_seq_to_set();
        assert(s.to_set().subset_of(m.dom()));
        vstd::set_lib::lemma_len_subset(s.to_set(), m.dom());
    } }
/// where a path leaves the keys
pub open spec fn leaves_at(m: CMap, c: char, i: nat) -> bool { !m.contains_key(it(m, c, i)) && forall|k: nat| k < i ==> m.contains_key(#[trigger] it(m, c, k)) }
pub proof fn lemma_first(m: CMap, c: char, n: nat) -> (i: nat) requires !m.contains_key(it(m, c, n)) ensures i <= n, leaves_at(m, c, i), it(m, c, i) == it(m, c, n) decreases n
{ if n == 0 { 0 } else if !m.contains_key(it(m, c, (n - 1) as nat)) { lemma_first(m, c, (n - 1) as nat) }
  else { assert forall|k: nat| k < n implies m.contains_key(#[trigger] it(m, c, k)) by { lemma_out(m, c, k, (n - 1) as nat); } n } }
/// what the two loops put into the reverse map
pub open spec fn built(v: Seq<(char, char)>, re: CMap, n: int) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> re.contains_key((#[trigger] v[i]).1) && re[v[i].1] == v[i].0)
    && (forall|i: int| 0 <= i < n ==> re.contains_key((#[trigger] v[i]).0))
    && (forall|c: char| #[trigger] re.contains_key(c) && !is_img(v, c) ==> is_key(v, c) && re[c] == it(fwd(v), c, v.len()))
}
pub proof fn lemma_back(v: Seq<(char, char)>, re: CMap) requires bij(v), built(v, re, v.len() as int) ensures back(v, re)
{   let m = fwd(v); lemma_fwd(v);
    assert forall|c: char| #[trigger] re.contains_key(c) && is_img(v, c) implies is_key(v, re[c]) && m[re[c]] == c by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == c; assert(v[i].0 == re[c]); }
    assert forall|c: char| #[trigger] re.contains_key(c) && !is_img(v, c) implies !m.contains_key(re[c]) && is_img(v, re[c]) && re[c] != c by {
        lemma_leaves(v, c); let i = lemma_first(m, c, v.len()); assert(m.contains_key(c)) by { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == c; assert(m.contains_key(v[j].0)); }
        assert(it(m, c, 0) == c); assert(i > 0); let x = it(m, c, (i - 1) as nat); assert(m.contains_key(x)); lemma_img(v, x); assert(it(m, c, i) == m[x]); }
    assert forall|c: char| is_key(v, c) implies #[trigger] m.contains_key(c) && re.contains_key(c) by { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == c; assert(m.contains_key(v[j].0)); }
    assert forall|c: char| is_img(v, c) implies #[trigger] re.contains_key(c) by { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).1 == c; assert(re.contains_key(v[j].1)); }
    assert forall|c: char, d: char| one(re, c) == one(re, d) implies c == d by {
        if re.contains_key(c) && re.contains_key(d) {
            if is_img(v, c) && is_img(v, d) { }
            else if is_img(v, c) { assert(m.contains_key(re[c])); } else if is_img(v, d) { assert(m.contains_key(re[d])); }
            else { lemma_leaves(v, c); lemma_leaves(v, d); let i = lemma_first(m, c, v.len()); let j = lemma_first(m, d, v.len()); lemma_path(v, c, d, i, j); } }
        else if re.contains_key(c) { if is_img(v, c) { assert(re.contains_key(re[c])); } else { assert(re.contains_key(re[c])); } }
        else if re.contains_key(d) { if is_img(v, d) { assert(re.contains_key(re[d])); } else { assert(re.contains_key(re[d])); } }
    } }
/// mapping a string whose characters are all mapped, and mapping it back, is the identity
pub proof fn lemma_round_trip(v: Seq<(char, char)>, re: CMap, s: Text) requires bij(v), back(v, re), forall|i: int| 0 <= i < s.len() ==> is_key(v, #[trigger] s[i]) ensures map_str(re, map_str(fwd(v), s)) == s
{ lemma_fwd(v); assert forall|i: int| 0 <= i < s.len() implies map_str(re, map_str(fwd(v), s))[i] == s[i] by { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == s[i]; assert(re[v[j].1] == s[i]); } assert(map_str(re, map_str(fwd(v), s)) =~= s); }
/// different strings stay different
pub proof fn lemma_distinct(v: Seq<(char, char)>, re: CMap, s: Text, t: Text) requires back(v, re), map_str(re, s) == map_str(re, t) ensures s == t
{ assert(map_str(re, s).len() == s.len() && map_str(re, t).len() == t.len()); assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(map_str(re, s)[i] == one(re, s[i]) && map_str(re, t)[i] == one(re, t[i])); } assert(s =~= t); }
/// assumed (standard library): collecting pairs into a map, the last of equal keys counts
#[verifier::external_body] pub fn vx_collect(v: &Vec<(char, char)>) -> (r: HashMap<char, char>) ensures r@ == fwd(v@) { v.iter().cloned().collect() }
pub struct Chars<'a> { pub v: &'a Vec<char> }
impl<'a> Chars<'a> { /// assumed (standard library): `iter().map(f).collect::<String>()`
    #[verifier::external_body] pub fn vx_map<F: Fn(&char) -> char>(self, f: F) -> (r: String) requires forall|c: &char| f.requires((c,)), ensures r@.len() == self.v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.v@[i],), #[trigger] r@[i]) { self.v.iter().map(f).collect() } }
pub fn vx_iter(v: &Vec<char>) -> (r: Chars) ensures r.v == v { Chars { v } }
'''
SPEC2 = r'''
impl Mapping { pub open spec fn ok(&self) -> bool { bij(self.char_map@) && names_ok(text_pairs(self.alpha_renaming_map@)) } }
pub open spec fn text_pairs(s: Seq<(String, String)>) -> Seq<(Text, Text)> { s.map_values(|x: (String, String)| (x.0@, x.1@)) }
/// no new name twice
pub open spec fn names_ok(v: Seq<(Text, Text)>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).1 == (#[trigger] v[j]).1 ==> i == j }
/// assumed (standard library): a hash map from strings to strings, by their characters
#[verifier::external_body] pub struct StrMap { x: () }
impl StrMap { pub uninterp spec fn view(&self) -> Map<Text, Text>;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: StrMap) ensures r@ == Map::<Text, Text>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: StrMap) ensures r@ == Map::<Text, Text>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&String>) ensures (r is Some) == self@.contains_key(k@), r is Some ==> r->Some_0@ == self@[k@] { unimplemented!() } }
/// new names to old names
pub open spec fn un_names(v: Seq<(Text, Text)>, m: Map<Text, Text>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).1) && m[v[i].1] == v[i].0) && (forall|t: Text| #[trigger] m.contains_key(t) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == t) }
#[verifier::external_body] pub fn vx_has(v: &Vec<String>, s: &String) -> (r: bool) ensures r == v@.map_values(|x: String| x@).contains(s@) { v.contains(s) }
#[verifier::external_body] pub fn vx_chars_of(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
/// every character a replaced by the text b
pub open spec fn replaced(s: Text, a: char, b: Text) -> Text decreases s.len() { if s.len() == 0 { s } else { replaced(s.drop_last(), a, b) + (if s.last() == a { b } else { seq![s.last()] }) } }
/// the character 0 written as the solver wants it
pub open spec fn nul_out(s: Text) -> Text { replaced(s, '\u{0}', "\\x00"@) }
pub trait VxReplace { fn vx_replace(&self, a: char, b: &str) -> (r: String); }
impl VxReplace for String { /// assumed (standard library): replacing a character
    #[verifier::external_body] fn vx_replace(&self, a: char, b: &str) -> (r: String) ensures r@ == replaced(self@, a, b@) { self.replace(a, b) } }
// ---- terms and commands, as far as they matter
#[verifier::external_body] pub struct Opaque { x: () }
pub struct ISymbol(pub String);
impl ISymbol { #[verifier::external_body] pub fn clone(&self) -> (r: ISymbol) ensures r.0@ == self.0@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_from(s: &str) -> (r: ISymbol) ensures r.0@ == s@ { unimplemented!() } }
pub enum Constant { Numeral(Opaque), Decimal(Opaque), Hexadecimal(Opaque), Binary(Opaque), String(String) }
pub struct IConst(pub Box<Constant>);
impl IConst { pub fn as_ref(&self) -> (r: &Constant) ensures *r == *self.0 { &self.0 } }
impl vstd::std_specs::convert::FromSpecImpl<Constant> for IConst { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Constant) -> IConst { IConst(Box::new(b)) } }
impl From<Constant> for IConst { fn from(b: Constant) -> (r: IConst) { IConst(Box::new(b)) } }
pub enum Term { Constant(IConst), Variable(ISymbol), EqOf(Box<Term>, Box<Term>), Rest(Opaque) }
pub enum TermV { Str(Text), Var(Text), EqOf(Box<TermV>, Box<TermV>), Other }
pub open spec fn tv(t: Term) -> TermV decreases t { match t { Term::Constant(c) => match *c.0 { Constant::String(s) => TermV::Str(s@), _ => TermV::Other }, Term::Variable(v) => TermV::Var(v.0@), Term::EqOf(a, b) => TermV::EqOf(Box::new(tv(*a)), Box::new(tv(*b))), Term::Rest(_) => TermV::Other } }
impl Term { #[verifier::external_body] pub fn clone(&self) -> (r: Term) ensures tv(r) == tv(*self) { unimplemented!() } }
pub fn vx_eq(a: Term, b: Term) -> (r: Term) ensures r == Term::EqOf(Box::new(a), Box::new(b)) { Term::EqOf(Box::new(a), Box::new(b)) }
pub struct FunctionDec { pub name: ISymbol, pub parameters: Opaque, pub result: Opaque }
pub enum Command { Assert { term: Term }, CheckSat, DefineFun { sig: FunctionDec, term: Term }, Other(Opaque) }
/// the assertion that a model value asks for: the original variable equals the value mapped back
pub open spec fn asks(m: &Mapping, c: Command) -> Option<(Text, Text)> {
    match c { Command::DefineFun { sig, term } => match term { Term::Constant(k) => match *k.0 { Constant::String(s) => if m.affected_constraint_vars@.map_values(|x: String| x@).contains(sig.name.0@) { Some((sig.name.0@, s@)) } else { None }, _ => None }, _ => None }, _ => None } }
pub open spec fn old_name(v: Seq<(Text, Text)>, n: Text, o: Text) -> bool { forall|m: Map<Text, Text>| #[trigger] un_names(v, m) ==> o == (if m.contains_key(n) { m[n] } else { n }) }
pub proof fn lemma_names(v: Seq<(Text, Text)>, m: Map<Text, Text>, n: Text) requires un_names(v, m) ensures old_name(v, n, if m.contains_key(n) { m[n] } else { n })
{ assert forall|w: Map<Text, Text>| #[trigger] un_names(v, w) implies w.contains_key(n) == m.contains_key(n) && (m.contains_key(n) ==> w[n] == m[n]) by {
    if m.contains_key(n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == n; assert(w.contains_key(v[i].1)); }
    if w.contains_key(n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == n; assert(m.contains_key(v[i].1)); } } }
pub open spec fn answer(m: &Mapping, c: Command, r: Command) -> bool {
    asks(m, c) is Some && exists|re: CMap, o: Text| #[trigger] answer_by(m, c, r, re, o) }
pub open spec fn answer_by(m: &Mapping, c: Command, r: Command, re: CMap, o: Text) -> bool {
    back(m.char_map@, re) && old_name(text_pairs(m.alpha_renaming_map@), asks(m, c)->Some_0.0, o) && said(r) == TermV::EqOf(Box::new(TermV::Var(o)), Box::new(TermV::Str(nul_out(map_str(re, asks(m, c)->Some_0.1))))) }
pub open spec fn said(c: Command) -> TermV { match c { Command::Assert { term } => tv(term), _ => TermV::Other } }
// ---- the query
pub struct Error;
/// how commands are printed
pub uninterp spec fn shown(c: Command) -> Text;
/// joined by line breaks
pub uninterp spec fn joined(s: Seq<Text>) -> Text;
pub open spec fn shown_all(s: Seq<Command>) -> Seq<Text> { s.map_values(|c: Command| shown(c)) }
pub fn vx_panic<T>() -> (r: T) ensures false { loop decreases 0int { vx_stop(); } }
#[verifier::external_body] pub fn vx_stop() ensures false { panic!() }
#[verifier::external_body] pub struct RawCommand { x: () }
/// assumed (aws-smt-ir): the commands that the parser finds in a file, and their conversion
pub uninterp spec fn items(f: Text) -> Seq<Result<RawCommand, Error>>;
pub uninterp spec fn cooked(r: RawCommand) -> Option<Command>;
pub open spec fn cook(r: Result<RawCommand, Error>) -> Command { cooked(r->Ok_0)->Some_0 }
pub open spec fn readable(s: Seq<Result<RawCommand, Error>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok && cooked(s[i]->Ok_0) is Some }
pub open spec fn commands_of(s: Seq<Result<RawCommand, Error>>) -> Seq<Command> { s.map_values(|r: Result<RawCommand, Error>| cook(r)) }
#[verifier::external_body] pub fn vx_stream(f: String) -> (r: Vec<Result<RawCommand, Error>>) ensures r@ == items(f@) { unimplemented!() }
#[verifier::external_body] pub fn vx_convert(c: RawCommand) -> (r: Result<Command, Error>) ensures r is Ok == cooked(c) is Some, r is Ok ==> r->Ok_0 == cooked(c)->Some_0 { unimplemented!() }
pub fn vx_ok<T>(r: Result<T, Error>) -> (x: T) ensures r == Ok::<T, Error>(x) { match r { Ok(x) => x, Err(_) => vx_panic() } }
/// a command is printed the same after cloning
#[verifier::external_body] pub fn vx_clones(v: &Vec<Command>) -> (r: Vec<Command>) ensures shown_all(r@) == shown_all(v@) { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<Command>, w: Vec<Command>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn vx_join(v: &Vec<Command>) -> (r: String) ensures r@ == joined(shown_all(v@)) { unimplemented!() }
/// assumed (standard library): concatenation
#[verifier::external_body] pub fn vx_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[derive(Debug)] pub struct IoError;
pub struct File { pub name: String }
/// the lines of a file, each with its line break
pub uninterp spec fn lines_of(f: Text) -> Seq<Text>;
#[verifier::external_body] pub fn vx_open(f: String) -> (r: Result<File, IoError>) ensures r matches Ok(x) ==> x.name@ == f@ { unimplemented!() }
#[verifier::external_body] pub struct Reader { x: () }
impl Reader { pub uninterp spec fn view(&self) -> Seq<Text>;
    #[verifier::external_body] pub fn vx_new(f: File) -> (r: Reader) ensures r@ == lines_of(f.name@) { unimplemented!() }
    #[verifier::external_body] pub fn read_line(&mut self, l: &mut String) -> (r: Result<usize, IoError>) ensures r is Ok ==> (if old(self)@.len() == 0 { final(l)@ == old(l)@ && final(self)@ == old(self)@ } else { final(l)@ == old(l)@ + old(self)@[0] && final(self)@ == old(self)@.skip(1) && old(self)@[0].len() > 0 }) { unimplemented!() } }
/// assumed (aws-smt-ir): the commands that the parser finds in the remaining lines, what it cannot read left out
pub uninterp spec fn model_items(l: Seq<Text>) -> Seq<RawCommand>;
#[verifier::external_body] pub fn vx_model(r: Reader) -> (v: Vec<RawCommand>) ensures v@ == model_items(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_eqs(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// a mapping file
pub uninterp spec fn mapping_file(f: Text, m: Mapping) -> bool;
#[verifier::external_body] pub fn vx_load(f: &String) -> (r: Result<Mapping, IoError>) ensures r matches Ok(m) ==> mapping_file(f@, m) { unimplemented!() }
pub uninterp spec fn wrote(f: Text, t: Text) -> bool;
#[verifier::external_body] pub fn vx_write(f: String, t: String) ensures wrote(f@, t@) { unimplemented!() }
/// the assertions for a model: one for every value of an affected variable, in order
pub open spec fn answers(m: &Mapping, s: Seq<RawCommand>, a: Seq<Command>) -> bool decreases s.len() {
    if s.len() == 0 { a.len() == 0 }
    else if cooked(s.last()) is Some && asks(m, cooked(s.last())->Some_0) is Some { a.len() > 0 && answer(m, cooked(s.last())->Some_0, a.last()) && answers(m, s.drop_last(), a.drop_last()) }
    else { answers(m, s.drop_last(), a) } }
pub open spec fn has_check(s: Seq<Command>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is CheckSat }
/// the new assertions before every check-sat, everything else as it is
pub open spec fn with_asserts(s: Seq<Command>, a: Seq<Text>) -> Seq<Text> decreases s.len() { if s.len() == 0 { seq![] } else { with_asserts(s.drop_last(), a) + (if s.last() is CheckSat { a } else { seq![] }) + seq![shown(s.last())] } }
'''
SPEC3 = r'''
/// the original query with the assertions for the model, written next to it
pub open spec fn rebuilt(path: Text, ext: Text, m: Mapping, l: Seq<Text>, a: Seq<Command>) -> bool {
    mapping_file(path + "_mapping.json"@, m) && answers(&m, model_items(l), a) && wrote(path + "_recon_check."@ + ext, joined(with_asserts(commands_of(items(path + "."@ + ext)), shown_all(a)))) }
/// what the answer of the solver leads to: the first line says it; a model stands after the second line
pub open spec fn result(path: Text, ext: Text, x: ReconstructResult) -> bool {
    let l = lines_of(path + "_transformed.out"@); let first = if l.len() == 0 { seq![] } else { l[0] };
    match x { ReconstructResult::Unsat => first == "unsat\n"@, ReconstructResult::Timeout => first == "timeout\n"@, ReconstructResult::Unknown => first == "unknown\n"@, ReconstructResult::SatNoModel => first == "sat\n"@,
        ReconstructResult::SatModelBuilt => first == "sat\n"@ && l.len() > 1 && exists|m: Mapping, a: Seq<Command>| #[trigger] rebuilt(path, ext, m, l.skip(2), a) } }
'''
def build(u):
    u.add(HEAD + SPEC)
    u.item(M, 'struct', 'Mapping', prefix='pub ')
    for n in ('ReconstructErr', 'ReconstructResult'): u.item(R, 'enum', n, prefix='pub ')
    lits = sorted({t.t for t in u.src(R).fn('reconstruct_and_add_assertions').body if t.k == 'str' and t.t.endswith('\\n"')})
    num = {l: i + 1 for i, l in enumerate(lits)}
    u.add(SPEC2 + SPEC3)
    u.add('/// the answers of a solver that are told apart\npub open spec fn code(t: Text) -> u64 { ' + ''.join('if t == %s@ { %d } else ' % (l, i) for l, i in num.items()) + '{ 0 } }\n#[verifier::external_body] pub fn vx_code(t: &str) -> (r: u64) ensures r == code(t@) { unimplemented!() }')
    u.add('impl Mapping {')
    u.fn(M, 'Mapping::get_re_map', ret='r', requires='self.ok()', ensures='back(self.char_map@, r@)', rules=[
        ('desugar', 'self . char_map . iter ( ) . cloned ( ) . collect ( )', 'vx_collect(&self.char_map)', '*'),
        ('desugar', 'for _ in & self . char_map { $b* }', '''let mut vx_j: usize = 0; «let ghost vx_c = unused_char;»
while vx_j < self.char_map.len() «invariant vx_j <= v.len(), v == self.char_map@, forward_map@ == fwd(v), unused_char == it(fwd(v), vx_c, vx_j as nat), decreases v.len() - vx_j,» { $b vx_j += 1; }'''),
        ('desugar', 'for ( $a:id , _ ) in & self . char_map { $b* } $r:id }', '''let mut vx_i: usize = 0; «proof { lemma_flip(v); lemma_fwd(v); assert(built(v, $r@, 0)); }»
#[verifier::loop_isolation(false)]
while vx_i < self.char_map.len() «invariant vx_i <= v.len(), v == self.char_map@, bij(v), forward_map@ == fwd(v), built(v, $r@, vx_i as int), decreases v.len() - vx_i,»
{ let $a = &self.char_map[vx_i].0; «let ghost vx_o = $r@; proof { assert(is_key(v, v[vx_i as int].0)); }» $b «proof { if !vx_o.contains_key(v[vx_i as int].0) { assert forall|i: int| 0 <= i < v.len() implies $r@.contains_key((#[trigger] v[i]).1) && $r@[v[i].1] == v[i].0 by { assert(vx_o.contains_key(v[i].1)); } assert(!is_img(v, v[vx_i as int].0)); } }» vx_i += 1; }
«proof { lemma_back(v, $r@); }» $r }'''),
        ('desugar', 'for ( $a:id , $b:id ) in & self . char_map { $x* }', '''«let ghost v = self.char_map@;» let mut vx_i: usize = 0;
while vx_i < self.char_map.len() «invariant vx_i <= v.len(), v == self.char_map@, re_map@ == fwd(flip(v.take(vx_i as int))), decreases v.len() - vx_i,»
{ let $a = &self.char_map[vx_i].0; let $b = &self.char_map[vx_i].1; $x «proof { let w = flip(v.take(vx_i + 1)); assert(w.drop_last() =~= flip(v.take(vx_i as int))); assert(w.last() == (v[vx_i as int].1, v[vx_i as int].0)); }» vx_i += 1; }
«proof { assert(v.take(v.len() as int) =~= v); }»'''),
        ])
    u.fn(M, 'Mapping::get_un_alpha_map', ret='r', requires='self.ok()', ensures='un_names(text_pairs(self.alpha_renaming_map@), r@)', rules=[
        ('type', 'HashMap < String , String >', 'StrMap', '*'), ('type', 'HashMap ::', 'StrMap ::', '*'),
        ('desugar', 'for ( $a:id , $b:id ) in & self . alpha_renaming_map { $x* }', '''«let ghost v = text_pairs(self.alpha_renaming_map@);» let mut vx_i: usize = 0;
while vx_i < self.alpha_renaming_map.len() «invariant vx_i <= v.len(), names_ok(v), v == text_pairs(self.alpha_renaming_map@), un_names(v.take(vx_i as int), re_map@), decreases v.len() - vx_i,»
{ let $a = &self.alpha_renaming_map[vx_i].0; let $b = &self.alpha_renaming_map[vx_i].1; «let ghost vx_o = re_map@;» $x
«proof { let n = vx_i as int; let (p, q) = (v.take(n), v.take(n + 1)); assert(q =~= p.push(v[n]));
    assert(v[n] == ($a@, $b@)); assert(re_map@ == vx_o.insert(v[n].1, v[n].0));
    assert forall|i: int| 0 <= i < q.len() implies re_map@.contains_key((#[trigger] q[i]).1) && re_map@[q[i].1] == q[i].0 by { if i < n { assert(p[i] == v[i]); if v[i].1 == v[n].1 {} } }
    assert forall|t: Text| #[trigger] re_map@.contains_key(t) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == t by { if t == v[n].1 { assert(q[n].1 == t); } else { assert(vx_o.contains_key(t)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == t; assert(q[i].1 == t); } } }»
vx_i += 1; } «proof { assert(v.take(v.len() as int) =~= v); }»''')])
    u.add('}')
    u.fn(R, 'reconstruct_string', ret='r', ensures='r@ == map_str(re_map@, reconstruct_me@)', rules=[
        ('desugar', 'reconstruct_me . iter ( ) . map ( | $c:id | { $b* } ) . collect :: < String > ( )', '{ let vx_r = vx_iter(&reconstruct_me).vx_map(|$c: &char| -> (q: char) «ensures q == one(re_map@, *$c)» { $b }); «proof { assert(vx_r@ =~= map_str(re_map@, reconstruct_me@)); }» vx_r }')])
    u.fn(V, 'new_assert_equal', ret='r', rules=[('desugar', 'CoreOp :: Eq ( [ $a* , $b* ] . into ( ) ) . into ( )', 'vx_eq($a, $b)'), ('desugar', 'Term :: Variable ( new_var_name . into ( ) )', 'Term::Variable(new_var_name)', '*')],
         pre='proof { reveal_with_fuel(tv, 4); }', ensures='r is Assert, said(r) == TermV::EqOf(Box::new(TermV::Var(new_var_name.0@)), Box::new(tv(*t)))')
    u.fn(R, 'build_string_var_assertions', ret='r', requires='new_map.ok()', ensures='r is Some == (asks(new_map, *command) is Some), r is Some ==> answer(new_map, *command, r->Some_0)', rules=[
        ('type', 'mapping_tools :: Mapping', 'Mapping', '*'), ('type', 'crate :: transpiler_visitors :: new_assert_equal', 'new_assert_equal', '*'),
        ('desugar', '. replace ( $x* , $y* )', '.vx_replace($x, $y)', '*'),
        ('desugar', 'new_map . affected_constraint_vars . contains ( $x* )', 'vx_has(&new_map.affected_constraint_vars, $x)', '*'),
        ('desugar', 'const_str . chars ( ) . collect :: < Vec < char > > ( )', 'vx_chars_of(const_str)', '*'),
        ('desugar', 'reconstruct_string ( $a* , $m* , )', 'reconstruct_string ( $a , $m )', '*'),
        ('desugar', 'let $n:id = reconstruct_string ( $a* , $m* ) ;', 'let vx_a = $a; let vx_re = $m; «let ghost vx_m = vx_re@;» let $n = reconstruct_string(vx_a, vx_re);'),
        ('desugar', 'let $n:id = match $u:id . get ( $x* ) {', '«proof { lemma_names(text_pairs(new_map.alpha_renaming_map@), $u@, var_name_str@); reveal_with_fuel(tv, 4); }» let $n = match $u.get($x) {'),
        ('ghost', 'return Some ( $n:id ) ;', '«proof { assert(back(new_map.char_map@, vx_m)); assert(old_name(text_pairs(new_map.alpha_renaming_map@), var_name_str@, var_name.0@)); assert(asks(new_map, *command) == Some((var_name_str@, const_str@))); assert(said($n) == TermV::EqOf(Box::new(TermV::Var(var_name.0@)), Box::new(TermV::Str(nul_out(map_str(vx_m, const_str@)))))); assert(answer_by(new_map, *command, $n, vx_m, var_name.0@)); assert(answer(new_map, *command, $n)); }» return Some($n);'),
        ('desugar', 'ISymbol :: from ( $x* )', 'ISymbol::vx_from($x)', '*'),
        ])
    CAT = [('desugar', '$a:id . clone ( ) + $b:tt', 'vx_cat($a.clone(), $b)', '*'), ('desugar', '$a:id + $b:tt + & $c:id', 'vx_cat(vx_cat($a, $b), $c.as_str())', '*')]
    u.fn(R, 'add_asserts_to_original_problem', ret='r', rules=[
        ('desugar', 'let $f:id = fs :: File :: open ( $p* ) . expect ( $m* ) ; let $r:id = io :: BufReader :: new ( $f2:id ) ; let $q:id = CommandStream :: new ( $x* ) ;', 'let vx_name = $p; «let ghost vx_f = items(vx_name@);» let $q = vx_stream(vx_name);')] + CAT + [
        ('desugar', '$o:id . unwrap_or_else ( | $e:id | panic ! ( $m* ) )', 'vx_ok($o)', '*'),
        ('desugar', 'aws_smt_ir :: convert :: convert_command ( $c:id ) . unwrap ( )', 'vx_ok(vx_convert($c))', '*'),
        ('desugar', '$v:id . extend ( $w:id . clone ( ) ) ;', 'vx_extend(&mut $v, vx_clones(&$w));', '*'),
        ('desugar', '$c:id . iter ( ) . map ( | $o:id | $o2:id . to_string ( ) ) . collect :: < Vec < String > > ( ) . join ( "\\n" )', 'vx_join(&$c)', '*'),
        ('desugar', 'for $o:id in $p:id { $b* }', """let mut vx_p = $p; «let ghost mut vx_n: int = 0; let ghost vx_a = shown_all(new_assertions@);»
while vx_p.len() > 0 «invariant 0 <= vx_n <= vx_f.len(), vx_p@ == vx_f.skip(vx_n), readable(vx_f.take(vx_n)), check_sat_found == has_check(commands_of(vx_f.take(vx_n))), shown_all(commands@) == with_asserts(commands_of(vx_f.take(vx_n)), vx_a), vx_a == shown_all(new_assertions@), decreases vx_p@.len(),»
{ let $o = vx_p.remove(0); «let ghost vx_o = commands@; let ghost vx_item = $o;» $b
  «proof { let (x, y) = (vx_f.take(vx_n), vx_f.take(vx_n + 1)); assert(y =~= x.push(vx_item)); let k = cook(vx_item);
     assert(commands_of(y) =~= commands_of(x).push(k)); assert(commands_of(y).drop_last() =~= commands_of(x));
     if has_check(commands_of(x)) { let i = choose|i: int| 0 <= i < commands_of(x).len() && #[trigger] commands_of(x)[i] is CheckSat; assert(commands_of(y)[i] is CheckSat); }
     if has_check(commands_of(y)) { let i = choose|i: int| 0 <= i < commands_of(y).len() && #[trigger] commands_of(y)[i] is CheckSat; if i < vx_n { assert(commands_of(x)[i] is CheckSat); } }
     if k is CheckSat { assert(commands_of(y)[vx_n] is CheckSat); }
     assert(shown_all(commands@) =~= with_asserts(commands_of(y), vx_a));
     vx_n = vx_n + 1; }» }
«proof { assert(vx_n == vx_f.len()); assert(vx_f.take(vx_n) =~= vx_f); }»"""),
        ], ensures="""({ let f = items(path@ + "."@ + ext@); readable(f) && (r is Err <==> !has_check(commands_of(f))) && (r matches Ok(s) ==> s@ == joined(with_asserts(commands_of(f), shown_all(new_assertions@)))) })""")
    u.fn(R, 'reconstruct_and_add_assertions', ret='r', pre='proof { ' + ''.join('reveal_strlit(%s);' % l for l in lits) + ' }', requires='forall|m: Mapping| #[trigger] mapping_file(path@ + "_mapping.json"@, m) ==> m.ok()', rules=CAT + [
        ('desugar', 'mapping_tools :: Mapping :: build_from_json_file ( & ( $x* ) )', 'vx_load(&($x))'),
        ('desugar', 'fs :: File :: open ( $p* )', 'vx_open($p)', '*'), ('desugar', 'io :: BufReader :: new ( $p* )', 'Reader::vx_new($p)', '*'),
        ('desugar', 'match line . as_str ( ) {', '«proof { let vx_ls = lines_of(path@ + "_transformed.out"@); assert(Seq::<char>::empty() + vx_ls[0] =~= vx_ls[0]); }» match vx_code(line.as_str()) {'), ('desugar', 'line == $l:tt', 'vx_eqs(&line, $l)', '*'),
        ('desugar', 'println ! ( $m* ) ;', '', '*')] + [('desugar', '%s => {' % l, '%du64 => {' % i, '*') for l, i in num.items()] + [
        ('desugar', 'let $q:id = CommandStream :: new ( $r:id , $x* ) ;', '«let ghost vx_l = $r@; proof { let vx_ls = lines_of(path@ + "_transformed.out"@); assert(vx_l =~= vx_ls.skip(2)); assert(Seq::<char>::empty() + vx_ls[0] =~= vx_ls[0]); }» let $q = vx_model($r);'),
        ('desugar', 'for $o:id in $q:id . flatten ( ) { $b* }', """let mut vx_p = $q; «let ghost vx_f = model_items(vx_l); let ghost mut vx_n: int = 0;»
while vx_p.len() > 0 «invariant new_map.ok(), 0 <= vx_n <= vx_f.len(), vx_p@ == vx_f.skip(vx_n), answers(&new_map, vx_f.take(vx_n), new_assertions@), decreases vx_p@.len(),»
{ let $o = vx_p.remove(0); «let ghost vx_item = $o; let ghost vx_old = new_assertions@;» $b
  «proof { let (x, y) = (vx_f.take(vx_n), vx_f.take(vx_n + 1)); assert(y =~= x.push(vx_item)); assert(y.drop_last() =~= x); if new_assertions@.len() > vx_old.len() { assert(new_assertions@.drop_last() =~= vx_old); } vx_n = vx_n + 1; }» }
«let ghost vx_as = new_assertions@; proof { assert(vx_f.take(vx_n) =~= vx_f); assert(answers(&new_map, model_items(vx_l), vx_as)); }»"""),
        ('desugar', 'aws_smt_ir :: convert :: convert_command ( $c:id )', 'vx_convert($c)', '*'),
        ('desugar', 'std :: fs :: write ( $x* ) . expect ( $m* ) ;', '«let ghost vx_g = new_map; let ghost vx_pa = path@; let ghost vx_ex = ext@;» vx_write($x); «proof { assert(rebuilt(vx_pa, vx_ex, vx_g, vx_l, vx_as)); }»'),
        ], ensures='r matches Ok(x) ==> result(path@, ext@, x)')
