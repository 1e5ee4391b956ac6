"""The compressing mapping (T09): different strings stay different, required lengths and digits are kept, the mapping ends."""
from tr_common import *
import u_charmap
NOTES = 'Assumed: texts, slices and searches of the standard library, maps with text keys, char::from_u32 (a conversion that fails panics). The literals of a variable are opaque (string_consts_affected), and so is the replacement in the term. The mapping state at the start: what initialize_charmap leaves (u_charinit) with no literal mapped; a mapping loaded from a file has the lengths and digits it records.'
F, S = TR + 'transpiler.rs', TR + 'string_mappings.rs'
SPEC0 = r'''
/// the entries of a map with string keys, by their text
pub uninterp spec fn tmap<V>(m: HashMap<String, V>) -> Map<Seq<char>, V>;
pub type Text = Seq<char>;
'''
SPEC = r'''
/// number of bytes of a text
pub uninterp spec fn blen(s: Text) -> nat;
pub open spec fn asc(c: char) -> bool { cv(c) < 128 }
pub open spec fn isdig(c: char) -> bool { 48 <= cv(c) && cv(c) <= 57 }
pub open spec fn show(c: char) -> Text { seq![c] }
/// the digits of a text
pub open spec fn digs(s: Text) -> Text { s.filter(|c: char| isdig(c)) }
// assumed: texts of the standard library
pub trait VxText { spec fn t(&self) -> Text;
    fn vx_text(&self) -> (r: String) ensures r@ == self.t();
    fn vx_in(&self, b: &str) -> (r: bool) ensures r ==> b@.len() <= self.t().len() && (self.t().len() == b@.len() ==> self.t() == b@);
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.t()), r >= self.t().len(), r <= usize::MAX / 2, (r == 0) == (self.t().len() == 0), r == 1 ==> self.t().len() == 1,
        (forall|i: int| 0 <= i < self.t().len() ==> asc(#[trigger] self.t()[i])) ==> r == self.t().len(); }
impl VxText for str { #[verifier::external_body] fn vx_in(&self, b: &str) -> bool { self.contains(b) } open spec fn t(&self) -> Text { self@ } #[verifier::external_body] fn vx_text(&self) -> String { self.to_string() } #[verifier::external_body] fn vx_len(&self) -> usize { self.len() } }
impl VxText for String { #[verifier::external_body] fn vx_in(&self, b: &str) -> bool { self.contains(b) } open spec fn t(&self) -> Text { self@ } #[verifier::external_body] fn vx_text(&self) -> String { self.to_string() } #[verifier::external_body] fn vx_len(&self) -> usize { self.len() } }
impl VxText for char { #[verifier::external_body] fn vx_in(&self, b: &str) -> bool { unimplemented!() } open spec fn t(&self) -> Text { show(*self) } #[verifier::external_body] fn vx_text(&self) -> String { self.to_string() } #[verifier::external_body] fn vx_len(&self) -> usize { self.to_string().len() } }
pub trait VxVec { spec fn n(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.n(); }
impl<T> VxVec for Vec<T> { open spec fn n(&self) -> nat { self@.len() } fn vx_len(&self) -> usize { self.len() } }
#[verifier::external_body] pub fn vx_eq<A: VxText + ?Sized, B: VxText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.t() == b.t()) { a.vx_text() == b.vx_text() }
/// a comparison on which nothing depends
#[verifier::external_body] pub fn vx_any() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vx_get<'a, V>(m: &'a HashMap<String, V>, s: &str) -> (r: Option<&'a V>)
    ensures r matches Some(v) ==> tmap(*m).contains_key(s@) && *v == tmap(*m)[s@], r is None ==> !tmap(*m).contains_key(s@) { m.get(s) }
#[verifier::external_body] pub fn vx_has<V>(m: &HashMap<String, V>, s: &str) -> (r: bool) ensures r == tmap(*m).contains_key(s@) { m.contains_key(s) }
#[verifier::external_body] pub fn vx_put<V>(m: &mut HashMap<String, V>, k: String, v: V) ensures tmap(*final(m)) == tmap(*old(m)).insert(k@, v) { m.insert(k, v); }
#[verifier::external_body] pub fn vx_new<V>() -> (r: HashMap<String, V>) ensures tmap(r) == Map::<Text, V>::empty() { HashMap::new() }
#[verifier::external_body] pub fn vx_extend<V>(m: &mut HashMap<String, V>, n: HashMap<String, V>) ensures tmap(*final(m)) == tmap(*old(m)).union_prefer_right(tmap(n)) { m.extend(n); }
#[verifier::external_body] pub fn vx_mclone(m: &HashMap<String, String>) -> (r: HashMap<String, String>) ensures tmap(r) == tmap(*m) { m.clone() }
pub open spec fn listing<V>(v: Seq<(&String, &V)>, m: Map<Text, V>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0@) && *v[i].1 == m[v[i].0@])
    && (forall|k: Text| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k) }
#[verifier::external_body] pub fn vx_list<'a, V>(m: &'a HashMap<String, V>) -> (r: Vec<(&'a String, &'a V)>) ensures listing(r@, tmap(*m)) { m.iter().collect() }
#[verifier::external_body] pub fn vx_at(m: &HashMap<char, char>, c: &char) -> (r: char) requires m@.contains_key(*c) ensures r == m@[*c] { m[c] }
#[verifier::external_body] pub fn vx_from(x: u32) -> (r: Option<char>) ensures r matches Some(c) ==> cv(c) == x { char::from_u32(x) }
#[verifier::external_body] pub fn vx_nth(s: &String, i: usize) -> (r: char) requires i < s@.len() ensures r == s@[i as int] { s.chars().nth(i).unwrap() }
#[verifier::external_body] pub fn vx_ascii(c: char) -> (r: bool) ensures r == asc(c) { c.is_ascii() }
#[verifier::external_body] pub fn vx_digit(c: char) -> (r: bool) ensures r == isdig(c) { c.is_ascii_digit() }
#[verifier::external_body] pub fn vx_digits(s: &str) -> (r: Vec<char>) ensures r@ == digs(s@) { s.chars().filter(char::is_ascii_digit).collect() }
#[verifier::external_body] pub fn vx_same(a: &Vec<char>, b: &Vec<char>) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vx_count<A: VxText + ?Sized>(s: &A) -> (r: usize) ensures r == s.t().len() { unimplemented!() }
#[verifier::external_body] pub fn vx_rep(c: char, n: usize) -> (r: String) ensures r@ == Seq::new(n as nat, |i: int| c) { c.to_string().repeat(n) }
#[verifier::external_body] pub fn vx_replace(s: &mut String, a: usize, b: usize, x: &String)
    requires b == a + 1, a < old(s)@.len(), forall|i: int| 0 <= i <= a ==> asc(#[trigger] old(s)@[i]),
    ensures final(s)@ == old(s)@.take(a as int) + x@ + old(s)@.skip(a + 1) { s.replace_range(a..b, x); }
#[verifier::external_body] pub fn vx_pairs(v: &Vec<RangeParams>) -> (r: HashSet<(char, char)>) { unimplemented!() }
#[verifier::external_body] pub fn vx_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vx_first(s: &str) -> (r: char) requires s@.len() > 0 ensures r == s@[0] { s.chars().next().unwrap() }
#[verifier::external_body] pub fn vx_slice(s: &str, a: usize, b: usize) -> (r: String) requires a <= b, b <= blen(s@) ensures a < b ==> r@.len() > 0 { s[a..b].to_string() }
#[verifier::external_body] pub fn vx_pclone(p: &StringSetProperties) -> (r: StringSetProperties) ensures r == *p { unimplemented!() }
#[verifier::external_body] pub fn vx_texts(v: &Vec<&String>) -> (r: Vec<String>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@[i]@ { unimplemented!() }
#[verifier::external_body] pub fn vx_matches<'a>(s: &'a str, t: &str) -> (r: Vec<(usize, &'a str)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1@ == t@ && r@[i].0 + blen(t@) <= blen(s@) { s.match_indices(t).collect() }
#[verifier::external_body] pub fn vx_append<'a>(v: &mut Vec<(usize, &'a str)>, w: Vec<(usize, &'a str)>) ensures final(v)@ == old(v)@ + w@ { v.extend(w); }
#[verifier::external_body] pub fn vx_sort<'a>(v: &mut Vec<(usize, &'a str)>) ensures forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]) { v.sort_unstable(); }
#[verifier::external_body] pub fn vx_ge(a: &bool, b: &bool) -> (r: bool) ensures r == (*a || !*b) { a >= b }
#[verifier::external_body] pub fn vx_set_empty(s: &HashSet<(char, char)>) -> (r: bool) { s.is_empty() }

pub open spec fn is_end(rs: Seq<RangeParams>, c: char) -> bool { exists|i: int| 0 <= i < rs.len() && ((#[trigger] rs[i]).start_char == c || rs[i].end_char == c) }
/// t is the image of an endpoint of a range other than s
pub open spec fn ep(m: CMap, rs: Seq<RangeParams>, s: Text, t: Text) -> bool { exists|c: char| is_end(rs, c) && #[trigger] show(c) != s && show(m[c]) == t }
pub open spec fn ints_same(s: Text, t: Text, n: int) -> bool { (n == 1 ==> digs(s).len() == digs(t).len()) && (n >= 2 ==> digs(s) == digs(t)) }
/// t has what is required of s
pub open spec fn fits(q: Req, s: Text, t: Text) -> bool { !q.all && (q.len ==> s.len() == t.len()) && ints_same(s, t, q.ints) }
pub open spec fn fix(m: CMap, c: char) -> bool { m.contains_key(c) && m[c] == c }
/// digits are mapped to digits (n >= 1), to themselves (n >= 2)
pub open spec fn keeps(m: CMap, rs: Seq<RangeParams>, n: int) -> bool {
    (n >= 1 ==> fix(m, '0') && fix(m, '9') && exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).start_char == '0' && rs[i].end_char == '9')
    && (n >= 2 ==> forall|c: char| isdig(c) ==> #[trigger] m.contains_key(c) && m[c] == c) }
pub type Strs = Map<Text, String>;
pub type Props = Map<Text, StringSetProperties>;
pub open spec fn known(p: Props, k: Text) -> Req { p[k].req() }
pub open spec fn once(sm: Strs) -> bool { forall|a: Text, b: Text| #[trigger] sm.contains_key(a) && #[trigger] sm.contains_key(b) && sm[a]@ == sm[b]@ ==> a == b }
pub open spec fn empties(sm: Strs) -> bool { forall|k: Text| #[trigger] sm.contains_key(k) ==> (k.len() == 0) == (sm[k]@.len() == 0) }
pub open spec fn no_end(sm: Strs, m: CMap, rs: Seq<RangeParams>) -> bool { forall|k: Text| #[trigger] sm.contains_key(k) ==> !ep(m, rs, k, sm[k]@) }
pub open spec fn own_end(sm: Strs, m: CMap, rs: Seq<RangeParams>) -> bool { forall|c: char| is_end(rs, c) && blen(show(c)) == 1 && sm.contains_key(#[trigger] show(c)) ==> sm[show(c)]@ == show(m[c]) }
pub open spec fn fit(sm: Strs, p: Props) -> bool { forall|k: Text| #[trigger] sm.contains_key(k) && p.contains_key(k) ==> fits(known(p, k), k, sm[k]@) }
#[verifier::opaque]
pub open spec fn sent(sm: Strs, p: Props, m: CMap, rs: Seq<RangeParams>) -> bool { once(sm) && empties(sm) && no_end(sm, m, rs) && own_end(sm, m, rs) && fit(sm, p) }
/// the entries of earlier queries: lengths and digits as recorded
#[verifier::opaque]
pub open spec fn past(g: Map<Text, MappedStringMetaObj>) -> bool { forall|k: Text| #[trigger] g.contains_key(k) ==>
    (g[k].req_props.req().all || fits(g[k].req_props.req(), k, g[k].mapped_to@)) && (k.len() == 0) == (g[k].mapped_to@.len() == 0) }
/// the digits are kept when a literal requires it
#[verifier::opaque]
pub open spec fn ready(p: Props, m: CMap, rs: Seq<RangeParams>) -> bool { forall|k: Text| #[trigger] p.contains_key(k) ==> keeps(m, rs, known(p, k).ints) }
impl CharMap {
    pub open spec fn sm(&self) -> Strs { tmap(self.string_map) }
    pub open spec fn pr(&self) -> Props { tmap(self.string_lit_props) }
    pub open spec fn ps(&self) -> Map<Text, MappedStringMetaObj> { tmap(self.persist_string_map) }
    pub open spec fn ok(&self) -> bool { self.good() && sent(self.sm(), self.pr(), self.m(), self.ranges@) && past(self.ps()) && ready(self.pr(), self.m(), self.ranges@) }
    pub open spec fn ends(&self, s: Text, t: Text) -> bool { ep(self.m(), self.ranges@, s, t) }
    pub open spec fn keeps(&self, k: KeepInts) -> bool { keeps(self.m(), self.ranges@, rank(k)) }
    /// a literal that is to be mapped with its substrings
    pub open spec fn ks(&self, s: Text) -> bool { self.pr().contains_key(s) && !known(self.pr(), s).all && known(self.pr(), s).sub }
    pub open spec fn fits(&self, s: Text, t: Text) -> bool { self.pr().contains_key(s) ==> fits(known(self.pr(), s), s, t) }
    /// t can be the image of s
    pub open spec fn free(&self, s: Text, t: Text) -> bool { !self.ends(s, t) && (forall|k: Text| #[trigger] self.sm().contains_key(k) && k != s ==> self.sm()[k]@ != t) }
    /// strings that are mapped stay as they are
    pub open spec fn after(&self, o: &CharMap) -> bool { grows(o.m(), self.m()) && same_ranges(o.ranges@, self.ranges@) && self.string_lit_props == o.string_lit_props && self.char_to_char == o.char_to_char
        && (forall|k: Text| #[trigger] o.sm().contains_key(k) ==> self.sm().contains_key(k) && self.sm()[k]@ == o.sm()[k]@) }
    pub open spec fn short_end(&self, s: Text) -> bool { blen(s) == 1 && s.len() == 1 && is_end(self.ranges@, s[0]) }
    /// a shorter literal that is mapped with its substrings
    pub open spec fn part(&self, x: Text, s: Text) -> bool { self.ks(x) && 0 < x.len() && x.len() < s.len() }
    pub open spec fn mid(&self, p: (usize, &str), s: Text) -> bool { self.part(p.1@, s) && p.0 + blen(p.1@) <= blen(s) }
    pub open spec fn mids(&self, v: Seq<(usize, &str)>, s: Text) -> bool { forall|j: int| 0 <= j < v.len() ==> self.mid(#[trigger] v[j], s) }
    /// mapped a string of at most n characters, and its parts
    pub open spec fn step(&self, o: &CharMap, n: int) -> bool { self.ok() && self.after(o) && (forall|k: Text| #[trigger] self.sm().contains_key(k) && !o.sm().contains_key(k) ==> k.len() <= n) }
    /// t is what s is mapped to
    pub open spec fn has_it(&self, s: Text, t: Text) -> bool { self.sm().contains_key(s) && self.sm()[s]@ == t || s.len() == 0 && t.len() == 0 || self.short_end(s) && t == show(self.m()[s[0]]) }
}
pub proof fn lemma_show(c: char, d: char) requires show(c) == show(d) ensures c == d { assert(show(c)[0] == c); assert(show(d)[0] == d); }
pub proof fn lemma_is_end(a: Seq<RangeParams>, b: Seq<RangeParams>, c: char) requires same_ranges(a, b) ensures is_end(a, c) == is_end(b, c)
{ if is_end(a, c) { let i = choose|i: int| 0 <= i < a.len() && ((#[trigger] a[i]).start_char == c || a[i].end_char == c); assert(a[i].start_char == b[i].start_char); assert(b[i].start_char == c || b[i].end_char == c); }
  if is_end(b, c) { let i = choose|i: int| 0 <= i < b.len() && ((#[trigger] b[i]).start_char == c || b[i].end_char == c); assert(a[i].start_char == b[i].start_char); assert(a[i].start_char == c || a[i].end_char == c); } }
pub proof fn lemma_end_key(m: CMap, rs: Seq<RangeParams>, n: int, c: char) requires inv(m, rs, n), is_end(rs, c) ensures m.contains_key(c), cv(m[c]) < n
{ reveal(inv); let i = choose|i: int| 0 <= i < rs.len() && ((#[trigger] rs[i]).start_char == c || rs[i].end_char == c); assert(m.contains_key(rs[i].start_char)); }
pub proof fn lemma_ep(m: CMap, rs: Seq<RangeParams>, n: int, w: CMap, ss: Seq<RangeParams>, s: Text, t: Text)
    requires inv(m, rs, n), grows(m, w), same_ranges(rs, ss) ensures ep(m, rs, s, t) == ep(w, ss, s, t)
{
    assert forall|c: char| is_end(rs, c) implies is_end(ss, c) && #[trigger] m[c] == w[c] by { lemma_end_key(m, rs, n, c); lemma_is_end(rs, ss, c); }
    assert forall|c: char| is_end(ss, c) implies is_end(rs, c) && #[trigger] m[c] == w[c] by { lemma_is_end(rs, ss, c); lemma_end_key(m, rs, n, c); }
    if ep(m, rs, s, t) { let c = choose|c: char| is_end(rs, c) && #[trigger] show(c) != s && show(m[c]) == t; assert(m[c] == w[c]); assert(show(c) != s); }
    if ep(w, ss, s, t) { let c = choose|c: char| is_end(ss, c) && #[trigger] show(c) != s && show(w[c]) == t; assert(m[c] == w[c]); assert(show(c) != s); }
}
pub proof fn lemma_sent(sm: Strs, p: Props, m: CMap, rs: Seq<RangeParams>, n: int, w: CMap, ss: Seq<RangeParams>)
    requires sent(sm, p, m, rs), inv(m, rs, n), grows(m, w), same_ranges(rs, ss) ensures sent(sm, p, w, ss)
{
    reveal(sent);
    assert forall|k: Text| #[trigger] sm.contains_key(k) implies !ep(w, ss, k, sm[k]@) by { lemma_ep(m, rs, n, w, ss, k, sm[k]@); }
    assert forall|c: char| is_end(ss, c) && blen(show(c)) == 1 && sm.contains_key(#[trigger] show(c)) implies sm[show(c)]@ == show(w[c]) by { lemma_is_end(rs, ss, c); lemma_end_key(m, rs, n, c); }
}
pub proof fn lemma_keeps(m: CMap, rs: Seq<RangeParams>, w: CMap, ss: Seq<RangeParams>, n: int) requires keeps(m, rs, n), grows(m, w), same_ranges(rs, ss) ensures keeps(w, ss, n)
{
    if n >= 1 { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).start_char == '0' && rs[i].end_char == '9'; assert(ss[i].start_char == rs[i].start_char && ss[i].end_char == '9'); assert(ss[i].start_char == '0'); }
    if n >= 2 { assert forall|c: char| isdig(c) implies #[trigger] w.contains_key(c) && w[c] == c by { assert(m.contains_key(c)); } }
}
pub proof fn lemma_ready(p: Props, m: CMap, rs: Seq<RangeParams>, w: CMap, ss: Seq<RangeParams>) requires ready(p, m, rs), grows(m, w), same_ranges(rs, ss) ensures ready(p, w, ss)
{ reveal(ready); assert forall|k: Text| #[trigger] p.contains_key(k) implies keeps(w, ss, known(p, k).ints) by { lemma_keeps(m, rs, w, ss, known(p, k).ints); } }
/// mapping characters only keeps everything
pub proof fn lemma_later(o: &CharMap, c: &CharMap) requires o.ok(), c.good(), c.later(o) ensures c.ok(), c.after(o), forall|s: Text, t: Text| c.ends(s, t) == o.ends(s, t), forall|k: KeepInts| o.keeps(k) ==> c.keeps(k)
{
    lemma_sent(o.sm(), o.pr(), o.m(), o.ranges@, o.non_range_offset as int, c.m(), c.ranges@);
    lemma_ready(o.pr(), o.m(), o.ranges@, c.m(), c.ranges@);
    assert forall|s: Text, t: Text| c.ends(s, t) == o.ends(s, t) by { lemma_ep(o.m(), o.ranges@, o.non_range_offset as int, c.m(), c.ranges@, s, t); }
    assert forall|k: KeepInts| o.keeps(k) implies c.keeps(k) by { lemma_keeps(o.m(), o.ranges@, c.m(), c.ranges@, rank(k)); }
}
/// an image that is free and fits can be added
pub proof fn lemma_add(sm: Strs, p: Props, m: CMap, rs: Seq<RangeParams>, s: Text, v: String)
    requires sent(sm, p, m, rs), !ep(m, rs, s, v@), forall|k: Text| #[trigger] sm.contains_key(k) && k != s ==> sm[k]@ != v@, (s.len() == 0) == (v@.len() == 0),
        p.contains_key(s) ==> fits(known(p, s), s, v@), blen(s) == 1 && s.len() == 1 && is_end(rs, s[0]) ==> v@ == show(m[s[0]]),
    ensures sent(sm.insert(s, v), p, m, rs)
{
    reveal(sent); let n = sm.insert(s, v);
    assert(once(n)) by { assert forall|a: Text, b: Text| #[trigger] n.contains_key(a) && #[trigger] n.contains_key(b) && n[a]@ == n[b]@ implies a == b by { if a != s { assert(sm.contains_key(a)); } if b != s { assert(sm.contains_key(b)); } } }
    assert(empties(n)) by { assert forall|k: Text| #[trigger] n.contains_key(k) implies (k.len() == 0) == (n[k]@.len() == 0) by { if k != s { assert(sm.contains_key(k)); } } }
    assert(no_end(n, m, rs)) by { assert forall|k: Text| #[trigger] n.contains_key(k) implies !ep(m, rs, k, n[k]@) by { if k != s { assert(sm.contains_key(k)); } } }
    assert(own_end(n, m, rs)) by { assert forall|c: char| is_end(rs, c) && blen(show(c)) == 1 && n.contains_key(#[trigger] show(c)) implies n[show(c)]@ == show(m[c]) by { if show(c) != s { assert(sm.contains_key(show(c))); } else { assert(s[0] == c); } } }
    assert(fit(n, p)) by { assert forall|k: Text| #[trigger] n.contains_key(k) && p.contains_key(k) implies fits(known(p, k), k, n[k]@) by { if k != s { assert(sm.contains_key(k)); } } }
}
pub proof fn lemma_past(g: Map<Text, MappedStringMetaObj>, k: Text, o: MappedStringMetaObj)
    requires past(g), o.req_props.req().all || fits(o.req_props.req(), k, o.mapped_to@), (k.len() == 0) == (o.mapped_to@.len() == 0) ensures past(g.insert(k, o))
{ reveal(past); let h = g.insert(k, o);
  assert forall|x: Text| #[trigger] h.contains_key(x) implies (h[x].req_props.req().all || fits(h[x].req_props.req(), x, h[x].mapped_to@)) && (x.len() == 0) == (h[x].mapped_to@.len() == 0) by { if x != k { assert(g.contains_key(x)); } } }
/// the image of an endpoint of a range is free for the endpoint
pub proof fn lemma_end_free(c: &CharMap, d: char)
    requires c.ok(), is_end(c.ranges@, d) ensures c.free(show(d), show(c.m()[d])), c.m().contains_key(d)
{
    reveal(sent); let t = show(c.m()[d]);
    lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, d);
    if c.ends(show(d), t) { let e = choose|e: char| is_end(c.ranges@, e) && #[trigger] show(e) != show(d) && show(c.m()[e]) == t; lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, e); lemma_show(c.m()[d], c.m()[e]); reveal(inv); assert(e == d); }
    assert forall|k: Text| #[trigger] c.sm().contains_key(k) && k != show(d) implies c.sm()[k]@ != t by { if c.sm()[k]@ == t { assert(show(d) != k); assert(ep(c.m(), c.ranges@, k, c.sm()[k]@)); } }
}
/// digits of a text that is mapped character by character
pub proof fn lemma_dig(m: CMap, rs: Seq<RangeParams>, n: int, c: char, k: int)
    requires inv(m, rs, n), keeps(m, rs, k), m.contains_key(c), k >= 1 ensures isdig(m[c]) == isdig(c), k >= 2 && isdig(c) ==> m[c] == c
{
    reveal(inv); let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).start_char == '0' && rs[i].end_char == '9';
    assert(inr(rs[i], c) == (lo(m, rs[i]) <= cv(m[c]) && cv(m[c]) <= hi(m, rs[i])));
    assert(inr(rs[i], c) == isdig(c));
}
pub proof fn lemma_digs(m: CMap, rs: Seq<RangeParams>, n: int, s: Text, t: Text, k: int)
    requires inv(m, rs, n), keeps(m, rs, k), t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) && t[i] == m[s[i]], 0 <= k <= 2
    ensures ints_same(s, t, k) decreases s.len()
{
    if k >= 1 {
        if s.len() == 0 { assert(s =~= t); } else {
            let f = |c: char| isdig(c); let (a, b) = (s.drop_last(), t.drop_last());
            assert forall|i: int| 0 <= i < a.len() implies m.contains_key(#[trigger] a[i]) && b[i] == m[a[i]] by { assert(s[i] == a[i]); }
            lemma_digs(m, rs, n, a, b, k);
            assert(m.contains_key(s[s.len() - 1]));
            lemma_dig(m, rs, n, s.last(), k);
            assert(t.last() == m[s.last()]);
            reveal(Seq::filter);
        }
    }
}
pub proof fn lemma_char(c: char, d: char, m: CMap, rs: Seq<RangeParams>, n: int, k: int) requires inv(m, rs, n), keeps(m, rs, k), m.contains_key(c), d == m[c], 0 <= k <= 2 ensures ints_same(show(c), show(d), k)
{ lemma_digs(m, rs, n, show(c), show(d), k); }
'''
SPEC += r'''
/// a character replaced by some copies of another one
pub open spec fn repl(s: Text, i: int, x: Text) -> Text { s.take(i) + x + s.skip(i + 1) }
pub proof fn lemma_repl(s: Text, i: int, x: Text, c: char)
    requires 0 <= i < s.len(), x.len() > 0, forall|j: int| 0 <= j < x.len() ==> x[j] == c
    ensures ({ let n = repl(s, i, x); n.len() == s.len() - 1 + x.len() && (forall|j: int| 0 <= j < i ==> n[j] == s[j]) && (forall|j: int| i <= j < i + x.len() ==> n[j] == c) && (forall|j: int| i + x.len() <= j < n.len() ==> n[j] == s[j - x.len() + 1]) })
{}
/// the next place of a text whose characters up to place i have one byte each
pub proof fn lemma_step(s: Text, i: int, n: int)
    requires 0 <= i < s.len(), n >= s.len(), forall|j: int| 0 <= j <= i ==> asc(#[trigger] s[j]), (forall|j: int| 0 <= j < s.len() ==> asc(#[trigger] s[j])) ==> n == s.len(),
    ensures 0 <= (i + 1) % n < s.len(), (i + 1) % n == 0 || (i + 1) % n == i + 1,
{ if i + 1 == s.len() { assert((i + 1) % n == 0) by (nonlinear_arith) requires n == i + 1, n > 0; } else { assert((i + 1) % n == i + 1) by (nonlinear_arith) requires 0 <= i + 1 < n; } }
'''
SPEC += r'''
#[verifier::external_body] pub fn vx_charlist(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub proof fn lemma_ends(c: &CharMap) requires c.good() ensures forall|d: char| #[trigger] is_end(c.ranges@, d) ==> c.m().contains_key(d)
{ assert forall|d: char| #[trigger] is_end(c.ranges@, d) implies c.m().contains_key(d) by { lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, d); } }
'''
SPEC += r'''
pub proof fn lemma_same(c: &CharMap, n: int) requires c.ok() ensures c.step(c, n) {}
pub proof fn lemma_chain(a: &CharMap, b: &CharMap, c: &CharMap, n: int)
    requires a.ok(), b.step(a, n), c.step(b, n) || c.ok() && c.later(b) ensures c.step(a, n), forall|s: Text, t: Text| c.ends(s, t) == a.ends(s, t), forall|k: KeepInts| a.keeps(k) ==> c.keeps(k), a.pr() == c.pr()
{
    assert(c.sm().dom() =~= c.sm().dom());
    assert forall|k: Text| #[trigger] a.sm().contains_key(k) implies c.sm().contains_key(k) && c.sm()[k]@ == a.sm()[k]@ by { assert(b.sm().contains_key(k)); }
    assert forall|k: Text| #[trigger] c.sm().contains_key(k) && !a.sm().contains_key(k) implies k.len() <= n by { if !b.sm().contains_key(k) {} }
    assert(grows(a.m(), c.m())) by { assert forall|x: char| #[trigger] a.m().contains_key(x) implies c.m().contains_key(x) && c.m()[x] == a.m()[x] by { assert(b.m().contains_key(x)); } }
    assert(same_ranges(a.ranges@, c.ranges@)) by { assert forall|i: int| 0 <= i < a.ranges@.len() implies (#[trigger] a.ranges@[i]).start_char == c.ranges@[i].start_char && a.ranges@[i].end_char == c.ranges@[i].end_char by { assert(b.ranges@[i].start_char == a.ranges@[i].start_char); } }
    assert forall|s: Text, t: Text| c.ends(s, t) == a.ends(s, t) by { lemma_ep(a.m(), a.ranges@, a.non_range_offset as int, c.m(), c.ranges@, s, t); }
    assert forall|k: KeepInts| a.keeps(k) implies c.keeps(k) by { lemma_keeps(a.m(), a.ranges@, c.m(), c.ranges@, rank(k)); }
}
pub proof fn lemma_short(a: &CharMap, b: &CharMap, s: Text) requires b.after(a) ensures a.short_end(s) == b.short_end(s)
{ if s.len() == 1 { lemma_is_end(a.ranges@, b.ranges@, s[0]); } }
pub proof fn lemma_facts(c: &CharMap, s: Text) requires c.ok() ensures c.pr().contains_key(s) ==> keeps(c.m(), c.ranges@, known(c.pr(), s).ints), c.sm().contains_key(s) ==> (s.len() == 0) == (c.sm()[s]@.len() == 0)
{ reveal(ready); reveal(sent); }
pub proof fn lemma_recorded(c: &CharMap, s: Text) requires c.ok(), ensures c.ps().contains_key(s) ==> (c.ps()[s].req_props.req().all || fits(c.ps()[s].req_props.req(), s, c.ps()[s].mapped_to@)) && (s.len() == 0) == (c.ps()[s].mapped_to@.len() == 0)
{ reveal(past); }
pub proof fn lemma_own(c: &CharMap, d: char) requires c.ok(), is_end(c.ranges@, d), blen(show(d)) == 1 ensures c.sm().contains_key(show(d)) ==> c.sm()[show(d)]@ == show(c.m()[d])
{ reveal(sent); }
pub proof fn lemma_known_char(c: &CharMap, d: char, k: int) requires c.ok(), keeps(c.m(), c.ranges@, k), c.m().contains_key(d), 0 <= k <= 2 ensures ints_same(show(d), show(c.m()[d]), k)
{ lemma_char(d, c.m()[d], c.m(), c.ranges@, c.non_range_offset as int, k); }
/// a text that starts above all images is no image of an endpoint
pub proof fn lemma_above(c: &CharMap, s: Text, t: Text) requires c.good(), t.len() > 0, c.non_range_offset < cv(t[0]) ensures !c.ends(s, t)
{ if c.ends(s, t) { let e = choose|e: char| is_end(c.ranges@, e) && #[trigger] show(e) != s && show(c.m()[e]) == t; lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, e); assert(t[0] == c.m()[e]); } }
/// the image of an endpoint of a range
pub proof fn lemma_short_it(c: &CharMap, d: char) requires c.ok(), is_end(c.ranges@, d) ensures c.m().contains_key(d), show(d)[0] == d, c.pr().contains_key(show(d)) && !known(c.pr(), show(d)).all ==> c.fits(show(d), show(c.m()[d]))
{ reveal(ready); lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, d); if c.pr().contains_key(show(d)) { lemma_known_char(c, d, known(c.pr(), show(d)).ints); } }
pub proof fn lemma_got(c: &CharMap, s: Text) requires c.ok(), c.sm().contains_key(s) ensures (s.len() == 0) == (c.sm()[s]@.len() == 0), c.fits(s, c.sm()[s]@)
{ reveal(sent); }
pub proof fn lemma_stays(a: &CharMap, b: &CharMap, s: Text, t: Text) requires a.ok(), b.after(a), a.has_it(s, t) ensures b.has_it(s, t)
{ lemma_short(a, b, s); if a.short_end(s) { lemma_end_key(a.m(), a.ranges@, a.non_range_offset as int, s[0]); } }
/// different strings stay different
pub proof fn theorem_distinct(c: &CharMap, s: Text, t: Text, x: Text)
    requires c.ok(), c.has_it(s, x), c.has_it(t, x) ensures s == t
{
    reveal(sent); reveal(inv);
    let own = |k: Text| c.short_end(k) && x == show(c.m()[k[0]]);
    assert forall|k: Text| c.short_end(k) implies k == show(k[0]) && c.m().contains_key(k[0]) by { assert(k =~= show(k[0])); lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, k[0]); }
    if own(s) && own(t) { lemma_show(c.m()[s[0]], c.m()[t[0]]); assert(s[0] == t[0]); }
    else if own(s) { if t.len() == 0 { assert(show(c.m()[s[0]]).len() == 1); } else if t != s { assert(show(s[0]) != t); assert(ep(c.m(), c.ranges@, t, x)); } }
    else if own(t) { if s.len() == 0 { assert(show(c.m()[t[0]]).len() == 1); } else if t != s { assert(show(t[0]) != s); assert(ep(c.m(), c.ranges@, s, x)); } }
    else { assert(s.len() == 0 ==> x.len() == 0); assert(t.len() == 0 ==> x.len() == 0);
        if s.len() == 0 || t.len() == 0 { assert(s =~= t); } }
}
pub proof fn lemma_unchanged(a: &CharMap, b: &CharMap, s: Text) requires b.later(a) ensures a.sm() == b.sm(), a.pr() == b.pr() {}
pub proof fn lemma_go(a: &CharMap, b: &CharMap, c: &CharMap)
    requires a.ok(), b.ok(), c.ok(), b.after(a), c.after(b) ensures c.after(a)
{
    assert forall|k: Text| #[trigger] a.sm().contains_key(k) implies c.sm().contains_key(k) && c.sm()[k]@ == a.sm()[k]@ by { assert(b.sm().contains_key(k)); }
    assert(grows(a.m(), c.m())) by { assert forall|x: char| #[trigger] a.m().contains_key(x) implies c.m().contains_key(x) && c.m()[x] == a.m()[x] by { assert(b.m().contains_key(x)); } }
    assert(same_ranges(a.ranges@, c.ranges@)) by { assert forall|i: int| 0 <= i < a.ranges@.len() implies (#[trigger] a.ranges@[i]).start_char == c.ranges@[i].start_char && a.ranges@[i].end_char == c.ranges@[i].end_char by { assert(b.ranges@[i].start_char == a.ranges@[i].start_char); } }
}
/// the literals that are to be mapped with their substrings are mapped
pub open spec fn subs_done(c: &CharMap, l: Seq<&String>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (c.ks((#[trigger] l[j])@) && l[j]@.len() > 0 && !c.short_end(l[j]@) ==> c.sm().contains_key(l[j]@)) }
/// what the literals are mapped to
pub open spec fn result(c: &CharMap, lm: Strs) -> bool { forall|k: Text| #[trigger] lm.contains_key(k) ==> c.has_it(k, lm[k]@) && c.fits(k, lm[k]@) && (k.len() == 0) == (lm[k]@.len() == 0) }
pub open spec fn listed(p: Props, l: Seq<&String>) -> bool { forall|j: int| 0 <= j < l.len() ==> p.contains_key((#[trigger] l[j])@) }
pub open spec fn all_in(lm: Strs, l: Seq<&String>, n: int) -> bool { forall|j: int| 0 <= j < n ==> lm.contains_key((#[trigger] l[j])@) }
pub proof fn lemma_subs(a: &CharMap, b: &CharMap, l: Seq<&String>, n: int) requires a.ok(), b.ok(), b.after(a), subs_done(a, l, n) ensures subs_done(b, l, n)
{ assert forall|j: int| 0 <= j < n && b.ks((#[trigger] l[j])@) && l[j]@.len() > 0 && !b.short_end(l[j]@) implies b.sm().contains_key(l[j]@) by { lemma_short(a, b, l[j]@); assert(a.sm().contains_key(l[j]@)); } }
pub proof fn lemma_result(a: &CharMap, b: &CharMap, lm: Strs, s: Text, t: String)
    requires a.ok(), b.ok(), b.after(a), result(a, lm), b.has_it(s, t@), b.fits(s, t@), (s.len() == 0) == (t@.len() == 0) ensures result(b, lm.insert(s, t))
{ let r = lm.insert(s, t); assert forall|k: Text| #[trigger] r.contains_key(k) implies b.has_it(k, r[k]@) && b.fits(k, r[k]@) && (k.len() == 0) == (r[k]@.len() == 0) by { if k != s { assert(lm.contains_key(k)); lemma_stays(a, b, k, lm[k]@); } } }
/// the mapping of the literals of a query: different literals stay different, lengths and digits are kept
pub proof fn theorem_mapping(c: &CharMap, lm: Strs) requires c.ok(), result(c, lm)
    ensures forall|s: Text, t: Text| #[trigger] lm.contains_key(s) && #[trigger] lm.contains_key(t) && lm[s]@ == lm[t]@ ==> s == t,
        forall|s: Text| #[trigger] lm.contains_key(s) && c.pr().contains_key(s) ==> fits(known(c.pr(), s), s, lm[s]@)
{ assert forall|s: Text, t: Text| #[trigger] lm.contains_key(s) && #[trigger] lm.contains_key(t) && lm[s]@ == lm[t]@ implies s == t by { theorem_distinct(c, s, t, lm[s]@); } }
/// what was found for a query is added to the strings that are mapped
pub proof fn lemma_extend(a: &CharMap, c: &CharMap, lm: Strs)
    requires a.ok(), result(a, lm), c.sm() == a.sm().union_prefer_right(lm), *c == (CharMap { string_map: c.string_map, ..*a }) ensures c.ok(), c.after(a)
{
    reveal(sent); let n = c.sm(); let (m, rs) = (a.m(), a.ranges@);
    assert forall|k: Text| #[trigger] n.contains_key(k) implies a.has_it(k, n[k]@) && a.fits(k, n[k]@) && (k.len() == 0) == (n[k]@.len() == 0) && (a.sm().contains_key(k) ==> a.sm()[k]@ == n[k]@) by {
        if lm.contains_key(k) { if a.sm().contains_key(k) { lemma_has(a, k, lm[k]@); } } else { lemma_got(a, k); } }
    assert(once(n)) by { assert forall|x: Text, y: Text| #[trigger] n.contains_key(x) && #[trigger] n.contains_key(y) && n[x]@ == n[y]@ implies x == y by { theorem_distinct(a, x, y, n[x]@); } }
    assert(no_end(n, m, rs)) by { assert forall|k: Text| #[trigger] n.contains_key(k) implies !ep(m, rs, k, n[k]@) by { lemma_no_ep(a, k, n[k]@); } }
    assert(own_end(n, m, rs)) by { assert forall|d: char| is_end(rs, d) && blen(show(d)) == 1 && n.contains_key(#[trigger] show(d)) implies n[show(d)]@ == show(m[d]) by { assert(show(d)[0] == d); } }
    assert(fit(n, a.pr())) by { assert forall|k: Text| #[trigger] n.contains_key(k) && a.pr().contains_key(k) implies fits(known(a.pr(), k), k, n[k]@) by {} }
    assert forall|k: Text| #[trigger] a.sm().contains_key(k) implies c.sm().contains_key(k) && c.sm()[k]@ == a.sm()[k]@ by { assert(n.contains_key(k)); }
}
pub proof fn lemma_has(c: &CharMap, s: Text, t: Text) requires c.ok(), c.sm().contains_key(s), c.has_it(s, t), (s.len() == 0) == (t.len() == 0) ensures c.sm()[s]@ == t
{ reveal(sent); if s.len() == 0 { assert(c.sm()[s]@ =~= t); } else if c.short_end(s) { assert(s =~= show(s[0])); } }
pub proof fn lemma_no_ep(c: &CharMap, s: Text, t: Text) requires c.ok(), c.has_it(s, t), (s.len() == 0) == (t.len() == 0) ensures !c.ends(s, t)
{
    reveal(sent); reveal(inv);
    if c.ends(s, t) {
        let e = choose|e: char| is_end(c.ranges@, e) && #[trigger] show(e) != s && show(c.m()[e]) == t;
        lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, e); assert(show(c.m()[e]).len() == 1);
        if c.short_end(s) && t == show(c.m()[s[0]]) { lemma_end_key(c.m(), c.ranges@, c.non_range_offset as int, s[0]); lemma_show(c.m()[e], c.m()[s[0]]); assert(s =~= show(s[0])); }
    }
}
// stand-ins: what the rest of the transformer contributes is opaque here
#[verifier::external_body] pub struct ISymbol { x: () }
#[verifier::external_body] pub struct Term { x: () }
#[verifier::external_body] pub struct CallGraph { x: () }
#[verifier::external_body] pub struct AffectErr { x: () }
#[verifier::external_body] pub struct TextSet { x: () }
/// the literals that a variable is built from
pub uninterp spec fn lits(g: &CallGraph, v: &ISymbol) -> Set<Text>;
pub uninterp spec fn texts(s: &TextSet) -> Set<Text>;
#[verifier::external_body] pub fn string_consts_affected(v: &ISymbol, g: &CallGraph) -> (r: Result<TextSet, AffectErr>) ensures r matches Ok(s) ==> texts(&s) == lits(g, v) { unimplemented!() }
#[verifier::external_body] pub fn vx_items<'a>(s: &'a TextSet) -> (r: Vec<&'a String>) ensures forall|i: int| 0 <= i < r@.len() ==> texts(s).contains((#[trigger] r@[i])@) { unimplemented!() }
#[verifier::external_body] pub fn vx_sorted<'a>(v: &mut Vec<&'a String>) ensures forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]) { v.sort(); }
#[verifier::external_body] pub fn replace_args_in_term(m: HashMap<String, String>, t: &Term) -> (r: Option<Term>) { unimplemented!() }
/// a string is mapped
pub proof fn lemma_put(a: &CharMap, c: &CharMap, s: Text)
    requires a.ok(), c.sm().contains_key(s), c.sm() == a.sm().insert(s, c.sm()[s]), *c == (CharMap { string_map: c.string_map, ..*a }), a.free(s, c.sm()[s]@), a.fits(s, c.sm()[s]@), (s.len() == 0) == (c.sm()[s]@.len() == 0),
        a.short_end(s) ==> c.sm()[s]@ == show(a.m()[s[0]]), a.sm().contains_key(s) ==> a.sm()[s]@ == c.sm()[s]@,
    ensures c.step(a, s.len() as int)
{
    lemma_add(a.sm(), a.pr(), a.m(), a.ranges@, s, c.sm()[s]);
}
/// a string is recorded for later queries
pub proof fn lemma_note(a: &CharMap, c: &CharMap, s: Text)
    requires a.ok(), c.ps().contains_key(s), c.ps() == a.ps().insert(s, c.ps()[s]), *c == (CharMap { persist_string_map: c.persist_string_map, ..*a }), c.ps()[s].req_props.req().all || fits(c.ps()[s].req_props.req(), s, c.ps()[s].mapped_to@), (s.len() == 0) == (c.ps()[s].mapped_to@.len() == 0)
    ensures c.step(a, s.len() as int)
{ lemma_past(a.ps(), s, c.ps()[s]); }
'''
from_u = ('desugar', 'char :: from_u32 ( $x )', 'vx_from($x)', '*')
MAPS = [r for f in ('string_map', 'string_lit_props', 'persist_string_map') for r in (
    ('desugar', '$m:id . %s . get ( $k )' % f, 'vx_get(&$m.%s, $k)' % f, '*'),
    ('desugar', '$m:id . %s . contains_key ( $k )' % f, 'vx_has(&$m.%s, $k)' % f, '*'),
    ('desugar', '$m:id . %s . insert ( $k , $v , )' % f, 'vx_put(&mut $m.%s, $k, $v)' % f, '*'),
    ('desugar', '$m:id . %s . insert ( $k , $v )' % f, 'vx_put(&mut $m.%s, $k, $v)' % f, '*'))]
TEXT = [('desugar', '$x:tt . chars ( ) . count ( )', 'vx_count(&$x)', '*'), ('desugar', '$c:id . is_ascii_digit ( )', 'vx_digit($c)', '*'), ('desugar', '$c:id . is_ascii ( )', 'vx_ascii($c)', '*'),
        ('desugar', '$s:id . is_empty ( )', 'vx_empty(&$s)', '*'), ('desugar', '. to_string ( )', '.vx_text()', '*'), ('desugar', '. len ( )', '.vx_len()', '*'),
        ('desugar', '. contains ( $b )', '.vx_in($b)', '*')]
PRE = [('desugar', '. to_string ( )', '.vx_text()', '*'), ('desugar', '. len ( )', '.vx_len()', '*')]
NE = [('desugar', '$a:id != $b:id', '!vx_eq($a, $b)', '*'), ('desugar', '$a:id == & $b:id', 'vx_eq($a, &$b)', '*')]
def used(s, t):
    return ('desugar', '$m:id . string_map . iter ( ) . any ( | ( $k:id , $v:id ) | $b )', '''{ let vx_e = vx_list(&$m.string_map); let mut vx_b: bool = false; let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_e.len()
                invariant vx_i <= vx_e@.len(), !vx_b ==> forall|j: int| 0 <= j < vx_i && (#[trigger] vx_e@[j]).0@ != %s ==> vx_e@[j].1@ != %s,
                decreases vx_e@.len() - vx_i
            { let $k = vx_e[vx_i].0; let $v = vx_e[vx_i].1; if $b { vx_b = true; } vx_i += 1; } vx_b }''' % (s, t), '*')
def types(u):
    props_types(u)
    u.item(F, 'struct', 'MappedStringMetaObj', prefix='pub ')
    u.item(F, 'struct', 'RangeParams', prefix='#[derive(Clone, Copy)]\npub ')
    u.item(F, 'struct', 'CharMap', prefix='pub ')
def build(u):
    u.add(HEAD)
    types(u)
    cs = u_charmap.SPEC
    for a, b in (('#[verifier::external_body]\npub struct MappedStringMetaObj { x: () }\n', ''),
                 ("pub fn vx_props<'a>(m: &'a HashMap<String, StringSetProperties>, s: &str) -> (r: Option<&'a StringSetProperties>) { m.get(s) }",
                  "pub fn vx_props<'a>(m: &'a HashMap<String, StringSetProperties>, s: &str) -> (r: Option<&'a StringSetProperties>) ensures r matches Some(v) ==> tmap(*m).contains_key(s@) && *v == tmap(*m)[s@], r is None ==> !tmap(*m).contains_key(s@) { m.get(s) }")):
        assert cs.count(a) == 1; cs = cs.replace(a, b)
    u.add(SPEC0)
    u.add(PROPS_SPEC.replace('broadcast use {vx_ax::axiom_char_pair_key,', 'broadcast use {vx_ax::axiom_char_pair_key, vx_ax2::axiom_char_key,') + cs)
    u.add(SPEC)
    u.add('impl KeepInts {')
    u.fn(F, 'KeepInts::merge', ensures='rank(r) == max(rank(*ki1), rank(ki2))', ret='r')
    u.add('}\nimpl StringSetProperties {')
    u.fn(F, 'StringSetProperties::update_with_truths', ret='r', rules=[UNION], ensures='r.req() == both(old(self).req(), new_props.req()), final(self).req() == old(self).req()')
    u.add('}')
    u_charmap.literal_fns(u)
    stage1(u)
def stage1(u):
    u.fn(S, 'is_range_endpoint', ret='r', requires='char_map.good()', ensures='r == char_map.ends(orig_string@, mapped_string@)', rules=[
        ('desugar', '$m:id . ranges . iter ( ) . any ( | $r:id | { [ $a:tt . $a2:id , $b:tt . $b2:id ] . iter ( ) . any ( | $c:id | { $e } ) } )',
         """{ let mut vx_b = false; let mut vx_i: usize = 0; let vx_l = $m.ranges.len(); «proof { reveal(inv); }»
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l
                invariant vx_i <= vx_l, vx_b ==> $m.ends(orig_string@, mapped_string@),
                    !vx_b ==> forall|j: int, c: char| 0 <= j < vx_i && ((#[trigger] $m.ranges@[j]).start_char == c || $m.ranges@[j].end_char == c) ==> !(#[trigger] show(c) != orig_string@ && show($m.m()[c]) == mapped_string@),
                decreases vx_l - vx_i
            {   let $r = &$m.ranges[vx_i]; let vx_c = [$a.$a2, $b.$b2]; let mut vx_j: usize = 0;
                «let ghost vx_b0 = vx_b;»
                #[verifier::loop_isolation(false)]
                while vx_j < 2
                    invariant vx_j <= 2, vx_b ==> $m.ends(orig_string@, mapped_string@), vx_b0 ==> vx_b,
                        !vx_b ==> forall|j: int| 0 <= j < vx_j ==> !(show(#[trigger] vx_c@[j]) != orig_string@ && show($m.m()[vx_c@[j]]) == mapped_string@),
                    decreases 2 - vx_j
                {   let $c = &vx_c[vx_j]; «proof { assert($m.m().contains_key($m.ranges@[vx_i as int].start_char)); assert($m.ranges@[vx_i as int].start_char == *$c || $m.ranges@[vx_i as int].end_char == *$c); assert(is_end($m.ranges@, *$c)); let vx_t = show(*$c); assert(vx_t == show(*$c)); }»
                    if $e { vx_b = true; } vx_j += 1; }
                «proof { assert(vx_c@.len() == 2); assert(vx_c@[0] == $m.ranges@[vx_i as int].start_char); assert(vx_c@[1] == $m.ranges@[vx_i as int].end_char); }»
                vx_i += 1; }
            vx_b }"""),
        ('desugar', '$m:id . char_map [ $c:id ] . to_string ( )', 'vx_at(&$m.char_map, $c).to_string()', '*'),
        ('desugar', '$c:id . to_string ( ) != $o:id', '!vx_eq(&$c.vx_text(), $o)', '*'), ('desugar', '$c:id . to_string ( ) == $o:id', 'vx_eq(&$c.vx_text(), $o)', '*'),
        ('desugar', 'vx_at ( $x ) . to_string ( ) == $o:id', 'vx_eq(&vx_at($x).vx_text(), $o)', '*')])
    u.fn(S, 'same_ints', ret='r', ensures='r == ints_same(orig_string@, mapped_string@, rank(keep_ints))', rules=[
        ('desugar', '$s:id . chars ( ) . filter ( char :: is_ascii_digit )', 'vx_digits($s)', '*'), ('desugar', '$a:id . count ( )', '$a.len()', '*'), ('desugar', '$a:id . eq ( $b:id )', 'vx_same(&$a, &$b)', '*')])
    u.add('impl CharMap {')
    u.fn(F, 'CharMap::get_range_for_char', ret='r', ensures='r matches Some(p) ==> is_end(self.ranges@, p.start_char) && is_end(self.ranges@, p.end_char)', rules=[
        ('desugar', 'self . ranges . iter ( ) . find ( | & $r:id | $e )', """{ let mut vx_o: Option<&RangeParams> = None; let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < self.ranges.len()
                invariant vx_i <= self.ranges@.len(), vx_o matches Some(p) ==> is_end(self.ranges@, p.start_char) && is_end(self.ranges@, p.end_char),
                decreases self.ranges@.len() - vx_i
            { let $r = &self.ranges[vx_i]; if $e { «proof { let vx_x = self.ranges@[vx_i as int]; assert(vx_x.start_char == $r.start_char); }» vx_o = Some($r); break; } vx_i += 1; } vx_o }""")])
    u.fn(F, 'CharMap::get_backwards_range_for_char', ret='r', requires='self.good()', rules=[
        ('desugar', 'for $r:id in & self . ranges { $b }', """let vx_l = self.ranges.len(); let mut vx_i: usize = 0; «proof { reveal(inv); }»
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l
                invariant vx_l == self.ranges@.len(), vx_i <= vx_l,
                decreases vx_l - vx_i
            { let $r = &self.ranges[vx_i]; «proof { assert(self.m().contains_key(self.ranges@[vx_i as int].start_char)); }» $b vx_i += 1; }""")])
    u.add('}')
    J = 'to_ret@.len() > 0, retry_ind < usize::MAX / 2, retry_ind < to_ret@.len(), base@.len() == to_ret@.len(), retry_char == base@[retry_ind as int], forall|i: int| 0 <= i < to_ret@.len() ==> asc(#[trigger] to_ret@[i]) == asc(base@[i]), forall|i: int| 0 <= i < retry_ind ==> asc(#[trigger] to_ret@[i]), forall|i: int| 0 <= i < retry_ind ==> asc(#[trigger] base@[i])'
    u.fn(S, 'fix_repeated_string', ret='r', requires='old(char_map).good(), to_ret@.len() > 0, retries_allowed < 200', rules=PRE + [
        ('desugar', 'let mut to_ret = to_ret ;', '«let ghost vx_t0 = to_ret@;» let mut to_ret = to_ret;'),
        ('desugar', '$s:id . chars ( ) . nth ( $i:id ) . unwrap ( )', 'vx_nth(&$s, $i)', '*'), from_u,
        ('desugar', '$a:id . replace_range ( $b:id .. ( $c ) , & $x:id . vx_text ( ) . repeat ( $n:id ) , ) ;', 'let vx_r = vx_rep($x, $n); «let ghost vx_o = $a@;» vx_replace(&mut $a, $b, $c, &vx_r); «proof { lemma_repl(vx_o, $b as int, vx_r@, $x); assert forall|j: int| 0 <= j <= $b implies asc(#[trigger] $a@[j]) by { if j < $b { assert(asc(vx_o[j])); } } }»', '*'),
        ('desugar', 'while is_range_endpoint ( $x ) || $m:id . string_map . iter ( ) . any ( | ( $k:id , $v:id ) | { $b } ) { $body }',
         '''#[verifier::loop_isolation(false)]
            #[verifier::allow_complex_invariants]
            loop
                invariant *char_map == *old(char_map), %s, cur_try <= retries_allowed, 1 <= reps <= cur_try + 1, len_bool ==> reps == 1 && to_ret@.len() == vx_t0.len(), 1 <= retry_add <= 129,
                ensures *char_map == *old(char_map), to_ret@.len() > 0, len_bool ==> to_ret@.len() == vx_t0.len(), char_map.free(orig_string@, to_ret@), forall|k: Text| #[trigger] char_map.sm().contains_key(k) ==> char_map.sm()[k]@ != to_ret@,
                decreases retries_allowed - cur_try, 200 - retry_add, to_ret@.len() - retry_ind
            {   let vx_q = is_range_endpoint($x);
                let vx_found: bool = { let vx_e = vx_list(&$m.string_map); let mut vx_b = false; let mut vx_i: usize = 0;
                    while vx_i < vx_e.len()
                        invariant vx_i <= vx_e@.len(), !vx_b ==> forall|j: int| 0 <= j < vx_i ==> (#[trigger] vx_e@[j]).1@ != to_ret@,
                        decreases vx_e@.len() - vx_i
                    { let $k = vx_e[vx_i].0; let $v = vx_e[vx_i].1; if $b { vx_b = true; } vx_i += 1; } vx_b };
                if !(vx_q || vx_found) { break; }
                $body }''' % J),
        ('desugar', '$i:id = ( $j:id + 1 ) % $s:id . vx_len ( ) ;', 'let vx_n = $s.vx_len(); «proof { lemma_step($s@, $j as int, vx_n as int); }» $i = ($j + 1) % vx_n;', '*'),
        ('desugar', '$a:id == & to_ret', 'vx_eq($a, &to_ret)', '*'),
        ('desugar', '. contains ( $b )', '.vx_in($b)', '*'),
        ] + MAPS + [('desugar', 'Some ( $c:id ) => ! $d:id . is_ascii ( )', 'Some($c) => !vx_ascii($d)', '*'), ('desugar', '$c:id . is_ascii_digit ( )', 'vx_digit($c)', '*')],
        ensures='''*final(char_map) == *old(char_map), r matches Ok(t) ==> t@.len() > 0 && (len_bool ==> t@.len() == to_ret@.len()) && old(char_map).free(orig_string@, t@) && (forall|k: Text| #[trigger] old(char_map).sm().contains_key(k) ==> old(char_map).sm()[k]@ != t@)''')
    u.fn(S, 'gen_string_keep_ranges', ret='r', requires='old(char_map).ok(), s@.len() > 0, old(char_map).keeps(keep_ints)', rules=PRE + NE + MAPS + [
        ('desugar', 'let mut $t:id = "" . vx_text ( ) ;', '«let ghost vx_c0 = *char_map; proof { reveal_strlit(""); lemma_ends(char_map); }» let mut $t: String = "".vx_text();'),
        ('desugar', 'for $c:id in $s:id . chars ( ) { $b }', '''let vx_s = vx_charlist($s); let mut vx_p: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_p < vx_s.len()
                invariant vx_p <= vx_s@.len(), *char_map == vx_c0, vx_p > 0 ==> to_ret@.len() > 0, len_bool ==> to_ret@.len() == vx_p,
                decreases vx_s@.len() - vx_p
            { let $c = vx_s[vx_p]; vx_p += 1; $b }'''),
        ('desugar', '* $m:id . char_map . get ( $c ) . unwrap ( )', 'vx_at(&$m.char_map, $c)', '*'), ('desugar', 'char :: from_u32 ( $x ) . unwrap ( )', 'vx_char($x)', '*'),
        ('desugar', '$c:id . is_ascii_digit ( )', 'vx_digit($c)', '*'), ('desugar', '$t:id . is_empty ( )', 'vx_empty(&$t)', '*'),
        ('desugar', 'fix_repeated_string ( $x ) . and_then ( | $f:id | { $b } )', 'match fix_repeated_string($x) { Ok($f) => { $b }, Err(vx_e) => Err(vx_e) }', '*'),
        ('desugar', 'let $m:id = map_string_char_to_char ( $x ) ? ;', 'let vx_r0 = map_string_char_to_char($x); «proof { lemma_later(&vx_c0, char_map); }» let $m = vx_r0?; «proof { lemma_digs(char_map.m(), char_map.ranges@, char_map.non_range_offset as int, s@, $m@, rank(keep_ints)); }»', '*'),
        ('desugar', 'match $r:id { Err ( $p:tt ) if $c => { $x } $f:id => $g:id , }', 'if $r.is_err() && $c { $x } else { $r }', '*'),
        used('s@', 'mapped@'),
        ], ensures='''final(char_map).ok(), final(char_map).after(old(char_map)), final(char_map).later(old(char_map)),
            r matches Ok(t) ==> t@.len() > 0 && (len_bool ==> t@.len() == s@.len()) && ints_same(s@, t@, rank(keep_ints)) && final(char_map).free(s@, t@)''')
    stage2(u)
def stage2(u):
    u.fn(S, 'gen_gap_mapped', ret='r', requires='old(char_map).ok(), gap_string@.len() > 0, old(char_map).keeps(keep_ints)', rules=[],
         ensures='final(char_map).ok(), final(char_map).after(old(char_map)), final(char_map).later(old(char_map)), r matches Ok(t) ==> t@.len() > 0')
    u.fn(S, 'get_longest_string', ret='r', ensures='r@.len() == 0 || exists|i: int| 0 <= i < string_list@.len() && (#[trigger] string_list@[i])@ == r@', rules=PRE + [
        ('desugar', '$l:id . iter ( ) . fold ( "" . vx_text ( ) , | $a:id , $b:id | { $e } )', '''{ «proof { reveal_strlit(""); }» let mut vx_a: String = "".vx_text(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < $l.len()
                invariant vx_i <= $l@.len(), vx_a@.len() == 0 || exists|i: int| 0 <= i < $l@.len() && (#[trigger] $l@[i])@ == vx_a@,
                decreases $l@.len() - vx_i
            { let $a = vx_a; let $b = &$l[vx_i]; «proof { assert($l@[vx_i as int]@ == $b@); }» vx_a = { $e }; vx_i += 1; } vx_a }''')])
    W = lambda v: 'forall|j: int| 0 <= j < %s@.len() ==> char_map.part(#[trigger] %s@[j]@, s@)' % (v, v)
    u.fn(S, 'get_string_subsets', ret='r', ensures=', '.join(W('r.%d' % i) for i in range(3)), rules=PRE + [
        ('desugar', 'for ( $k:id , $p:id ) in & $m:id . string_lit_props { $b }', '''let vx_e = vx_list(&$m.string_lit_props); let mut vx_p: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_p < vx_e.len()
                invariant vx_p <= vx_e@.len(), %s,
                decreases vx_e@.len() - vx_p
            { let $k = vx_e[vx_p].0; let $p = vx_e[vx_p].1; vx_p += 1; $b }''' % ', '.join(map(W, ('prefix_strings', 'suffix_strings', 'mid_substrings')))),
        ('desugar', '$a:id == s', 'vx_eq($a, s)', '*'), ('desugar', '$a:id . is_empty ( )', 'vx_empty($a)', '*'),
        ('desugar', '. contains ( $b )', '.vx_in($b)', '*'), ('desugar', '. starts_with ( $b )', '.vx_in($b)', '*'), ('desugar', '. ends_with ( $b )', '.vx_in($b)', '*')])
    u.item(S, 'enum', 'PairOverlap', prefix='#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub ')
    u.fn(S, 'is_contained_in', requires='pair1.1 > 0, pair2.1 > 0, pair1.0 + pair1.1 <= usize::MAX, pair2.0 + pair2.1 <= usize::MAX', rules=[])
    stage3(u)
PUT = [('ghost', 'vx_put ( & mut $m:id . string_map , $a ) ;', '«let ghost vx_b = *$m; proof { lemma_recorded($m, s@); }» vx_put(&mut $m.string_map, $a); «proof { lemma_short(&vx_c0, &vx_b, s@); lemma_put(&vx_b, $m, s@); lemma_chain(&vx_c0, &vx_b, $m, s@.len() as int); }»', '*'),
       ('ghost', 'vx_put ( & mut $m:id . persist_string_map , $a ) ;', '«let ghost vx_b = *$m;» vx_put(&mut $m.persist_string_map, $a); «proof { lemma_note(&vx_b, $m, s@); lemma_chain(&vx_c0, &vx_b, $m, s@.len() as int); }»', '*')]
def stage3(u):
    CALL = lambda f: ('desugar', 'let $x:id = %s ( $a ) ? ;' % f, '«let ghost vx_b = *char_map;» let vx_r = %s($a); «proof { lemma_chain(&vx_c0, &vx_b, char_map, s@.len() - 1); }» let $x = vx_r?;' % f, '*')
    u.fn(S, 'gen_string_keep_substrings', ret='r', pre='hide(CharMap::good); hide(CharMap::later); hide(CharMap::after); let ghost vx_c0 = *char_map; proof { lemma_same(char_map, s@.len() - 1); lemma_facts(char_map, s@); }', requires='old(char_map).ok(), old(char_map).keeps(keep_ints), s@.len() == 0 || old(char_map).ks(s@)', rules=PRE + MAPS + [
        ('desugar', 'for $r:id in & $m:id . ranges { $b }', '''let vx_l = $m.ranges.len(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l
                invariant vx_l == $m.ranges@.len(), vx_i <= vx_l, *$m == vx_c0, forall|j: int| 0 <= j < vx_i ==> !((#[trigger] $m.ranges@[j]).start_char == s@[0]) && !($m.ranges@[j].end_char == s@[0]),
                decreases vx_l - vx_i
            { let $r = &$m.ranges[vx_i]; «proof { assert(s@ =~= show(s@[0])); } let ghost vx_d = s@[0]; proof { let vx_x = $m.ranges@[vx_i as int]; assert(vx_x.start_char == $r.start_char); if show($r.start_char) == s@ { let vx_y = $r.start_char; assert(is_end($m.ranges@, vx_y)); lemma_end_free($m, vx_y); lemma_own($m, vx_y); assert(show(vx_y)[0] == vx_y); assert(blen(show(vx_y)) == 1); assert($m.pr().contains_key(s@)); lemma_known_char($m, vx_y, known($m.pr(), s@).ints); } if show($r.end_char) == s@ { let vx_y = $r.end_char; assert(is_end($m.ranges@, vx_y)); lemma_end_free($m, vx_y); lemma_own($m, vx_y); assert(show(vx_y)[0] == vx_y); assert(blen(show(vx_y)) == 1); assert($m.pr().contains_key(s@)); lemma_known_char($m, vx_y, known($m.pr(), s@).ints); } }» $b vx_i += 1; } «proof { assert(!$m.short_end(s@)); }»'''),
        ('desugar', '$r:id . $f:id . vx_text ( ) == * s', 'vx_eq(&$r.$f.vx_text(), s)', '*'),
        ('desugar', '$m:id . char_map . get ( & $s:id . chars ( ) . next ( ) . unwrap ( ) ) . unwrap ( )', 'vx_at(&$m.char_map, &vx_first($s))', '*'),
        ('desugar', '$m:id . ranges . iter ( ) . map ( | $r:id | ( $x ) ) . collect ( )', 'vx_pairs(&$m.ranges)', '*'),
        ('desugar', '$m:id . ranges . iter ( ) . map ( | $r:id | ( $x ) ) . collect :: < HashSet < ( char , char ) > > ( )', 'vx_pairs(&$m.ranges)', '*'),
        ('desugar', '$m:id . ranges . iter ( ) . all ( $x )', 'vx_any()', '*'), ('desugar', 'mid_strings == & mid_substrings', 'vx_any()', '*'),
        ('desugar', '$p:id . update_with_truths ( props . clone ( ) )', '$p.update_with_truths(vx_pclone(props))', '*'), ('desugar', '. update_with_truths ( $p:id . clone ( ) )', '.update_with_truths(vx_pclone($p))', '*'),
        ('desugar', 'ranges . is_empty ( )', 'vx_set_empty(ranges)', '*'), ('desugar', 'req_ranges . is_empty ( )', 'vx_set_empty(req_ranges)', '*'), ('desugar', '$s:id . is_empty ( )', 'vx_empty($s)', '*'),
        ('desugar', '$v:id . iter ( ) . map ( | $m:id | $m2:id . vx_text ( ) ) . collect :: < Vec < String > > ( )', 'vx_texts(&$v)', '*'),
        ('desugar', '$v:id . iter ( ) . fold ( Vec :: < _ > :: new ( ) , | mut $o:id , $m:id | { $o2:id . extend ( $s:id . match_indices ( $m2:id . as_str ( ) ) . collect :: < Vec < ( usize , & str ) > > ( ) ) ; $o3:id } )',
         '''{ let mut vx_o: Vec<(usize, &str)> = Vec::new(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < $v.len()
                invariant vx_i <= $v@.len(), char_map.mids(vx_o@, s@),
                decreases $v@.len() - vx_i
            { let $m = &$v[vx_i]; «let ghost vx_o1 = vx_o@; proof { assert(char_map.part($v@[vx_i as int]@, s@)); }» vx_append(&mut vx_o, vx_matches($s, $m2)); vx_i += 1; } vx_o }'''),
        ('desugar', '$v:id . sort_unstable ( ) ;', '«let ghost vx_o0 = $v@;» vx_sort(&mut $v); «proof { assert(char_map.mids($v@, s@)) by { assert forall|j: int| 0 <= j < $v@.len() implies char_map.mid(#[trigger] $v@[j], s@) by { assert(vx_o0.contains($v@[j])); } } }»'),
        ('desugar', '( $a:id >= & $b:id )', 'vx_ge($a, &$b)', '*'), ('desugar', '& KeepInts :: merge ( $a ) == $c:id', 'KeepInts::merge($a) == *$c', '*'),
        ('desugar', '$a:id != $b:id', '!vx_eq($a, $b)', '*'), ('desugar', '$a:id == & $b:id', 'vx_eq($a, &$b)', '*'), ('desugar', '{ $a:id == mapped_to }', '{ vx_eq($a, mapped_to) }', '*'),
        ('desugar', '$x:id . chars ( ) . count ( )', 'vx_count(&$x)', '*'), ('desugar', 'vx_count ( & s )', 'vx_count(s)', '*'),
        ('desugar', '$s:id [ $a .. $b ] . vx_text ( )', 'vx_slice($s, $a, $b)', '*'),
        (used('s@', 'mapped_to@')[0], used('', '')[1].replace('| $b )', '| { $b } )'), used('s@', 'mapped_to@')[2], '*'), used('s@', 'to_ret@'),
        ('desugar', 'for $x:id in 0 .. $v:id . vx_len ( ) { $b }', '''let mut vx_p: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_p < $v.len()
                invariant vx_p <= $v@.len(), char_map.step(&vx_c0, s@.len() - 1), char_map.pr() == vx_c0.pr(), char_map.keeps(keep_ints), vx_c0.mids($v@, s@), cur_startpoint <= blen(s@), cur_startpoint > 0 ==> to_ret@.len() > 0,
                decreases $v@.len() - vx_p
            { let $x = vx_p; vx_p += 1; «proof { assert(vx_c0.mid($v@[$x as int], s@)); if $x > 0 { assert(vx_c0.mid($v@[$x - 1], s@)); } if $x + 1 < $v@.len() { assert(vx_c0.mid($v@[$x + 1], s@)); } }» $b }'''),
        CALL('gen_string_keep_substrings'), CALL('gen_gap_mapped')] + PUT,
        tail='decreases s@.len()',
        ensures='final(char_map).step(old(char_map), s@.len() as int), r matches Ok(t) ==> (t@.len() == 0) == (s@.len() == 0) && (t@.len() == 0 || final(char_map).sm().contains_key(s@) && final(char_map).sm()[s@]@ == t@)')
    stage4(u)
ANYVAL = lambda m, t: '''{ let vx_e = vx_list(&%s.string_map); let mut vx_b: bool = false; let mut vx_i: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_i < vx_e.len()
                    invariant vx_i <= vx_e@.len(), !vx_b ==> forall|j: int| 0 <= j < vx_i ==> (#[trigger] vx_e@[j]).1@ != %s@,
                    decreases vx_e@.len() - vx_i
                { let $v = vx_e[vx_i].1; if $b { vx_b = true; } vx_i += 1; } vx_b }''' % (m, t)
def stage4(u):
    u.fn(S, 'gen_string_freeforall', ret='r', requires='old(char_map).good()', pre='let ghost vx_c0 = *char_map;', rules=PRE + [
        ('desugar', 'char :: from_u32 ( $x ) . unwrap ( )', 'vx_char($x)', '*'), from_u,
        ('desugar', 'vx_char ( $x ) . vx_text ( ) . repeat ( $n:id )', 'vx_rep(vx_char($x), $n)', '*'), ('desugar', 'vx_char ( $x ) . vx_text ( ) . repeat ( $n:id ) ;', 'vx_rep(vx_char($x), $n);', '*'),
        ('desugar', 'while $m:id . string_map . values ( ) . any ( | $v:id | $b ) && $c { $body }', '''
            #[verifier::loop_isolation(false)]
            #[verifier::allow_complex_invariants]
            loop
                invariant *char_map == vx_c0, to_ret@.len() > 0, offset < cv(to_ret@[0]), 1 <= cur_offset <= 1 + cur_tries, 1 <= cur_reps <= 1 + 2 * cur_tries, 0 <= cur_tries <= retries, retries <= 1000,
                ensures *char_map == vx_c0, to_ret@.len() > 0, offset < cv(to_ret@[0]),
                decreases retries - cur_tries
            { let vx_found: bool = ''' + ANYVAL('$m', 'to_ret') + '''; if !(vx_found && $c) { break; } $body }''', '*'),
        ('desugar', '$m:id . string_map . values ( ) . any ( | $v:id | $b )', ANYVAL('$m', 'to_ret'), '*'),
        ('desugar', '$a:id == & to_ret', 'vx_eq($a, &to_ret)', '*'), ('ghost', 'Ok ( to_ret )', '«proof { lemma_above(char_map, _s@, to_ret@); }» Ok(to_ret)')],
        ensures='*final(char_map) == *old(char_map), r matches Ok(t) ==> t@.len() > 0 && old(char_map).free(_s@, t@)')
    u.fn(S, 'map_string_no_reconstruct', ret='r', requires='old(char_map).ok(), old(char_map).pr().contains_key(s@), old(char_map).ks(s@) && s@.len() > 0 && !old(char_map).short_end(s@) ==> old(char_map).sm().contains_key(s@)',
        pre='hide(CharMap::good); hide(CharMap::later); hide(CharMap::after); let ghost vx_c0 = *char_map; proof { lemma_same(char_map, s@.len() - 1); lemma_facts(char_map, s@); if char_map.sm().contains_key(s@) { lemma_got(char_map, s@); } }', rules=PRE + MAPS + [
        ('desugar', '$y:id = gen_string_keep_ranges ( $a ) ? ;', '«let ghost vx_b = *char_map;» let vx_r = gen_string_keep_ranges($a); «proof { lemma_chain(&vx_c0, &vx_b, char_map, s@.len() - 1); lemma_unchanged(&vx_b, char_map, s@); }» $y = vx_r?;', '*'),
        ('desugar', 'vx_get ( $x ) . unwrap ( ) . clone ( )', 'vx_pclone(vx_get($x).unwrap())'),
        ('desugar', 'for $r:id in & $m:id . ranges { $b }', '''let vx_l = $m.ranges.len(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l
                invariant vx_l == $m.ranges@.len(), vx_i <= vx_l, *$m == vx_c0, forall|j: int| 0 <= j < vx_i ==> !((#[trigger] $m.ranges@[j]).start_char == s@[0]) && !($m.ranges@[j].end_char == s@[0]),
                decreases vx_l - vx_i
            { let $r = &$m.ranges[vx_i]; «proof { assert(s@ =~= show(s@[0])); let vx_x = $m.ranges@[vx_i as int]; assert(vx_x.start_char == $r.start_char); if show($r.start_char) == s@ { assert(is_end($m.ranges@, $r.start_char)); lemma_short_it($m, $r.start_char); } if show($r.end_char) == s@ { assert(is_end($m.ranges@, $r.end_char)); lemma_short_it($m, $r.end_char); } }» $b vx_i += 1; } «proof { assert(!$m.short_end(s@)); }»'''),
        ('desugar', '$r:id . $f:id . vx_text ( ) == * s', 'vx_eq(&$r.$f.vx_text(), s)', '*'),
        ('desugar', '$m:id . char_map . get ( & $r:id . $f:id ) . unwrap ( )', 'vx_at(&$m.char_map, &$r.$f)', '*'),
        ('desugar', '$a:id . iter ( ) . all ( $x )', 'vx_any()', '*'),
        ('desugar', 'ranges . is_empty ( )', 'vx_set_empty(ranges)', '*'), ('desugar', '$s:id . is_empty ( )', 'vx_empty($s)', '*'),
        ('desugar', '( $a:id >= & $b:id )', 'vx_ge($a, &$b)', '*'), ('desugar', '& KeepInts :: merge ( $a ) == $c:id', 'KeepInts::merge($a) == *$c', '*'),
        ('desugar', '{ $a:id == mapped_to }', '{ vx_eq($a, mapped_to) }', '*'),
        (used('s@', 'mapped_to@')[0], used('', '')[1].replace('| $b )', '| { $b } )'), used('s@', 'mapped_to@')[2], '*')] + PUT,
        ensures='final(char_map).step(old(char_map), s@.len() as int), r matches Ok(t) ==> final(char_map).has_it(s@, t@) && final(char_map).fits(s@, t@) && (s@.len() == 0) == (t@.len() == 0)')
    u.add('mod string_mappings { pub use super::StringMapError; }')
    u.fn(F, 'construct_mapping', ret='r', requires='old(char_map).ok(), !old(char_map).char_to_char, listed(old(char_map).pr(), sorted_string_list@)',
        pre='let ghost vx_c0 = *char_map;', rules=PRE + MAPS + [
        ('desugar', 'HashMap :: new ( )', 'vx_new()'), ('desugar', 'string_map . insert ( $k , $v ) ;', 'vx_put(&mut string_map, $k, $v);'),
        ('desugar', 'range_set . is_empty ( )', 'vx_set_empty(range_set)'), ('desugar', 'string_mappings :: $f:id ( $a )', '$f($a)', '*'),
        ('desugar', 'for $s:id in & $l:id { $b }', '''let vx_n = $l.len(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_n
                invariant vx_n == $l@.len(), vx_i <= vx_n, char_map.ok(), char_map.after(&vx_c0), subs_done(char_map, $l@, vx_i as int),
                decreases vx_n - vx_i
            { let $s = &$l[vx_i]; «let ghost vx_b = *char_map; let ghost vx_s = $l@[vx_i as int]@; proof { assert(vx_s == $s@); assert(vx_c0.pr().contains_key(vx_s)); lemma_facts(char_map, vx_s); }» $b vx_i += 1; }'''),
        ('desugar', 'gen_string_keep_substrings ( $a ) ? ;', 'let vx_r = gen_string_keep_substrings($a); «proof { lemma_go(&vx_c0, &vx_b, char_map); lemma_subs(&vx_b, char_map, sorted_string_list@, vx_i as int); }» vx_r?;'),
        ('desugar', 'for $s:id in $l:id { $b }', '''let vx_n = $l.len(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_n
                invariant vx_n == $l@.len(), vx_i <= vx_n, char_map.ok(), char_map.after(&vx_c0), subs_done(char_map, $l@, vx_n as int), result(char_map, tmap(string_map)), all_in(tmap(string_map), $l@, vx_i as int),
                decreases vx_n - vx_i
            { let $s = $l[vx_i]; «let ghost vx_b = *char_map; let ghost vx_m = tmap(string_map); let ghost vx_s = $l@[vx_i as int]@; proof { assert(vx_s == $s@); assert(vx_c0.pr().contains_key(vx_s)); }» $b «proof { assert(all_in(tmap(string_map), $l@, vx_i + 1)) by { assert forall|j: int| 0 <= j < vx_i + 1 implies tmap(string_map).contains_key((#[trigger] $l@[j])@) by { if j < vx_i { assert(vx_m.contains_key($l@[j]@)); } } } }» vx_i += 1; }'''),
        ('desugar', 'let $x:id = if $c { $p } else { $q } ? ;', 'let vx_r = if $c { $p } else { $q }; «proof { lemma_go(&vx_c0, &vx_b, char_map); lemma_subs(&vx_b, char_map, sorted_string_list@, vx_n as int); if vx_r is Ok { lemma_result(&vx_b, char_map, vx_m, s@, vx_r->Ok_0); } }» let $x = vx_r?;'),
        ], ensures='final(char_map).ok(), final(char_map).after(old(char_map)), r matches Ok(lm) ==> result(final(char_map), tmap(lm)) && all_in(tmap(lm), sorted_string_list@, sorted_string_list@.len() as int)')
    u.fn(F, 'compute_replacement_strings', ret='r', requires='old(char_map).ok(), !old(char_map).char_to_char, forall|k: Text| #[trigger] lits(callgraph, cur_sym).contains(k) ==> old(char_map).pr().contains_key(k)',
        pre='let ghost vx_c0 = *char_map;', rules=[
        ('desugar', '$x:id . iter ( ) . collect :: < Vec < _ > > ( ) ;', 'vx_items(&$x);'), ('desugar', '$x:id . sort ( ) ;', '«let ghost vx_o = $x@;» vx_sorted(&mut $x); «proof { assert(listed(char_map.pr(), $x@)) by { assert forall|j: int| 0 <= j < $x@.len() implies char_map.pr().contains_key((#[trigger] $x@[j])@) by { assert(vx_o.contains($x@[j])); } } }»'),
        ('desugar', '$m:id . string_map . extend ( $x:id . clone ( ) ) ;', '«let ghost vx_b = *$m;» let vx_x = vx_mclone(&$x); vx_extend(&mut $m.string_map, vx_x); «proof { lemma_extend(&vx_b, $m, tmap($x)); lemma_go(&vx_c0, &vx_b, $m); }»'),
        ('desugar', '. unwrap ( ) ;', '.ok().unwrap();')],
        ensures='final(char_map).ok(), final(char_map).after(old(char_map))')
