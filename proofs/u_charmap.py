"""The character mapping (T03): set-up of ranges and digits, mapping of literals, completion of the ranges."""
from tr_common import *
F, G, S = TR + 'transpiler.rs', TR + 'string_fcts.rs', TR + 'string_mappings.rs'
SPEC = r'''
#[verifier::external_body]
pub struct MappedStringMetaObj { x: () }
#[derive(Debug)]
pub enum StringMapError { MaintainEverythingStringProps, RemapRetryCountExceeded, SuffixPrefixOverlap, MidstringPartialOverlap, MappedSubstringsConflict }
// assumed: hashing and equality of characters are those of the characters
pub mod vx_ax2 { use vstd::prelude::*;
#[verifier::external_body]
pub broadcast proof fn axiom_char_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<char>() {}
}
pub type CMap = Map<char, char>;
/// every character of every range has an image
pub open spec fn complete(m: CMap, rs: Seq<RangeParams>) -> bool { forall|i: int, c: char| 0 <= i < rs.len() && inr(#[trigger] rs[i], c) ==> #[trigger] m.contains_key(c) }
pub open spec fn cv(c: char) -> int { c as u32 as int }
/// the characters that are not used when characters are mapped
pub open spec fn illegal(x: int) -> bool { x == 92 || x == 13 || x == 34 || x == 15 || x == 127 }
pub open spec fn ill_list(s: Seq<char>) -> bool { s == seq!['\\', '\r', '"', '\u{f}', '\u{7f}'] }
/// assumed: `char::from_u32(x).unwrap()` is the character numbered x, or there is no result (panic)
#[verifier::external_body]
pub fn vx_char(x: u32) -> (c: char) ensures cv(c) == x, x <= 0x10ffff { char::from_u32(x).unwrap() }
/// assumed: `contains` of a slice
#[verifier::external_body]
pub fn vx_contains(v: &Vec<char>, c: char) -> (b: bool) ensures b == v@.contains(c), ill_list(v@) ==> b == illegal(cv(c)) { v.contains(&c) }
#[verifier::external_body]
pub fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }
/// assumed: the requirements of a literal, found by its text
#[verifier::external_body]
pub fn vx_props<'a>(m: &'a HashMap<String, StringSetProperties>, s: &str) -> (r: Option<&'a StringSetProperties>) { m.get(s) }

pub open spec fn inr(r: RangeParams, c: char) -> bool { cv(r.start_char) <= cv(c) && cv(c) <= cv(r.end_char) }
pub open spec fn lo(m: CMap, r: RangeParams) -> int { cv(m[r.start_char]) }
pub open spec fn hi(m: CMap, r: RangeParams) -> int { cv(m[r.end_char]) }
/// some character of the range has no image yet
pub open spec fn opened(m: CMap, r: RangeParams) -> bool { exists|c: char| inr(r, c) && !#[trigger] m.contains_key(c) }
pub open spec fn is_mapped(m: CMap, x: int) -> bool { exists|c: char| cv(c) == x && #[trigger] m.contains_key(c) }
pub open spec fn unmapped(m: CMap, a: int, b: int) -> int decreases b - a
{ if a >= b { 0 } else { unmapped(m, a, b - 1) + if is_mapped(m, b - 1) { 0int } else { 1 } } }
pub open spec fn ills(a: int, b: int) -> int decreases b - a
{ if a >= b { 0 } else { ills(a, b - 1) + if illegal(b - 1) { 1int } else { 0 } } }
/// enough unused values are left for the characters of the range that have no image yet
pub open spec fn room(m: CMap, r: RangeParams) -> bool {
    lo(m, r) < r.cur_offset && unmapped(m, cv(r.start_char) + 1, cv(r.end_char)) + ills(r.cur_offset as int, hi(m, r)) <= hi(m, r) - r.cur_offset
}
pub open spec fn apart(m: CMap, r: RangeParams, s: RangeParams) -> bool {
    (cv(r.end_char) < cv(s.start_char) || cv(s.end_char) < cv(r.start_char)) && (hi(m, r) < lo(m, s) || hi(m, s) < lo(m, r))
}
pub open spec fn inj(m: CMap) -> bool { forall|c: char, d: char| #[trigger] m.contains_key(c) && #[trigger] m.contains_key(d) && m[c] == m[d] ==> c == d }
pub open spec fn below(m: CMap, n: int) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> cv(m[c]) < n }
pub open spec fn legal(m: CMap) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> !illegal(cv(m[c])) || m[c] == c }
pub open spec fn ends(m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> m.contains_key((#[trigger] rs[i]).start_char) && m.contains_key(rs[i].end_char) && cv(rs[i].start_char) <= cv(rs[i].end_char)
}
/// exactly the characters of a range are mapped into the image of the range
pub open spec fn kept(m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int, c: char| 0 <= i < rs.len() && #[trigger] m.contains_key(c) ==> inr(#[trigger] rs[i], c) == (lo(m, rs[i]) <= cv(m[c]) && cv(m[c]) <= hi(m, rs[i]))
}
pub open spec fn rooms(m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int| 0 <= i < rs.len() && opened(m, #[trigger] rs[i]) ==> room(m, rs[i])
}
pub open spec fn unused(m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int, c: char| 0 <= i < rs.len() && opened(m, #[trigger] rs[i]) && #[trigger] m.contains_key(c) ==> !(rs[i].cur_offset <= cv(m[c]) && cv(m[c]) < hi(m, rs[i]))
}
pub open spec fn aparts(m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j && opened(m, #[trigger] rs[i]) ==> apart(m, rs[i], #[trigger] rs[j])
}
#[verifier::opaque]
pub open spec fn inv(m: CMap, rs: Seq<RangeParams>, n: int) -> bool {
    inj(m) && ends(m, rs) && kept(m, rs) && rooms(m, rs) && unused(m, rs) && aparts(m, rs) && below(m, n) && legal(m)
}
pub open spec fn grows(m: CMap, n: CMap) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> n.contains_key(c) && n[c] == m[c] }
pub open spec fn same_ranges(a: Seq<RangeParams>, b: Seq<RangeParams>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).start_char == b[i].start_char && a[i].end_char == b[i].end_char
}
pub proof fn lemma_cv(c: char, d: char) requires cv(c) == cv(d) ensures c == d {}
pub proof fn lemma_unmapped_ge(m: CMap, a: int, b: int) ensures unmapped(m, a, b) >= 0, ills(a, b) >= 0 decreases b - a
{ if a < b { lemma_unmapped_ge(m, a, b - 1); } }
pub proof fn lemma_unmapped_pos(m: CMap, a: int, b: int, c: char) requires a <= cv(c) < b, !m.contains_key(c) ensures unmapped(m, a, b) >= 1 decreases b - a
{ lemma_unmapped_ge(m, a, b - 1); if is_mapped(m, b - 1) { assert(b - 1 != cv(c)) by { if b - 1 == cv(c) { let d = choose|d: char| cv(d) == b - 1 && #[trigger] m.contains_key(d); lemma_cv(c, d); } } }
  if cv(c) < b - 1 { lemma_unmapped_pos(m, a, b - 1, c); } }
pub proof fn lemma_unmapped_ins(m: CMap, a: int, b: int, c: char, v: char)
    requires !m.contains_key(c)
    ensures unmapped(m.insert(c, v), a, b) == unmapped(m, a, b) - if a <= cv(c) && cv(c) < b { 1int } else { 0 }
    decreases b - a
{
    if a < b {
        lemma_unmapped_ins(m, a, b - 1, c, v);
        let n = m.insert(c, v);
        if is_mapped(m, b - 1) { let d = choose|d: char| cv(d) == b - 1 && #[trigger] m.contains_key(d); assert(n.contains_key(d)); assert(d != c); if cv(d) == cv(c) { lemma_cv(c, d); } }
        else if is_mapped(n, b - 1) { let d = choose|d: char| cv(d) == b - 1 && #[trigger] n.contains_key(d); if d != c { assert(m.contains_key(d)); } }
        if b - 1 == cv(c) { assert(n.contains_key(c)); }
    }
}
pub proof fn lemma_ills(a: int, b: int) requires a < b ensures ills(a, b) == ills(a + 1, b) + if illegal(a) { 1int } else { 0 } decreases b - a
{ reveal_with_fuel(ills, 2); if a + 1 < b { lemma_ills(a, b - 1); } }
/// the next value of a range that is open is unused, legal and inside
pub proof fn lemma_next(m: CMap, rs: Seq<RangeParams>, n: int, k: int, c: char)
    requires inv(m, rs, n), 0 <= k < rs.len(), inr(rs[k], c), !m.contains_key(c),
    ensures ({ let o = rs[k].cur_offset as int; let v = if illegal(o) { o + 1 } else { o };
        lo(m, rs[k]) < v && v < hi(m, rs[k]) && !illegal(v) && v <= 0x10ffff && cv(rs[k].start_char) < cv(c) && cv(c) < cv(rs[k].end_char) }),
{
    reveal(inv);
    let r = rs[k];
    assert(opened(m, r));
    if cv(c) == cv(r.start_char) { lemma_cv(c, r.start_char); }
    if cv(c) == cv(r.end_char) { lemma_cv(c, r.end_char); }
    lemma_unmapped_pos(m, cv(r.start_char) + 1, cv(r.end_char), c);
    lemma_unmapped_ge(m, r.cur_offset as int, hi(m, r));
    assert(r.cur_offset < hi(m, r));
    lemma_ills(r.cur_offset as int, hi(m, r));
    lemma_unmapped_ge(m, r.cur_offset as int + 1, hi(m, r));
}
/// mapping one more character of an open range
pub proof fn lemma_in(m: CMap, rs: Seq<RangeParams>, n: int, k: int, c: char, v: char, ss: Seq<RangeParams>)
    requires inv(m, rs, n), 0 <= k < rs.len(), inr(rs[k], c), !m.contains_key(c),
        ({ let o = rs[k].cur_offset as int; cv(v) == if illegal(o) { o + 1 } else { o } }),
        same_ranges(rs, ss), ss[k].cur_offset == cv(v) + 1, forall|i: int| 0 <= i < rs.len() && i != k ==> (#[trigger] ss[i]) == rs[i],
    ensures inv(m.insert(c, v), ss, n), grows(m, m.insert(c, v)),
{
    let w = m.insert(c, v); let r = rs[k];
    lemma_next(m, rs, n, k, c);
    reveal(inv);
    assert(opened(m, r));
    assert forall|i: int| 0 <= i < ss.len() implies lo(w, #[trigger] ss[i]) == lo(m, rs[i]) && hi(w, ss[i]) == hi(m, rs[i]) && (opened(w, ss[i]) ==> opened(m, rs[i])) by {
        assert(rs[i].start_char == ss[i].start_char);
        assert(m.contains_key(rs[i].start_char) && m.contains_key(rs[i].end_char));
        if opened(w, ss[i]) { let d = choose|d: char| inr(ss[i], d) && !#[trigger] w.contains_key(d); assert(!m.contains_key(d)); assert(inr(rs[i], d)); }
    }
    assert(m.contains_key(r.end_char));
    assert(below(w, n)) by { assert(cv(v) < hi(m, r)); assert(cv(m[r.end_char]) < n);
        assert forall|d: char| #[trigger] w.contains_key(d) implies cv(w[d]) < n by { if d != c { assert(m.contains_key(d)); } } }
    assert(inj(w)) by {
        assert forall|d: char, e: char| #[trigger] w.contains_key(d) && #[trigger] w.contains_key(e) && w[d] == w[e] implies d == e by {
            if d != c { assert(m.contains_key(d)); } if e != c { assert(m.contains_key(e)); }
            if d != e && (d == c || e == c) { let f = if d == c { e } else { d }; assert(m.contains_key(f)); assert(m[f] == v); assert(rs[k].cur_offset <= cv(m[f]) && cv(m[f]) < hi(m, rs[k])); }
        }
    }
    assert(kept(w, ss)) by {
        assert forall|i: int, d: char| 0 <= i < ss.len() && #[trigger] w.contains_key(d) implies inr(#[trigger] ss[i], d) == (lo(w, ss[i]) <= cv(w[d]) && cv(w[d]) <= hi(w, ss[i])) by {
            assert(inr(ss[i], d) == inr(rs[i], d));
            if d != c { assert(m.contains_key(d)); } else if i != k { assert(apart(m, rs[k], rs[i])); }
        }
    }
    assert(unused(w, ss)) by {
        assert forall|i: int, d: char| 0 <= i < ss.len() && opened(w, #[trigger] ss[i]) && #[trigger] w.contains_key(d) implies !(ss[i].cur_offset <= cv(w[d]) && cv(w[d]) < hi(w, ss[i])) by {
            assert(opened(m, rs[i]));
            if d != c { assert(m.contains_key(d)); assert(!(rs[i].cur_offset <= cv(m[d]) && cv(m[d]) < hi(m, rs[i]))); } else if i != k { assert(apart(m, rs[k], rs[i])); assert(room(m, rs[i])); }
        }
    }
    assert(rooms(w, ss)) by {
        assert forall|i: int| 0 <= i < ss.len() && opened(w, #[trigger] ss[i]) implies room(w, ss[i]) by {
            assert(opened(m, rs[i])); assert(room(m, rs[i]));
            lemma_unmapped_ins(m, cv(rs[i].start_char) + 1, cv(rs[i].end_char), c, v);
            if i == k {
                let o = r.cur_offset as int;
                lemma_ills(o, hi(m, r));
                if illegal(o) { lemma_ills(o + 1, hi(m, r)); }
            }
        }
    }
    assert(aparts(w, ss)) by {
        assert forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss.len() && i != j && opened(w, #[trigger] ss[i]) implies apart(w, ss[i], #[trigger] ss[j]) by { assert(opened(m, rs[i])); assert(apart(m, rs[i], rs[j])); }
    }
    assert(ends(w, ss)) by { assert forall|i: int| 0 <= i < ss.len() implies w.contains_key((#[trigger] ss[i]).start_char) && w.contains_key(ss[i].end_char) && cv(ss[i].start_char) <= cv(ss[i].end_char) by { assert(m.contains_key(rs[i].start_char)); } }
    assert(legal(w)) by { assert forall|d: char| #[trigger] w.contains_key(d) implies !illegal(cv(w[d])) || w[d] == d by { if d != c { assert(m.contains_key(d)); } } }
}
/// mapping a character outside all ranges to a value above all others
pub proof fn lemma_out(m: CMap, rs: Seq<RangeParams>, n: int, c: char, v: char)
    requires inv(m, rs, n), !m.contains_key(c), forall|i: int| 0 <= i < rs.len() ==> !inr(#[trigger] rs[i], c), cv(v) >= n, !illegal(cv(v)),
    ensures inv(m.insert(c, v), rs, cv(v) + 1), grows(m, m.insert(c, v)),
{
    let w = m.insert(c, v);
    reveal(inv);
    assert forall|i: int| 0 <= i < rs.len() implies lo(w, #[trigger] rs[i]) == lo(m, rs[i]) && hi(w, rs[i]) == hi(m, rs[i]) && hi(m, rs[i]) < n && (opened(w, rs[i]) ==> opened(m, rs[i])) by {
        assert(m.contains_key(rs[i].start_char) && m.contains_key(rs[i].end_char));
        if opened(w, rs[i]) { let d = choose|d: char| inr(rs[i], d) && !#[trigger] w.contains_key(d); assert(!m.contains_key(d)); }
    }
    assert(below(w, cv(v) + 1)) by { assert forall|d: char| #[trigger] w.contains_key(d) implies cv(w[d]) < cv(v) + 1 by { if d != c { assert(m.contains_key(d)); } } }
    assert(inj(w)) by {
        assert forall|d: char, e: char| #[trigger] w.contains_key(d) && #[trigger] w.contains_key(e) && w[d] == w[e] implies d == e by {
            if d != c { assert(m.contains_key(d)); } if e != c { assert(m.contains_key(e)); }
        }
    }
    assert(kept(w, rs)) by {
        assert forall|i: int, d: char| 0 <= i < rs.len() && #[trigger] w.contains_key(d) implies inr(#[trigger] rs[i], d) == (lo(w, rs[i]) <= cv(w[d]) && cv(w[d]) <= hi(w, rs[i])) by {
            if d != c { assert(m.contains_key(d)); }
        }
    }
    assert(unused(w, rs)) by {
        assert forall|i: int, d: char| 0 <= i < rs.len() && opened(w, #[trigger] rs[i]) && #[trigger] w.contains_key(d) implies !(rs[i].cur_offset <= cv(w[d]) && cv(w[d]) < hi(w, rs[i])) by {
            assert(opened(m, rs[i])); if d != c { assert(m.contains_key(d)); assert(!(rs[i].cur_offset <= cv(m[d]) && cv(m[d]) < hi(m, rs[i]))); }
        }
    }
    assert(rooms(w, rs)) by {
        assert forall|i: int| 0 <= i < rs.len() && opened(w, #[trigger] rs[i]) implies room(w, rs[i]) by {
            assert(opened(m, rs[i])); assert(room(m, rs[i])); lemma_unmapped_ins(m, cv(rs[i].start_char) + 1, cv(rs[i].end_char), c, v);
        }
    }
    assert(aparts(w, rs)) by {
        assert forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j && opened(w, #[trigger] rs[i]) implies apart(w, rs[i], #[trigger] rs[j]) by { assert(opened(m, rs[i])); assert(apart(m, rs[i], rs[j])); }
    }
    assert(legal(w)) by { assert forall|d: char| #[trigger] w.contains_key(d) implies !illegal(cv(w[d])) || w[d] == d by { if d != c { assert(m.contains_key(d)); } } }
}
pub proof fn lemma_weaken(m: CMap, rs: Seq<RangeParams>, a: int, b: int) requires inv(m, rs, a), a <= b ensures inv(m, rs, b) { reveal(inv); }
pub proof fn lemma_one_range(m: CMap, rs: Seq<RangeParams>, n: int, i: int, j: int, c: char)
    requires inv(m, rs, n), 0 <= i < rs.len(), 0 <= j < rs.len(), inr(rs[i], c), inr(rs[j], c), !m.contains_key(c) ensures i == j
{ reveal(inv); if i != j { assert(opened(m, rs[i])); assert(apart(m, rs[i], rs[j])); } }

/// the characters from a up to b, b included or not
pub open spec fn stretch(s: Seq<char>, a: char, b: char, incl: bool) -> bool {
    (forall|c: char| #[trigger] s.contains(c) <==> cv(a) <= cv(c) && (cv(c) < cv(b) || incl && cv(c) == cv(b)))
    && forall|i: int, j: int| 0 <= i < j < s.len() ==> cv(#[trigger] s[i]) < cv(#[trigger] s[j])
}
/// assumed: a range of characters runs through the characters between its ends in order
#[verifier::external_body]
pub fn vx_chars(a: char, b: char, incl: bool) -> (r: Vec<char>) ensures stretch(r@, a, b, incl) { if incl { (a..=b).collect() } else { (a..b).collect() } }
/// a list of pairs that is the table of a map
pub open spec fn table(v: Seq<(char, char)>, m: CMap) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1)
    && (forall|c: char| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == c)
    && (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0 == (#[trigger] v[j]).0 ==> i == j)
}
pub proof fn lemma_table(v: Seq<(char, char)>, m: CMap, c: char, d: char)
    requires table(v, m), !m.contains_key(c)
    ensures table(v.push((c, d)), m.insert(c, d))
{
    let (w, n) = (v.push((c, d)), m.insert(c, d));
    assert forall|x: char| #[trigger] n.contains_key(x) implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == x by {
        if x == c { assert(w[v.len() as int].0 == c); } else { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x; assert(w[i].0 == x); } }
}
/// assumed: `iter()` of a hash map runs through its entries, each key once
#[verifier::external_body]
pub fn vx_entries(m: &HashMap<char, char>) -> (r: Vec<(char, char)>) ensures table(r@, m@) { m.iter().map(|(a, b)| (*a, *b)).collect() }
impl CharMap {
    pub open spec fn m(&self) -> CMap { self.char_map@ }
    /// what holds between two literals
    pub open spec fn good(&self) -> bool { inv(self.m(), self.ranges@, self.non_range_offset as int) && ill_list(self.illegal_chars@) && self.non_range_offset <= 0x200000 }
    /// earlier images stay, ranges stay
    pub open spec fn later(&self, o: &CharMap) -> bool { grows(o.m(), self.m()) && same_ranges(o.ranges@, self.ranges@) && self.string_map == o.string_map && self.string_lit_props == o.string_lit_props && self.char_to_char == o.char_to_char && self.persist_string_map == o.persist_string_map }
}
'''
CHARS = [('desugar', 'char :: from_u32 ( $x ) . unwrap ( )', 'vx_char($x)', '*'),
         ('desugar', '$m:id . illegal_chars . contains ( & vx_char ( $x ) )', 'vx_contains(&$m.illegal_chars, vx_char($x))', '*')]
def types(u):
    props_types(u)
    u.item(F, 'struct', 'RangeParams', prefix='#[derive(Clone, Copy)]\npub ')
    u.item(F, 'struct', 'CharMap', prefix='pub ')
def literal_fns(u):
    u.fn(S, 'update_and_get_next_char', ret='r', rules=CHARS, requires='offset < u32::MAX - 3',
         ensures='''ill_list(old(char_map).illegal_chars@) ==> r == (if illegal(offset + 1) { offset + 2 } else { offset + 1 }) && !illegal(r as int),
            r <= 0x110000,
            final(char_map).non_range_offset == (if update_map_offset { (r + 1) as u32 } else { old(char_map).non_range_offset }),
            *final(char_map) == (CharMap { non_range_offset: final(char_map).non_range_offset, ..*old(char_map) })''')
    u.fn(S, 'map_string_char_to_char', ret='r', rules=CHARS + [
        ('desugar', '$m:id . string_lit_props . get ( s ) . unwrap ( )', 'vx_unwrap(vx_props(&$m.string_lit_props, s))', '*'),
        ('desugar', 'Ok ( $s:id . chars ( ) . map ( | $c:id | match $e { Some ( $n:id ) => * $n , None => { $b } } ) . collect :: < String > ( ) )',
         '''let mut vx_out = String::new();
            for $c in vx_it: $s.chars()
                invariant char_map.good(), char_map.later(old(char_map)), vx_out@.len() == vx_it.index@,
                    forall|i: int| 0 <= i < vx_out@.len() ==> char_map.m().contains_key(#[trigger] $s@[i]) && vx_out@[i] == char_map.m()[$s@[i]],
            { «let ghost vx_m = char_map.m(); let ghost vx_r = char_map.ranges@; let ghost vx_n = char_map.non_range_offset as int; let ghost vx_c0 = $c; proof { assert(vx_c0 == s@[vx_it.index@]); }»
              let vx_c: char = match $e { Some($n) => *$n, None => { $b } };
              vx_out.push(vx_c); } Ok(vx_out)'''),
        ('desugar', 'let mut $in:id = false ; let mut $of:id = $e ; for $r:id in & mut $m:id . ranges { $b }', '''let mut $in: bool = false; let mut $of: u32 = $e; «let ghost mut vx_k: int = -1;» let vx_l = $m.ranges.len(); let mut vx_i = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l
                invariant vx_l == $m.ranges@.len(), vx_i <= vx_l, inv(vx_m, vx_r, vx_n), ill_list($m.illegal_chars@), !vx_m.contains_key(vx_c0), $m.m() == vx_m, $m.non_range_offset == vx_n, same_ranges(vx_r, $m.ranges@),
                    $m.string_map == old($m).string_map, $m.string_lit_props == old($m).string_lit_props, $m.char_to_char == old($m).char_to_char, $m.persist_string_map == old($m).persist_string_map,
                    $in == (0 <= vx_k), vx_k < vx_i, !$in ==> $m.ranges@ == vx_r && $of == vx_n && forall|j: int| 0 <= j < vx_i ==> !inr(#[trigger] vx_r[j], vx_c0),
                    $in ==> inr(vx_r[vx_k], vx_c0) && $of == (if illegal(vx_r[vx_k].cur_offset as int) { vx_r[vx_k].cur_offset + 1 } else { vx_r[vx_k].cur_offset as int })
                        && $m.ranges@[vx_k].cur_offset == $of + 1 && forall|j: int| 0 <= j < vx_r.len() && j != vx_k ==> $m.ranges@[j] == #[trigger] vx_r[j],
                decreases vx_l - vx_i
            { «proof { if inr(vx_r[vx_i as int], vx_c0) { lemma_next(vx_m, vx_r, vx_n, vx_i as int, vx_c0); if $in { lemma_one_range(vx_m, vx_r, vx_n, vx_i as int, vx_k, vx_c0); } vx_k = vx_i as int; } }»
              let $r = &mut $m.ranges[vx_i]; $b vx_i += 1; }'''),
        ('ghost', '$m:id . char_map . insert ( $c:id , vx_char ( $o ) ) ;', """«proof { assert($c == vx_c0); if vx_k >= 0 { lemma_next(vx_m, vx_r, vx_n, vx_k, vx_c0); } }» $m.char_map.insert($c, vx_char($o));
            «proof { let vx_v = $m.m()[vx_c0]; assert($m.m() == vx_m.insert(vx_c0, vx_v)); if vx_k >= 0 { lemma_in(vx_m, vx_r, vx_n, vx_k, vx_c0, vx_v, $m.ranges@); } else { lemma_out(vx_m, vx_r, vx_n, vx_c0, vx_v); lemma_weaken($m.m(), vx_r, cv(vx_v) + 1, $m.non_range_offset as int); } }»"""),
        ], requires='old(char_map).good()',
         ensures='''final(char_map).good(), final(char_map).later(old(char_map)),
            r matches Ok(t) ==> t@.len() == s@.len() && forall|i: int| 0 <= i < s@.len() ==> final(char_map).m().contains_key(#[trigger] s@[i]) && t@[i] == final(char_map).m()[s@[i]]''')
def build(u):
    u.add(HEAD)
    types(u)
    u.add(PROPS_SPEC.replace('broadcast use {vx_ax::axiom_char_pair_key,', 'broadcast use {vx_ax::axiom_char_pair_key, vx_ax2::axiom_char_key,') + SPEC)
    literal_fns(u)
    u.fn(F, 'populate_ranges', ret='r', rules=CHARS + [
        ('desugar', '$m:id . char_map . iter ( ) . map ( | ( $a:id , $b:id ) | ( * $a , * $b ) ) . collect :: < Vec < ( char , char ) > > ( )', 'vx_entries(&$m.char_map)'),
        ('desugar', 'let mut $v:id = vx_entries ( $e ) ; for $r:id in $m:id . ranges . iter ( ) { let mut $o:id = $r2:id . cur_offset ; for $c:id in $a:tt . $a2:tt .. $b:tt . $b2:tt { if $cond { $body } } }',
         """let mut $v: Vec<(char, char)> = vx_entries($e);
            «let ghost m = $m.m(); let ghost rs = $m.ranges@; let ghost n = $m.non_range_offset as int; let ghost mut w = m; let ghost mut ss = rs;»
            let vx_l = $m.ranges.len(); let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l
                invariant vx_k <= vx_l, m == $m.m(), rs == $m.ranges@, inv(w, ss, n), inv(m, rs, n), same_ranges(rs, ss), grows(m, w), table($v@, w), forall|i: int| vx_k <= i < rs.len() ==> #[trigger] ss[i] == rs[i],
                    forall|i: int, c: char| 0 <= i < vx_k && inr(#[trigger] rs[i], c) ==> #[trigger] w.contains_key(c),
                    forall|c: char| #[trigger] w.contains_key(c) && !m.contains_key(c) ==> exists|i: int| 0 <= i < vx_k && inr(#[trigger] rs[i], c),
                decreases vx_l - vx_k
            {   let $r = &$m.ranges[vx_k];
                let mut $o: u32 = $r2.cur_offset; let vx_s = vx_chars($a.$a2, $b.$b2, false); let mut vx_i: usize = 0;
                «let ghost k = vx_k as int; proof { if vx_s@.len() == 0 { } }»
                #[verifier::loop_isolation(false)]
                while vx_i < vx_s.len()
                    invariant vx_i <= vx_s@.len(), 0 <= k < rs.len(), k == vx_k, stretch(vx_s@, rs[k].start_char, rs[k].end_char, false), inv(w, ss, n), inv(m, rs, n), same_ranges(rs, ss), grows(m, w), table($v@, w),
                        forall|i: int| vx_k < i < rs.len() ==> #[trigger] ss[i] == rs[i], ss[k].cur_offset == $o,
                        forall|i: int, c: char| 0 <= i < vx_k && inr(#[trigger] rs[i], c) ==> #[trigger] w.contains_key(c),
                        forall|c: char| #[trigger] w.contains_key(c) && !m.contains_key(c) ==> (exists|i: int| 0 <= i < k && inr(#[trigger] rs[i], c)) || inr(rs[k], c) && exists|i: int| 0 <= i < vx_i && #[trigger] vx_s@[i] == c,
                        forall|i: int| 0 <= i < vx_i ==> w.contains_key(#[trigger] vx_s@[i]),
                    decreases vx_s@.len() - vx_i
                {   let $c: char = vx_s[vx_i];
                    «proof { assert(vx_s@.contains($c)); assert(inr(rs[k], $c)); assert(inr(ss[k], $c)); }
                    let ghost vx_g = $v@;»
                    if $cond {
                        «proof { if w.contains_key($c) {
                                if exists|i: int| 0 <= i < k && inr(#[trigger] rs[i], $c) { let i = choose|i: int| 0 <= i < k && inr(#[trigger] rs[i], $c); lemma_one_range(m, rs, n, i, k, $c); assert(false); }
                                else { let i = choose|i: int| 0 <= i < vx_i && #[trigger] vx_s@[i] == $c; assert(cv(vx_s@[i]) < cv(vx_s@[vx_i as int])); assert(false); } }
                            lemma_next(w, ss, n, k, $c); }»
                        $body
                        «proof { let d = $v@.last().1; let q = RangeParams { start_char: ss[k].start_char, end_char: ss[k].end_char, cur_offset: $o }; let tt = ss.update(k, q);
                            assert($v@ == vx_g.push(($c, d)));
                            lemma_in(w, ss, n, k, $c, d, tt); lemma_table(vx_g, w, $c, d);
                            let w0 = w;
                            w = w.insert($c, d); ss = tt;
                            assert forall|c: char| #[trigger] w.contains_key(c) && !m.contains_key(c) implies (exists|i: int| 0 <= i < k && inr(#[trigger] rs[i], c)) || inr(rs[k], c) && exists|i: int| 0 <= i < vx_i + 1 && #[trigger] vx_s@[i] == c by {
                                if c == $c { assert(vx_s@[vx_i as int] == c); } else { assert(w0.contains_key(c)); } } }»
                    }
                    «proof { assert(w.contains_key($c)); }»
                    vx_i += 1; }
                «proof { reveal(inv);
                    assert forall|i: int, c: char| 0 <= i < vx_k + 1 && inr(#[trigger] rs[i], c) implies #[trigger] w.contains_key(c) by {
                        if i == vx_k { if cv(c) == cv(rs[k].end_char) { lemma_cv(c, rs[k].end_char); assert(m.contains_key(c)); } else { assert(vx_s@.contains(c)); let j = choose|j: int| 0 <= j < vx_s@.len() && vx_s@[j] == c; assert(w.contains_key(vx_s@[j])); } } } }»
                vx_k += 1; }
            «proof { reveal(inv); assert(complete(w, rs)); assert(kept(w, rs)) by { assert forall|i: int, c: char| 0 <= i < rs.len() && #[trigger] w.contains_key(c) implies inr(#[trigger] rs[i], c) == (lo(w, rs[i]) <= cv(w[c]) && cv(w[c]) <= hi(w, rs[i])) by { assert(inr(ss[i], c) == inr(rs[i], c)); } } }»"""),
        ], requires='char_map.good()',
         ensures="""exists|w: CMap| #[trigger] table(r@, w) && grows(char_map.m(), w) && inj(w) && complete(w, char_map.ranges@) && kept(w, char_map.ranges@)""")
