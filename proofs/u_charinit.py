"""Set-up of the character mapping (T03): digits and ranges get their images before any literal is mapped."""
from tr_common import *
import u_charmap, u_fct
F, G, S, C = TR + 'transpiler.rs', TR + 'string_fcts.rs', TR + 'string_mappings.rs', TR + 'callgraph.rs'
SPEC = r'''
pub type Pair = (char, char);
#[verifier::external_body]
pub struct Opaque { x: () }
/// the set of function applications of a partition, in some order
#[verifier::external_body]
pub struct FctSet { x: () }
impl FctSet { pub uninterp spec fn view(&self) -> Seq<(StringFct, StringFctArgs)>;
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<(StringFct, StringFctArgs)>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn vx_clone(a: &StringFctArgs) -> (r: StringFctArgs) ensures r == *a { unimplemented!() }
/// assumed (standard library): a sorted set of pairs of characters
#[verifier::external_body]
pub struct PairSet { x: () }
impl PairSet {
    pub uninterp spec fn view(&self) -> Set<Pair>;
    #[verifier::external_body]
    pub fn new() -> (r: PairSet) ensures r@ == Set::<Pair>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: Pair) -> (b: bool) ensures final(self)@ == old(self)@.insert(p) { unimplemented!() }
    /// its elements in order
    #[verifier::external_body]
    pub fn vx_list(self) -> (r: Vec<Pair>)
        ensures forall|p: Pair| #[trigger] r@.contains(p) <==> self@.contains(p),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> pair_lt(#[trigger] r@[i], #[trigger] r@[j])
    { unimplemented!() }
}
pub open spec fn pair_lt(a: Pair, b: Pair) -> bool { cv(a.0) < cv(b.0) || a.0 == b.0 && cv(a.1) < cv(b.1) }
pub fn vx_max_u(a: u32, b: u32) -> (r: u32) ensures r == max(a as int, b as int) { if a >= b { a } else { b } }
/// the order of the standard library on optional characters: nothing comes first
pub open spec fn ole(a: Option<char>, b: Option<char>) -> bool { match (a, b) { (None, _) => true, (_, None) => false, (Some(x), Some(y)) => cv(x) <= cv(y) } }
pub fn vx_ole(a: Option<char>, b: Option<char>) -> (r: bool) ensures r == ole(a, b) { match (a, b) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x <= y } }
pub fn vx_omax(a: Option<char>, b: Option<char>) -> (r: Option<char>) ensures r == (if ole(a, b) { b } else { a }) { if vx_ole(a, b) { b } else { a } }
pub open spec fn ordered(s: Set<Pair>) -> bool { forall|p: Pair| #[trigger] s.contains(p) ==> cv(p.0) <= cv(p.1) }
pub open spec fn within(p: Pair, c: char) -> bool { cv(p.0) <= cv(c) && cv(c) <= cv(p.1) }
/// one group: sorted by first character, and every range starts where an earlier one has not ended yet
pub open spec fn group_ok(g: Seq<Pair>) -> bool {
    g.len() > 0 && (forall|i: int| 0 <= i < g.len() ==> cv((#[trigger] g[i]).0) <= cv(g[i].1))
    && (forall|i: int, j: int| 0 <= i < j < g.len() ==> cv((#[trigger] g[i]).0) <= cv((#[trigger] g[j]).0))
    && linked(g)
}
#[verifier::opaque]
pub open spec fn linked(g: Seq<Pair>) -> bool { forall|j: int| 0 < j < g.len() ==> exists|i: int| 0 <= i < j && cv((#[trigger] g[j]).0) <= cv((#[trigger] g[i]).1) }
#[verifier::opaque]
pub open spec fn has_end(g: Seq<Pair>, e: char) -> bool { exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).1 == e }
/// ranges of different groups have no character in common, those of earlier groups come first
pub open spec fn groups_apart(gs: Seq<Vec<Pair>>) -> bool {
    forall|i: int, j: int, k: int, l: int| 0 <= i < j < gs.len() && 0 <= k < gs[i]@.len() && 0 <= l < gs[j]@.len() ==> cv((#[trigger] gs[i]@[k]).1) < cv((#[trigger] gs[j]@[l]).0)
}
pub open spec fn groups_ok(gs: Seq<Vec<Pair>>) -> bool { groups_apart(gs) && forall|i: int| 0 <= i < gs.len() ==> group_ok((#[trigger] gs[i])@) }
pub open spec fn in_groups(gs: Seq<Vec<Pair>>, p: Pair) -> bool { exists|i: int, k: int| 0 <= i < gs.len() && 0 <= k < gs[i]@.len() && #[trigger] gs[i]@[k] == p }
/// one more range is added to the last group if it starts before the greatest end, or to a new group
pub open spec fn added(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, joined: bool) -> bool {
    if joined { g.len() > 0 && h.len() == g.len() && h.last()@ == g.last()@.push(p) && forall|i: int| 0 <= i < g.len() - 1 ==> #[trigger] h[i] == g[i] }
    else { h.len() == g.len() + 1 && h.last()@ == seq![p] && forall|i: int| 0 <= i < g.len() ==> #[trigger] h[i] == g[i] }
}
#[verifier::opaque]
pub open spec fn bounded(g: Seq<Vec<Pair>>, a: int, e: int) -> bool { forall|i: int, k: int| 0 <= i < g.len() && 0 <= k < g[i]@.len() ==> cv((#[trigger] g[i]@[k]).0) <= a && cv(g[i]@[k].1) <= e }
pub proof fn lemma_added(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, joined: bool)
    requires added(g, h, p, joined),
    ensures forall|i: int, k: int| 0 <= i < h.len() && 0 <= k < h[i]@.len() && !(i == h.len() - 1 && k == h[i]@.len() - 1) ==> i < g.len() && k < g[i]@.len() && (#[trigger] h[i]@[k]) == g[i]@[k],
        h.len() > 0, h[h.len() - 1]@.len() > 0, h[h.len() - 1]@[h[h.len() - 1]@.len() - 1] == p,
{}
pub proof fn lemma_added_in(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, joined: bool)
    requires added(g, h, p, joined),
    ensures forall|q: Pair| #[trigger] in_groups(h, q) <==> q == p || in_groups(g, q),
{
    lemma_added(g, h, p, joined);
    assert(in_groups(h, p)) by { let n = h.len() - 1; let l = h[n]@.len() - 1; assert(h[n]@[l] == p); }
    assert forall|q: Pair| in_groups(g, q) implies #[trigger] in_groups(h, q) by { let (i, k) = choose|i: int, k: int| 0 <= i < g.len() && 0 <= k < g[i]@.len() && #[trigger] g[i]@[k] == q; assert(h[i]@[k] == q); }
    assert forall|q: Pair| #[trigger] in_groups(h, q) implies q == p || in_groups(g, q) by { let (i, k) = choose|i: int, k: int| 0 <= i < h.len() && 0 <= k < h[i]@.len() && #[trigger] h[i]@[k] == q; if q != p { assert(g[i]@[k] == q); } }
}
pub proof fn lemma_added_apart(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, joined: bool, e: int)
    requires added(g, h, p, joined), groups_ok(g), bounded(g, cv(p.0), e), !joined && g.len() > 0 ==> e < cv(p.0)
    ensures groups_apart(h)
{
    lemma_added(g, h, p, joined); reveal(bounded);
    let n = h.len() - 1; let l = h[n]@.len() - 1;
    assert forall|i: int, j: int, k: int, m: int| 0 <= i < j < h.len() && 0 <= k < h[i]@.len() && 0 <= m < h[j]@.len() implies cv((#[trigger] h[i]@[k]).1) < cv((#[trigger] h[j]@[m]).0) by {
        assert(h[i]@[k] == g[i]@[k]);
        if j == n && m == l {
            if joined { assert(group_ok(g[n]@)); assert(cv(g[i]@[k].1) < cv(g[n]@[0].0)); assert(cv(g[n]@[0].0) <= cv(p.0)); }
        } else { assert(h[j]@[m] == g[j]@[m]); } }
}
pub proof fn lemma_added_ok(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, joined: bool, e: char)
    requires added(g, h, p, joined), groups_ok(g), bounded(g, cv(p.0), cv(e)), joined ==> cv(p.0) <= cv(e) && has_end(g.last()@, e), cv(p.0) <= cv(p.1),
    ensures forall|i: int| 0 <= i < h.len() ==> group_ok((#[trigger] h[i])@)
{
    let n = h.len() - 1;
    assert forall|i: int| 0 <= i < h.len() implies group_ok((#[trigger] h[i])@) by {
        if i < n { assert(group_ok(g[i]@)); } else if joined {
            let (a, b) = (g[n]@, h[n]@);
            assert(group_ok(a)); assert(b == a.push(p));
            assert forall|x: int, y: int| 0 <= x < y < b.len() implies cv((#[trigger] b[x]).0) <= cv((#[trigger] b[y]).0) by { reveal(bounded); assert(b[x] == a[x]); if y < a.len() { assert(b[y] == a[y]); } else { assert(cv(g[n]@[x].0) <= cv(p.0)); } }
            lemma_link(a, p, e);
        } else { reveal(linked); }
    }
}
pub proof fn lemma_groups(g: Seq<Vec<Pair>>, h: Seq<Vec<Pair>>, p: Pair, e: Option<char>)
    requires groups_ok(g), cv(p.0) <= cv(p.1), (e is Some) == (g.len() > 0),
        e is Some ==> bounded(g, cv(p.0), cv(e->Some_0)),
        g.len() > 0 ==> has_end(g.last()@, e->Some_0),
        added(g, h, p, g.len() > 0 && cv(p.0) <= cv(e->Some_0)),
    ensures groups_ok(h), forall|q: Pair| #[trigger] in_groups(h, q) <==> q == p || in_groups(g, q), h.len() > 0,
        ({ let f = if e is Some && cv(p.1) < cv(e->Some_0) { e->Some_0 } else { p.1 }; bounded(h, cv(p.0), cv(f)) && has_end(h.last()@, f) }),
{
    let joined = g.len() > 0 && cv(p.0) <= cv(e->Some_0);
    let f = if e is Some { e->Some_0 } else { 'a' };
    if e is None { reveal(bounded); }
    lemma_added_in(g, h, p, joined); lemma_added_apart(g, h, p, joined, cv(f)); lemma_added_ok(g, h, p, joined, f); lemma_added(g, h, p, joined);
    reveal(bounded); reveal(has_end);
    let n = h.len() - 1; let l = h[n]@.len() - 1;
    if e is Some && cv(p.1) < cv(e->Some_0) { let x = choose|k: int| 0 <= k < g.last()@.len() && (#[trigger] g.last()@[k]).1 == e->Some_0; assert(joined); assert(h.last()@[x].1 == e->Some_0); } else { assert(h.last()@[l].1 == p.1); }
}
pub proof fn lemma_link(a: Seq<Pair>, p: Pair, e: char) requires linked(a), has_end(a, e), cv(p.0) <= cv(e) ensures linked(a.push(p))
{
    reveal(linked); reveal(has_end);
    let b = a.push(p);
    assert forall|y: int| 0 < y < b.len() implies exists|x: int| 0 <= x < y && cv((#[trigger] b[y]).0) <= cv((#[trigger] b[x]).1) by {
        if y < a.len() { let x = choose|x: int| 0 <= x < y && cv((#[trigger] a[y]).0) <= cv((#[trigger] a[x]).1); assert(b[x] == a[x] && b[y] == a[y]); }
        else { let x = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 == e; assert(b[x] == a[x]); } }
}
pub open spec fn split_at<T>(v: Seq<T>, p: Seq<int>, r: Seq<T>) -> bool {
    p.len() == r.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < v.len() && r[i] == v[p[i]]) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j])
}
#[verifier::external_body]
pub fn vx_has(v: &Vec<Pair>, p: Pair) -> (b: bool) ensures b == v@.contains(p) { unimplemented!() }
// ---------------------------------------------------------------- lemmas
pub proof fn lemma_ills_val(x: int, y: int) requires 35 <= x <= y
    ensures ills(x, y) == (if x <= 92 < y { 1int } else { 0 }) + (if x <= 127 < y { 1int } else { 0 }) decreases y - x
{ if x < y { lemma_ills_val(x, y - 1); } }
pub open spec fn digits() -> RangeParams { RangeParams { start_char: '0', end_char: '9', cur_offset: 49 } }
pub open spec fn ident(m: CMap) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> m[c] == c }
pub open spec fn ends_only(m: CMap) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> c == '0' || c == '9' }
/// every character that has an image is in a range
#[verifier::opaque]
pub open spec fn covered(m: CMap, rs: Seq<RangeParams>) -> bool { forall|c: char| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < rs.len() && inr(#[trigger] rs[i], c) }
pub open spec fn first_digits(rs: Seq<RangeParams>) -> bool { rs.len() > 0 && rs[0] == digits() }
/// the state the digits leave behind: nothing, or the digits as a range
pub open spec fn start_ok(m: CMap, rs: Seq<RangeParams>, n: int) -> bool {
    n >= 35 && ident(m) && covered(m, rs) && (rs.len() == 0 || rs.len() == 1 && first_digits(rs) && n >= 58 && m.contains_key('0') && m.contains_key('9') && (opened(m, rs[0]) ==> ends_only(m)))
}
pub proof fn lemma_digits_room(m: CMap, b: int) requires m.contains_key('0'), m.contains_key('9'), ends_only(m), 49 <= b <= 57 ensures unmapped(m, 49, b) == b - 49 decreases b
{ if b > 49 { lemma_digits_room(m, b - 1); if is_mapped(m, b - 1) { let c = choose|c: char| cv(c) == b - 1 && #[trigger] m.contains_key(c); assert(cv('0') == 48 && cv('9') == 57); assert(false); } } }
pub proof fn lemma_ident(m: CMap, rs: Seq<RangeParams>, n: int)
    requires ident(m), ends(m, rs), below(m, n), rs.len() == 1 && start_ok(m, rs, n) || forall|i: int| 0 <= i < rs.len() ==> !opened(m, #[trigger] rs[i]),
    ensures inv(m, rs, n),
{
    reveal(inv);
    assert(kept(m, rs)) by { assert forall|i: int, c: char| 0 <= i < rs.len() && #[trigger] m.contains_key(c) implies inr(#[trigger] rs[i], c) == (lo(m, rs[i]) <= cv(m[c]) && cv(m[c]) <= hi(m, rs[i])) by {
        assert(m.contains_key(rs[i].start_char) && m.contains_key(rs[i].end_char)); } }
    if rs.len() == 1 && opened(m, rs[0]) {
        assert(ends_only(m)); lemma_digits_room(m, 57); lemma_ills_val(49, 57); assert(cv('0') == 48 && cv('9') == 57);
        assert(room(m, rs[0]));
        assert forall|c: char| #[trigger] m.contains_key(c) implies !(49 <= cv(m[c]) && cv(m[c]) < 57) by {}
    }
}
/// one range that shares no character with the others gets images for its two ends
pub proof fn lemma_single(m: CMap, rs: Seq<RangeParams>, n: int, a: char, b: char, va: char, vb: char)
    requires inv(m, rs, n), n >= 35, covered(m, rs), cv(a) <= cv(b), forall|i: int| 0 <= i < rs.len() ==> cv((#[trigger] rs[i]).end_char) < cv(a) || cv(b) < cv(rs[i].start_char),
        cv(va) >= n, cv(vb) - cv(va) == cv(b) - cv(a) + ills(cv(va) + 1, cv(vb)), !illegal(cv(va)), !illegal(cv(vb)),
    ensures ({ let w = m.insert(a, va).insert(b, vb); let r = RangeParams { start_char: a, end_char: b, cur_offset: (cv(va) + 1) as u32 };
        inv(w, rs.push(r), cv(vb) + 1) && covered(w, rs.push(r)) && grows(m, w) }),
{
    let w = m.insert(a, va).insert(b, vb); let r = RangeParams { start_char: a, end_char: b, cur_offset: (cv(va) + 1) as u32 }; let ss = rs.push(r);
    reveal(inv);
    lemma_unmapped_ge(m, cv(va) + 1, cv(vb));
    assert forall|c: char| cv(a) <= cv(c) && cv(c) <= cv(b) implies !#[trigger] m.contains_key(c) by { if m.contains_key(c) { reveal(covered); let i = choose|i: int| 0 <= i < rs.len() && inr(#[trigger] rs[i], c); } }
    assert(!m.contains_key(a) && !m.contains_key(b));
    if cv(a) == cv(b) { lemma_cv(a, b); lemma_ills_val(cv(va) + 1, max(cv(vb), cv(va) + 1)); assert(cv(va) == cv(vb)) by { if cv(vb) > cv(va) { lemma_ills_upper(cv(va) + 1, cv(vb)); } } lemma_cv(va, vb); assert(w =~= m.insert(a, va)); }
    assert forall|c: char| #[trigger] w.contains_key(c) implies (c == a || c == b || m.contains_key(c)) && (c == a ==> w[c] == va) && (c == b ==> w[c] == vb) && (c != a && c != b ==> w[c] == m[c]) by {}
    assert forall|i: int| 0 <= i < rs.len() implies ss[i] == #[trigger] rs[i] && lo(w, rs[i]) == lo(m, rs[i]) && hi(w, rs[i]) == hi(m, rs[i]) && hi(m, rs[i]) < n && (opened(w, rs[i]) ==> opened(m, rs[i])) by {
        assert(m.contains_key(rs[i].start_char) && m.contains_key(rs[i].end_char));
        if opened(w, rs[i]) { let d = choose|d: char| inr(rs[i], d) && !#[trigger] w.contains_key(d); assert(!m.contains_key(d)); }
    }
    assert(inj(w)) by { assert forall|d: char, e: char| #[trigger] w.contains_key(d) && #[trigger] w.contains_key(e) && w[d] == w[e] implies d == e by { if d != a && d != b { assert(m.contains_key(d)); } if e != a && e != b { assert(m.contains_key(e)); } } }
    assert(below(w, cv(vb) + 1)) by { assert forall|c: char| #[trigger] w.contains_key(c) implies cv(w[c]) < cv(vb) + 1 by { if c != a && c != b { assert(m.contains_key(c)); } } }
    assert(ends(w, ss)) by { assert forall|i: int| 0 <= i < ss.len() implies w.contains_key((#[trigger] ss[i]).start_char) && w.contains_key(ss[i].end_char) && cv(ss[i].start_char) <= cv(ss[i].end_char) by { if i < rs.len() { assert(m.contains_key(rs[i].start_char)); } } }
    assert(kept(w, ss)) by { assert forall|i: int, c: char| 0 <= i < ss.len() && #[trigger] w.contains_key(c) implies inr(#[trigger] ss[i], c) == (lo(w, ss[i]) <= cv(w[c]) && cv(w[c]) <= hi(w, ss[i])) by {
        if i < rs.len() { if c != a && c != b { assert(m.contains_key(c)); } } else if c != a && c != b { assert(m.contains_key(c)); } } }
    assert(rooms(w, ss)) by { assert forall|i: int| 0 <= i < ss.len() && opened(w, #[trigger] ss[i]) implies room(w, ss[i]) by {
        if i < rs.len() { assert(opened(m, rs[i])); assert(room(m, rs[i])); lemma_unmapped_ins(m, cv(rs[i].start_char) + 1, cv(rs[i].end_char), a, va);
            if a != b { lemma_unmapped_ins(m.insert(a, va), cv(rs[i].start_char) + 1, cv(rs[i].end_char), b, vb); } }
        else { lemma_unmapped_le(w, cv(a) + 1, cv(b)); let d = choose|d: char| inr(ss[i], d) && !#[trigger] w.contains_key(d); if cv(a) == cv(b) { lemma_cv(a, d); } } } }
    assert(unused(w, ss)) by { assert forall|i: int, d: char| 0 <= i < ss.len() && opened(w, #[trigger] ss[i]) && #[trigger] w.contains_key(d) implies !(ss[i].cur_offset <= cv(w[d]) && cv(w[d]) < hi(w, ss[i])) by {
        if i < rs.len() { assert(opened(m, rs[i])); assert(room(m, rs[i])); if d != a && d != b { assert(m.contains_key(d)); assert(!(rs[i].cur_offset <= cv(m[d]) && cv(m[d]) < hi(m, rs[i]))); } }
        else if d != a && d != b { assert(m.contains_key(d)); } } }
    assert(aparts(w, ss)) by { assert forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss.len() && i != j && opened(w, #[trigger] ss[i]) implies apart(w, ss[i], #[trigger] ss[j]) by {
        if i < rs.len() && j < rs.len() { assert(opened(m, rs[i])); assert(apart(m, rs[i], rs[j])); } else if i < rs.len() { assert(rs[i] == ss[i]); assert(m.contains_key(rs[i].start_char)); } else { assert(rs[j] == ss[j]); assert(m.contains_key(rs[j].start_char)); } } }
    assert(legal(w)) by { assert forall|c: char| #[trigger] w.contains_key(c) implies !illegal(cv(w[c])) || w[c] == c by { if c != a && c != b { assert(m.contains_key(c)); } } }
    assert(covered(w, ss)) by { reveal(covered); assert forall|c: char| #[trigger] w.contains_key(c) implies exists|i: int| 0 <= i < ss.len() && inr(#[trigger] ss[i], c) by {
        if m.contains_key(c) { let i = choose|i: int| 0 <= i < rs.len() && inr(#[trigger] rs[i], c); assert(inr(ss[i], c)); } else { assert(inr(ss[rs.len() as int], c)); } } }
}
pub proof fn lemma_unmapped_le(m: CMap, a: int, b: int) ensures unmapped(m, a, b) <= if a < b { b - a } else { 0 } decreases b - a { if a < b { lemma_unmapped_le(m, a, b - 1); } }
pub proof fn lemma_ills_upper(a: int, b: int) ensures ills(a, b) <= if a < b { b - a } else { 0 }, a < b && !illegal(b - 1) ==> ills(a, b) < b - a decreases b - a { if a < b { lemma_ills_upper(a, b - 1); } }
/// a range all of whose characters have images, the others outside
pub proof fn lemma_push(m: CMap, rs: Seq<RangeParams>, n: int, r: RangeParams)
    requires inv(m, rs, n), cv(r.start_char) <= cv(r.end_char), !opened(m, r), kept(m, seq![r]),
        forall|i: int| 0 <= i < rs.len() && opened(m, #[trigger] rs[i]) ==> apart(m, rs[i], r),
    ensures inv(m, rs.push(r), n),
{
    let ss = rs.push(r);
    reveal(inv);
    assert(inr(r, r.start_char) && inr(r, r.end_char));
    assert forall|i: int| 0 <= i < rs.len() implies ss[i] == #[trigger] rs[i] by {}
    assert(ends(m, ss)) by { assert forall|i: int| 0 <= i < ss.len() implies m.contains_key((#[trigger] ss[i]).start_char) && m.contains_key(ss[i].end_char) && cv(ss[i].start_char) <= cv(ss[i].end_char) by { if i < rs.len() { assert(rs[i] == ss[i]); } } }
    assert(kept(m, ss)) by { assert forall|i: int, c: char| 0 <= i < ss.len() && #[trigger] m.contains_key(c) implies inr(#[trigger] ss[i], c) == (lo(m, ss[i]) <= cv(m[c]) && cv(m[c]) <= hi(m, ss[i])) by {
        if i < rs.len() { assert(rs[i] == ss[i]); } else { assert(seq![r][0] == ss[i]); } } }
    assert(rooms(m, ss)) by { assert forall|i: int| 0 <= i < ss.len() && opened(m, #[trigger] ss[i]) implies room(m, ss[i]) by { assert(rs[i] == ss[i]); } }
    assert(unused(m, ss)) by { assert forall|i: int, d: char| 0 <= i < ss.len() && opened(m, #[trigger] ss[i]) && #[trigger] m.contains_key(d) implies !(ss[i].cur_offset <= cv(m[d]) && cv(m[d]) < hi(m, ss[i])) by { assert(rs[i] == ss[i]); } }
    assert(aparts(m, ss)) by { assert forall|i: int, j: int| 0 <= i < ss.len() && 0 <= j < ss.len() && i != j && opened(m, #[trigger] ss[i]) implies apart(m, ss[i], #[trigger] ss[j]) by { assert(rs[i] == ss[i]); if j < rs.len() { assert(rs[j] == ss[j]); } } }
}

pub open spec fn rp(p: Pair, o: int) -> RangeParams { RangeParams { start_char: p.0, end_char: p.1, cur_offset: o as u32 } }
pub open spec fn is_range(r: RangeParams, p: Pair) -> bool { r.start_char == p.0 && r.end_char == p.1 }
pub open spec fn has(rs: Seq<RangeParams>, p: Pair) -> bool { exists|i: int| 0 <= i < rs.len() && is_range(#[trigger] rs[i], p) }
/// digits kept: every range that overlaps them is mapped to itself
pub open spec fn same(m: CMap, rs: Seq<RangeParams>, n: int) -> bool { ident(m) && covered(m, rs) && ends(m, rs) && below(m, n) }
pub open spec fn closed(m: CMap, rs: Seq<RangeParams>) -> bool { forall|i: int| 0 <= i < rs.len() ==> !opened(m, #[trigger] rs[i]) }
pub open spec fn plus(m: CMap, w: CMap, p: Pair) -> bool { forall|c: char| #[trigger] w.contains_key(c) <==> m.contains_key(c) || within(p, c) }
pub open spec fn extends(rs: Seq<RangeParams>, ss: Seq<RangeParams>) -> bool { rs.len() <= ss.len() <= rs.len() + 1 && forall|i: int| 0 <= i < rs.len() ==> ss[i] == #[trigger] rs[i] }
pub proof fn lemma_same_grows(m: CMap, w: CMap, p: Pair)
    requires plus(m, w, p), ident(m), ident(w), cv(p.0) <= cv(p.1)
    ensures grows(m, w), w.contains_key(p.0), w.contains_key(p.1)
{
    assert forall|c: char| #[trigger] m.contains_key(c) implies w.contains_key(c) && w[c] == m[c] by { assert(w.contains_key(c)); }
    assert(within(p, p.0) && within(p, p.1));
}
pub proof fn lemma_same_closed(m: CMap, rs: Seq<RangeParams>, p: Pair, w: CMap, ss: Seq<RangeParams>, k: int)
    requires grows(m, w), extends(rs, ss), plus(m, w, p), 0 <= k < ss.len(), is_range(ss[k], p)
    ensures !opened(w, ss[k]), has(ss, p), forall|i: int| 0 <= i < rs.len() ==> ss[i] == #[trigger] rs[i] && (opened(w, ss[i]) ==> opened(m, rs[i])),
{
    if opened(w, ss[k]) { let d = choose|d: char| inr(ss[k], d) && !#[trigger] w.contains_key(d); assert(within(p, d)); }
    assert forall|i: int| 0 <= i < rs.len() implies ss[i] == #[trigger] rs[i] && (opened(w, ss[i]) ==> opened(m, rs[i])) by {
        if opened(w, ss[i]) { let d = choose|d: char| inr(ss[i], d) && !#[trigger] w.contains_key(d); assert(!m.contains_key(d)); assert(inr(rs[i], d)); } }
}
pub proof fn lemma_same_covered(m: CMap, rs: Seq<RangeParams>, p: Pair, w: CMap, ss: Seq<RangeParams>, k: int)
    requires covered(m, rs), extends(rs, ss), plus(m, w, p), 0 <= k < ss.len(), is_range(ss[k], p)
    ensures covered(w, ss)
{
    reveal(covered); assert forall|c: char| #[trigger] w.contains_key(c) implies exists|i: int| 0 <= i < ss.len() && inr(#[trigger] ss[i], c) by {
        if m.contains_key(c) { let i = choose|i: int| 0 <= i < rs.len() && inr(#[trigger] rs[i], c); assert(inr(ss[i], c)); } else { assert(within(p, c)); assert(inr(ss[k], c)); } }
}
pub proof fn lemma_same(m: CMap, rs: Seq<RangeParams>, n: int, p: Pair, w: CMap, ss: Seq<RangeParams>, k: int)
    requires same(m, rs, n), cv(p.0) <= cv(p.1), plus(m, w, p), ident(w), 0 <= k < ss.len(), is_range(ss[k], p), extends(rs, ss), ss.len() > rs.len() ==> k == rs.len(),
    ensures same(w, ss, max(n, cv(p.1) + 1)), grows(m, w), !opened(w, ss[k]), has(ss, p),
        forall|i: int| 0 <= i < rs.len() ==> ss[i] == #[trigger] rs[i] && (opened(w, ss[i]) ==> opened(m, rs[i])),
{
    lemma_same_grows(m, w, p); lemma_same_closed(m, rs, p, w, ss, k); lemma_same_covered(m, rs, p, w, ss, k);
    assert(ends(w, ss)) by { assert forall|i: int| 0 <= i < ss.len() implies w.contains_key((#[trigger] ss[i]).start_char) && w.contains_key(ss[i].end_char) && cv(ss[i].start_char) <= cv(ss[i].end_char) by {
        if i < rs.len() { assert(rs[i] == ss[i]); assert(m.contains_key(rs[i].start_char) && m.contains_key(rs[i].end_char)); } } }
    assert(below(w, max(n, cv(p.1) + 1))) by { assert forall|c: char| #[trigger] w.contains_key(c) implies cv(w[c]) < max(n, cv(p.1) + 1) by { if m.contains_key(c) { assert(cv(m[c]) < n); } else { assert(within(p, c)); } } }
}
/// where the ranges that have images come from: groups that were treated before
pub open spec fn source(r: RangeParams, gs: Seq<Vec<Pair>>, done: ISet<int>) -> bool { exists|x: int, y: int| done.contains(x) && 0 <= x < gs.len() && 0 <= y < gs[x]@.len() && is_range(r, #[trigger] gs[x]@[y]) }
#[verifier::opaque]
pub open spec fn from(rs: Seq<RangeParams>, gs: Seq<Vec<Pair>>, done: ISet<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> source(#[trigger] rs[i], gs, done) }
pub proof fn lemma_from(rs: Seq<RangeParams>, gs: Seq<Vec<Pair>>, done: ISet<int>, x: int, y: int)
    requires from(rs, gs, done), groups_ok(gs), 0 <= x < gs.len(), 0 <= y < gs[x]@.len(), !done.contains(x)
    ensures forall|i: int| 0 <= i < rs.len() ==> cv((#[trigger] rs[i]).end_char) < cv(gs[x]@[y].0) || cv(gs[x]@[y].1) < cv(rs[i].start_char)
{
    reveal(from);
    assert forall|i: int| 0 <= i < rs.len() implies cv((#[trigger] rs[i]).end_char) < cv(gs[x]@[y].0) || cv(gs[x]@[y].1) < cv(rs[i].start_char) by {
        assert(source(rs[i], gs, done)); let (a, b) = choose|a: int, b: int| done.contains(a) && 0 <= a < gs.len() && 0 <= b < gs[a]@.len() && is_range(rs[i], #[trigger] gs[a]@[b]);
        if a < x { assert(cv(gs[a]@[b].1) < cv(gs[x]@[y].0)); } else { assert(cv(gs[x]@[y].1) < cv(gs[a]@[b].0)); } }
}
pub proof fn lemma_from_push(rs: Seq<RangeParams>, gs: Seq<Vec<Pair>>, done: ISet<int>, r: RangeParams, x: int, y: int)
    requires from(rs, gs, done), 0 <= x < gs.len(), 0 <= y < gs[x]@.len(), done.contains(x), is_range(r, gs[x]@[y])
    ensures from(rs.push(r), gs, done)
{
    reveal(from); let ss = rs.push(r);
    assert forall|i: int| 0 <= i < ss.len() implies source(#[trigger] ss[i], gs, done) by { if i < rs.len() { assert(ss[i] == rs[i]); } else { assert(is_range(ss[i], gs[x]@[y])); } }
}
pub proof fn lemma_from_more(rs: Seq<RangeParams>, gs: Seq<Vec<Pair>>, a: ISet<int>, b: ISet<int>) requires from(rs, gs, a), a.subset_of(b) ensures from(rs, gs, b) { reveal(from);
    assert forall|i: int| 0 <= i < rs.len() implies source(#[trigger] rs[i], gs, b) by { assert(source(rs[i], gs, a)); let (x, y) = choose|x: int, y: int| a.contains(x) && 0 <= x < gs.len() && 0 <= y < gs[x]@.len() && is_range(rs[i], #[trigger] gs[x]@[y]); assert(b.contains(x)); assert(is_range(rs[i], gs[x]@[y])); } }
/// one group whose ranges share characters: the characters from s up to e (e excluded) have images from n0 on, in order; w is the mapping before the group
#[verifier::opaque]
pub open spec fn block(w: CMap, m: CMap, s: int, e: int, n0: int, n: int) -> bool {
    (forall|c: char| #[trigger] m.contains_key(c) <==> w.contains_key(c) || s <= cv(c) && cv(c) < e) && grows(w, m) && below(w, n0)
    && (forall|c: char| #[trigger] m.contains_key(c) && s <= cv(c) && cv(c) < e ==> cv(m[c]) >= n0 && cv(m[c]) < n)
    && (forall|c: char, d: char| #[trigger] m.contains_key(c) && #[trigger] m.contains_key(d) && s <= cv(c) && cv(c) < cv(d) && cv(d) < e ==> cv(m[c]) < cv(m[d]))
    && (forall|c: char| #[trigger] w.contains_key(c) ==> !(s <= cv(c) && cv(c) < e))
}
pub proof fn lemma_block(w: CMap, m: CMap, s: int, e: int, n0: int, n: int, c: char, v: char)
    requires block(w, m, s, e, n0, n), s <= e, cv(c) >= e, forall|d: char| e <= cv(d) && cv(d) < cv(c) ==> false, cv(v) >= n, n >= n0, !w.contains_key(c),
    ensures block(w, m.insert(c, v), s, cv(c) + 1, n0, cv(v) + 1)
{
    reveal(block); let x = m.insert(c, v); let f = cv(c) + 1;
    assert forall|d: char| #[trigger] x.contains_key(d) <==> w.contains_key(d) || s <= cv(d) && cv(d) < f by { if cv(d) == cv(c) { lemma_cv(c, d); } else if e <= cv(d) && cv(d) < cv(c) { assert(false); } assert(x.contains_key(d) <==> d == c || m.contains_key(d)); }
    assert(grows(w, x)) by { assert forall|d: char| #[trigger] w.contains_key(d) implies x.contains_key(d) && x[d] == w[d] by { assert(m.contains_key(d)); } }
    assert forall|d: char| #[trigger] x.contains_key(d) && s <= cv(d) && cv(d) < f implies cv(x[d]) >= n0 && cv(x[d]) < cv(v) + 1 by { if d != c { assert(m.contains_key(d)); } }
    assert forall|a: char, d: char| #[trigger] x.contains_key(a) && #[trigger] x.contains_key(d) && s <= cv(a) && cv(a) < cv(d) && cv(d) < f implies cv(x[a]) < cv(x[d]) by { if a != c { assert(m.contains_key(a)); } if d != c { assert(m.contains_key(d)); } if d == c { assert(cv(a) < e); } if cv(d) == cv(c) { lemma_cv(d, c); } else { assert(cv(d) < e); } }
    assert forall|d: char| #[trigger] w.contains_key(d) implies !(s <= cv(d) && cv(d) < f) by { if cv(d) == cv(c) { lemma_cv(c, d); } }
}
pub proof fn lemma_block_push(w: CMap, m: CMap, s: int, e: int, n0: int, n: int, rs: Seq<RangeParams>, r: RangeParams, l: int)
    requires block(w, m, s, e, n0, n), inv(m, rs, n), s <= cv(r.start_char), cv(r.start_char) <= cv(r.end_char), cv(r.end_char) < e,
        0 <= l <= rs.len(), forall|i: int| 0 <= i < l ==> (cv((#[trigger] rs[i]).end_char) < cv(r.start_char) || cv(r.end_char) < cv(rs[i].start_char)) && w.contains_key(rs[i].start_char) && w.contains_key(rs[i].end_char),
        forall|i: int| l <= i < rs.len() ==> s <= cv((#[trigger] rs[i]).start_char) && cv(rs[i].end_char) < e,
        covered(w, rs.take(l)),
    ensures inv(m, rs.push(r), n), !opened(m, r)
{
    reveal(block);
    assert(!opened(m, r)) by { if opened(m, r) { let d = choose|d: char| inr(r, d) && !#[trigger] m.contains_key(d); assert(s <= cv(d) && cv(d) < e); } }
    assert(m.contains_key(r.start_char)); assert(m.contains_key(r.end_char));
    let q = seq![r];
    assert(kept(m, q)) by { assert forall|i: int, c: char| 0 <= i < q.len() && #[trigger] m.contains_key(c) implies inr(#[trigger] q[i], c) == (lo(m, q[i]) <= cv(m[c]) && cv(m[c]) <= hi(m, q[i])) by {
        if !(s <= cv(c) && cv(c) < e) { assert(w.contains_key(c)); assert(cv(m[c]) < n0); }
        else { if cv(c) == cv(r.start_char) { lemma_cv(c, r.start_char); } if cv(c) == cv(r.end_char) { lemma_cv(c, r.end_char); } } } }
    assert forall|i: int| 0 <= i < rs.len() && opened(m, #[trigger] rs[i]) implies apart(m, rs[i], r) by {
        let d = choose|d: char| inr(rs[i], d) && !#[trigger] m.contains_key(d);
        if i >= l { assert(s <= cv(d) && cv(d) < e); assert(m.contains_key(d)); } else { assert(cv(m[rs[i].end_char]) < n0); } }
    lemma_push(m, rs, n, r);
}
'''
SPEC2 = r'''
pub open spec fn fcts(p: NodeSetData) -> Seq<(StringFct, StringFctArgs)> { p.string_fcts@ }
/// what a function application asks for the digits
pub open spec fn asked(x: (StringFct, StringFctArgs)) -> int { let q = needed(x.0, x.1); if q.all { 2 } else { q.ints } }
pub open spec fn fix(m: CMap, c: char) -> bool { m.contains_key(c) && m[c] == c }
pub open spec fn digits_kept(ps: Seq<NodeSetData>, m: CMap, rs: Seq<RangeParams>) -> bool {
    forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < fcts(ps[i]).len() ==>
        (asked(#[trigger] fcts(ps[i])[k]) >= 1 ==> has(rs, ('0', '9')) && fix(m, '0') && fix(m, '9'))
        && (asked(fcts(ps[i])[k]) >= 2 ==> forall|c: char| within(('0', '9'), c) ==> #[trigger] m.contains_key(c) && m[c] == c)
}

#[verifier::external_body]
pub fn vx_at(m: &HashMap<char, char>, c: &char) -> (r: char) ensures m@.contains_key(*c), r == m@[*c] { m[c] }
/// the ranges that the query asks for start at their lower end (see get_args)
pub open spec fn parts_ordered(ps: Seq<NodeSetData>) -> bool {
    forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < fcts(ps[i]).len() ==> ((#[trigger] fcts(ps[i])[k]).1 matches StringFctArgs::ReRange(a, b) ==> cv(a) <= cv(b))
}
/// every range that the query asks for is one of the ranges of the mapping
pub open spec fn all_ranges(ps: Seq<NodeSetData>, rs: Seq<RangeParams>) -> bool {
    forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < fcts(ps[i]).len() ==> ((#[trigger] fcts(ps[i])[k]).1 matches StringFctArgs::ReRange(a, b) ==> has(rs, (a, b)))
}
pub open spec fn prefix(rs: Seq<RangeParams>, ss: Seq<RangeParams>) -> bool { rs.len() <= ss.len() && forall|i: int| 0 <= i < rs.len() ==> ss[i] == #[trigger] rs[i] }
pub proof fn lemma_has(rs: Seq<RangeParams>, ss: Seq<RangeParams>, p: Pair) requires has(rs, p), prefix(rs, ss) ensures has(ss, p)
{ let i = choose|i: int| 0 <= i < rs.len() && is_range(#[trigger] rs[i], p); assert(ss[i] == rs[i]); }
pub proof fn lemma_digits_kept(ps: Seq<NodeSetData>, m: CMap, rs: Seq<RangeParams>, w: CMap, ss: Seq<RangeParams>) requires digits_kept(ps, m, rs), grows(m, w), prefix(rs, ss) ensures digits_kept(ps, w, ss)
{
    assert forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < fcts(ps[i]).len() implies
        (asked(#[trigger] fcts(ps[i])[k]) >= 1 ==> has(ss, ('0', '9')) && fix(w, '0') && fix(w, '9')) && (asked(fcts(ps[i])[k]) >= 2 ==> forall|c: char| within(('0', '9'), c) ==> #[trigger] w.contains_key(c) && w[c] == c) by {
        if asked(fcts(ps[i])[k]) >= 1 { lemma_has(rs, ss, ('0', '9')); }
        if asked(fcts(ps[i])[k]) >= 2 { assert forall|c: char| within(('0', '9'), c) implies #[trigger] w.contains_key(c) && w[c] == c by { assert(m.contains_key(c)); } } }
}
pub open spec fn kept_group(g: Vec<Pair>, keep: bool) -> bool { keep && g@.contains(('0', '9')) }
pub open spec fn all_keep(a: Seq<Vec<Pair>>, keep: bool, yes: bool) -> bool { forall|i: int| 0 <= i < a.len() ==> yes == kept_group(#[trigger] a[i], keep) }
#[verifier::opaque]
pub open spec fn parted(gs: Seq<Vec<Pair>>, a: Seq<Vec<Pair>>, b: Seq<Vec<Pair>>, p: Seq<int>, q: Seq<int>, keep: bool) -> bool {
    split_at(gs, p, a) && split_at(gs, q, b) && (forall|i: int| 0 <= i < gs.len() ==> p.contains(i) || #[trigger] q.contains(i)) && (forall|i: int| #[trigger] p.contains(i) ==> !q.contains(i))
    && all_keep(a, keep, true) && all_keep(b, keep, false)
}
pub open spec fn done(p: Seq<int>, q: Seq<int>, i: int) -> ISet<int> { ISet::new(|x: int| p.contains(x) || q.take(i).contains(x)) }
pub proof fn lemma_done(gs: Seq<Vec<Pair>>, a: Seq<Vec<Pair>>, b: Seq<Vec<Pair>>, p: Seq<int>, q: Seq<int>, keep: bool, i: int)
    requires parted(gs, a, b, p, q, keep), 0 <= i < b.len()
    ensures !done(p, q, i).contains(q[i]), done(p, q, i + 1).contains(q[i]), done(p, q, i).subset_of(done(p, q, i + 1)), 0 <= q[i] < gs.len(), b[i] == gs[q[i]]
{
    reveal(parted); assert(q.contains(q[i]));
    if q.take(i).contains(q[i]) { let j = choose|j: int| 0 <= j < i && q.take(i)[j] == q[i]; assert(q[j] < q[i]); }
    assert(q.take(i + 1)[i] == q[i]);
    assert forall|x: int| #[trigger] done(p, q, i).contains(x) implies done(p, q, i + 1).contains(x) by { if q.take(i).contains(x) { let j = choose|j: int| 0 <= j < i && q.take(i)[j] == x; assert(q.take(i + 1)[j] == x); } }
}
/// `into_iter().partition(f)`: splits a list in two, keeping the order
pub fn vx_partition<Fun: Fn(&Vec<Pair>) -> bool>(v: Vec<Vec<Pair>>, f: Fun, Ghost(keep): Ghost<bool>) -> (r: (Vec<Vec<Pair>>, Vec<Vec<Pair>>, Ghost<Seq<int>>, Ghost<Seq<int>>))
    requires forall|vv: &Vec<Pair>| f.requires((vv,)), forall|vv: &Vec<Pair>, bb: bool| f.ensures((vv,), bb) ==> bb == (keep && vv@.contains(('0', '9'))),
    ensures parted(v@, r.0@, r.1@, r.2@, r.3@, keep),
{
    let ghost gs = v@; let mut v = v; let mut a = Vec::new(); let mut b = Vec::new(); let ghost mut i: int = 0; let ghost mut x: Seq<int> = seq![]; let ghost mut y: Seq<int> = seq![];
    while v.len() > 0
        invariant 0 <= i <= gs.len(), v@ == gs.skip(i), split_at(gs, x, a@), split_at(gs, y, b@), forall|j: int| 0 <= j < x.len() ==> #[trigger] x[j] < i, forall|j: int| 0 <= j < y.len() ==> #[trigger] y[j] < i,
            forall|j: int| 0 <= j < i ==> x.contains(j) || #[trigger] y.contains(j), forall|j: int| #[trigger] x.contains(j) ==> !y.contains(j),
            forall|vv: &Vec<Pair>| f.requires((vv,)), forall|vv: &Vec<Pair>, bb: bool| f.ensures((vv,), bb) ==> bb == (keep && vv@.contains(('0', '9'))),
            all_keep(a@, keep, true), all_keep(b@, keep, false),
        decreases v@.len()
    {
        let ghost (x0, y0) = (x, y);
        let e = v.remove(0);
        assert(e == gs[i]);
        assert(v@ =~= gs.skip(i + 1));
        let c = f(&e); assert(c == (keep && e@.contains(('0', '9'))));
        let ghost (a0, b0) = (a@, b@);
        if c { a.push(e); proof { x = x.push(i); } } else { b.push(e); proof { y = y.push(i); } }
        proof {
            assert forall|j: int| 0 <= j < i + 1 implies x.contains(j) || #[trigger] y.contains(j) by {
                if j < i { assert(x0.contains(j) || y0.contains(j)); if x0.contains(j) { let k = choose|k: int| 0 <= k < x0.len() && x0[k] == j; assert(x[k] == j); } else { let k = choose|k: int| 0 <= k < y0.len() && y0[k] == j; assert(y[k] == j); } }
                else if x.len() > x0.len() { assert(x[x0.len() as int] == i); } else { assert(y[y0.len() as int] == i); } }
            assert forall|j: int| #[trigger] x.contains(j) implies !y.contains(j) by {
                let k = choose|k: int| 0 <= k < x.len() && x[k] == j;
                if y.contains(j) { let l = choose|l: int| 0 <= l < y.len() && y[l] == j;
                    if k < x0.len() && l < y0.len() { assert(x0[k] == j && y0[l] == j); assert(x0.contains(j) && y0.contains(j)); } else if k < x0.len() { assert(x0[k] == j); assert(false); } else { assert(y0[l] == j); assert(false); } } }
            assert(all_keep(a@, keep, true)) by { assert forall|j: int| 0 <= j < a@.len() implies kept_group(#[trigger] a@[j], keep) by { if j < a0.len() { assert(a@[j] == a0[j]); } } }
            assert(all_keep(b@, keep, false)) by { assert forall|j: int| 0 <= j < b@.len() implies !kept_group(#[trigger] b@[j], keep) by { if j < b0.len() { assert(b@[j] == b0[j]); } } }
            i = i + 1;
        }
    }
    proof { reveal(parted); assert forall|j: int| 0 <= j < gs.len() implies x.contains(j) || #[trigger] y.contains(j) by {} }
    (a, b, Ghost(x), Ghost(y))
}
pub proof fn lemma_ig(gs: Seq<Vec<Pair>>, a: Seq<Vec<Pair>>, b: Seq<Vec<Pair>>, p: Seq<int>, q: Seq<int>, keep: bool, i: int)
    requires parted(gs, a, b, p, q, keep), 0 <= i < a.len()
    ensures keep, 0 <= p[i] < gs.len(), a[i] == gs[p[i]], done(p, q, 0).contains(p[i]), a[i]@.contains(('0', '9'))
{ reveal(parted); assert(p.contains(p[i])); }
/// the digits come from the group that contains them
pub proof fn lemma_done_digits(gs: Seq<Vec<Pair>>, a: Seq<Vec<Pair>>, b: Seq<Vec<Pair>>, p: Seq<int>, q: Seq<int>, rs: Seq<RangeParams>)
    requires parted(gs, a, b, p, q, true), in_groups(gs, ('0', '9')), forall|i: int| 0 <= i < rs.len() ==> is_range(#[trigger] rs[i], ('0', '9'))
    ensures from(rs, gs, done(p, q, 0)), a.len() > 0
{
    reveal(from); reveal(parted);
    let (x, y) = choose|x: int, y: int| 0 <= x < gs.len() && 0 <= y < gs[x]@.len() && #[trigger] gs[x]@[y] == ('0', '9');
    if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(b[j] == gs[x]); assert(b[j]@.contains(('0', '9'))) by { assert(gs[x]@[y] == ('0', '9')); } assert(false); }
    assert(p.contains(x));
    assert forall|i: int| 0 <= i < rs.len() implies source(#[trigger] rs[i], gs, done(p, q, 0)) by { assert(is_range(rs[i], gs[x]@[y])); assert(done(p, q, 0).contains(x)); }
}
pub proof fn lemma_all(gs: Seq<Vec<Pair>>, a: Seq<Vec<Pair>>, b: Seq<Vec<Pair>>, p: Seq<int>, q: Seq<int>, keep: bool, rs: Seq<RangeParams>)
    requires parted(gs, a, b, p, q, keep), all_has(a, a.len() as int, rs), all_has(b, b.len() as int, rs)
    ensures forall|r: Pair| #[trigger] in_groups(gs, r) ==> has(rs, r)
{
    reveal(parted);
    assert forall|r: Pair| #[trigger] in_groups(gs, r) implies has(rs, r) by {
        let (x, y) = choose|x: int, y: int| 0 <= x < gs.len() && 0 <= y < gs[x]@.len() && #[trigger] gs[x]@[y] == r;
        if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(a[j] == gs[x]); assert(has(rs, a[j]@[y])); }
        else { assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(b[j] == gs[x]); assert(has(rs, b[j]@[y])); } }
}
pub open spec fn group_has(g: Seq<Pair>, n: int, rs: Seq<RangeParams>) -> bool { forall|y: int| 0 <= y < n ==> has(rs, #[trigger] g[y]) }
pub open spec fn all_has(g: Seq<Vec<Pair>>, n: int, rs: Seq<RangeParams>) -> bool { forall|x: int, y: int| 0 <= x < n && 0 <= y < g[x]@.len() ==> has(rs, #[trigger] g[x]@[y]) }
pub proof fn lemma_group_has(g: Seq<Pair>, n: int, rs: Seq<RangeParams>, ss: Seq<RangeParams>) requires group_has(g, n, rs), prefix(rs, ss) ensures group_has(g, n, ss)
{ assert forall|y: int| 0 <= y < n implies has(ss, #[trigger] g[y]) by { lemma_has(rs, ss, g[y]); } }
pub proof fn lemma_all_has(g: Seq<Vec<Pair>>, n: int, rs: Seq<RangeParams>, ss: Seq<RangeParams>) requires all_has(g, n, rs), prefix(rs, ss) ensures all_has(g, n, ss)
{ assert forall|x: int, y: int| 0 <= x < n && 0 <= y < g[x]@.len() implies has(ss, #[trigger] g[x]@[y]) by { lemma_has(rs, ss, g[x]@[y]); } }
pub open spec fn shut(m: CMap, p: Pair) -> bool { forall|c: char| within(p, c) ==> #[trigger] m.contains_key(c) }
pub open spec fn almost_closed(m: CMap, rs: Seq<RangeParams>) -> bool { forall|i: int| 1 <= i < rs.len() ==> !opened(m, #[trigger] rs[i]) }
/// the state between two groups of ranges around the digits
pub open spec fn mid(m: CMap, rs: Seq<RangeParams>, n: int) -> bool { same(m, rs, n) && 35 <= n <= 0x110000 && (rs.len() == 1 && start_ok(m, rs, n) || closed(m, rs)) && (rs.len() > 0 ==> rs[0] == digits()) }
pub open spec fn frame(a: CharMap, b: CharMap) -> bool { a == (CharMap { char_map: a.char_map, ranges: a.ranges, ..b }) && grows(b.m(), a.m()) && prefix(b.ranges@, a.ranges@) }
pub proof fn lemma_covered_push(m: CMap, rs: Seq<RangeParams>, w: CMap, r: RangeParams)
    requires covered(m, rs), forall|c: char| #[trigger] w.contains_key(c) ==> m.contains_key(c) || inr(r, c) ensures covered(w, rs.push(r))
{
    reveal(covered); let ss = rs.push(r);
    assert forall|c: char| #[trigger] w.contains_key(c) implies exists|i: int| 0 <= i < ss.len() && inr(#[trigger] ss[i], c) by {
        if m.contains_key(c) { let i = choose|i: int| 0 <= i < rs.len() && inr(#[trigger] rs[i], c); assert(inr(ss[i], c)); } else { assert(inr(ss[rs.len() as int], c)); } }
}
'''
CLONE = [('desugar', '$f:id . get_required_props ( $a:id . clone ( ) )', '$f.get_required_props(vx_clone($a))', '*')]
def build(u):
    u.add(HEAD)
    u_fct.types(u)
    u.item(F, 'struct', 'RangeParams', prefix='#[derive(Clone, Copy)]\npub ')
    u.item(F, 'struct', 'CharMap', prefix='pub ')
    u.item(C, 'struct', 'NodeSetData', prefix='pub ', rules=[('type', 'BTreeSet < NodeId >', 'Opaque'), ('type', 'BTreeSet < String >', 'Opaque'), ('type', 'HashSet < ( StringFct , StringFctArgs ) >', 'FctSet')])
    u.add(PROPS_SPEC.replace('broadcast use {vx_ax::axiom_char_pair_key,', 'broadcast use {vx_ax::axiom_char_pair_key, vx_ax2::axiom_char_key,') + u_fct.SPEC + u_charmap.SPEC + SPEC)
    u_fct.fns(u)
    u.fn(F, 'skip_illegal_char', ret='r', rules=u_charmap.CHARS, requires='ill_list(char_map.illegal_chars@)', ensures='r == (if illegal(offset as int) { offset + 1 } else { offset as int }), !illegal(r as int), r <= 0x110000')
    u.fn(F, 'group_overlapping_ranges', ret='r', requires='ordered(ranges@)', ensures='groups_ok(r@), forall|p: Pair| #[trigger] in_groups(r@, p) <==> ranges@.contains(p)', rules=[
        ('type', 'BTreeSet < ( char , char ) >', 'PairSet'),
        ('desugar', 'std :: cmp :: max (', 'vx_omax (', '*'),
        ('desugar', 'let mut $e:id = None ; for ( $a:id , $b:id ) in $s:id { $body }', '''let mut $e: Option<char> = None; «let ghost vx_set = $s@;» let vx_v = $s.vx_list(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_v.len()
                invariant vx_i <= vx_v@.len(), groups_ok(groups@), ($e is Some) == (vx_i > 0), (vx_i > 0) == (groups@.len() > 0),
                    forall|p: Pair| #[trigger] in_groups(groups@, p) <==> exists|i: int| 0 <= i < vx_i && #[trigger] vx_v@[i] == p,
                    vx_i > 0 ==> bounded(groups@, cv(vx_v@[vx_i - 1].0), cv($e->Some_0)),
                    groups@.len() > 0 ==> has_end(groups@.last()@, $e->Some_0),
                decreases vx_v@.len() - vx_i
            {   let ($a, $b) = vx_v[vx_i];
                «let ghost vx_g = groups@; let ghost vx_p = ($a, $b); let ghost vx_e = $e;
                proof { assert(vx_v@.contains(vx_v@[vx_i as int])); assert(vx_p == vx_v@[vx_i as int]);
                    if vx_i > 0 { assert(pair_lt(vx_v@[vx_i - 1], vx_v@[vx_i as int])); assert(bounded(vx_g, cv(vx_p.0), cv(vx_e->Some_0))) by { reveal(bounded); } } }»
                $body
                «proof { lemma_groups(vx_g, groups@, vx_p, vx_e);
                    assert forall|p: Pair| #[trigger] in_groups(groups@, p) <==> exists|i: int| 0 <= i < vx_i + 1 && #[trigger] vx_v@[i] == p by {
                        if p == vx_p { assert(vx_v@[vx_i as int] == p); }
                        if in_groups(vx_g, p) { let i = choose|i: int| 0 <= i < vx_i && #[trigger] vx_v@[i] == p; assert(vx_v@[i] == p); }
                        if exists|i: int| 0 <= i < vx_i + 1 && #[trigger] vx_v@[i] == p { let i = choose|i: int| 0 <= i < vx_i + 1 && #[trigger] vx_v@[i] == p; if i < vx_i { assert(in_groups(vx_g, p)); } }
                    } }»
                vx_i += 1; }
            «proof { assert forall|p: Pair| #[trigger] in_groups(groups@, p) <==> vx_set.contains(p) by {
                if vx_set.contains(p) { assert(vx_v@.contains(p)); let i = choose|i: int| 0 <= i < vx_v@.len() && vx_v@[i] == p; assert(vx_v@[i] == p); assert(in_groups(groups@, p)); }
                if in_groups(groups@, p) { let i = choose|i: int| 0 <= i < vx_i && #[trigger] vx_v@[i] == p; assert(vx_v@.contains(vx_v@[i])); } } }»'''),
        ('desugar', 'Some ( $a:id ) <= $e:id', 'vx_ole(Some($a), $e)', '*'), ('desugar', 'Some ( $a:id ) < $e:id', '!vx_ole($e, Some($a))', '*'),
        ('desugar', '$e:id >= Some ( $a:id )', 'vx_ole(Some($a), $e)', '*'), ('desugar', '$e:id > Some ( $a:id )', '!vx_ole($e, Some($a))', '*'),
        ('desugar', 'match $g:id . last_mut ( ) { Some ( $x:id ) if $cond => $x2:id . push ( $p ) , _ => $g2:id . push ( vec ! [ $q ] ) , }',
         'if $g.len() > 0 && $cond { let vx_n = $g.len() - 1; let $x = &mut $g[vx_n]; $x2.push($p) } else { let mut vx_w = Vec::new(); vx_w.push($q); $g2.push(vx_w) }')])
    u.add('impl RangeParams {')
    u.fn(F, 'RangeParams::new', ret='r', ensures='r == (RangeParams { start_char: start_char, end_char: end_char, cur_offset: cur_offset })')
    u.add('}\nimpl CharMap {')
    u.fn(F, 'CharMap::has_range', ret='r', ensures='r == has(self.ranges@, (c1, c2))', rules=[
        ('desugar', 'for $r:id in & self . ranges { $b }', '''let vx_l = self.ranges.len(); let mut vx_i: usize = 0;
            while vx_i < vx_l
                invariant vx_l == self.ranges@.len(), vx_i <= vx_l, forall|j: int| 0 <= j < vx_i ==> !is_range(#[trigger] self.ranges@[j], (c1, c2)),
                decreases vx_l - vx_i
            { let $r = &self.ranges[vx_i]; «proof { let vx_x = self.ranges@[vx_i as int]; assert(is_range(vx_x, (c1, c2)) || !is_range(vx_x, (c1, c2))); }» $b vx_i += 1; }''')])
    u.add('}')
    u.add(SPEC2)
    u.fn(F, 'initialize_charmap_with_keep_ints', ret='r', rules=CLONE + [
        ('desugar', 'let $st:id = $p:id . iter ( ) . fold ( KeepInts :: No , | $o:id , $cp:id | { $e } ) ;', '''let mut $st = KeepInts::No; let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < $p.len()
                invariant vx_i <= $p@.len(), forall|i: int, k: int| 0 <= i < vx_i && 0 <= k < fcts($p@[i]).len() ==> asked(#[trigger] fcts($p@[i])[k]) <= rank($st),
                decreases $p@.len() - vx_i
            { let $cp = &$p[vx_i]; let $o = $st; $st = { $e }; vx_i += 1; }'''),
        ('desugar', '$cp:id . string_fcts . iter ( ) . fold ( KeepInts :: No , | $o:id , ( $f:id , $a:id ) | { $e } , )', '''{ let mut vx_acc = KeepInts::No; let vx_v = $cp.string_fcts.vx_list(); let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < vx_v.len()
                invariant vx_k <= vx_v@.len(), forall|k: int| 0 <= k < vx_k ==> asked(#[trigger] vx_v@[k]) <= rank(vx_acc),
                decreases vx_v@.len() - vx_k
            { let $f = &vx_v[vx_k].0; let $a = &vx_v[vx_k].1; let $o = vx_acc; vx_acc = { $e }; vx_k += 1; }
            vx_acc }'''),
        ('desugar', "for $c:id in '1' ..= '8' { $b }", '''«let ghost vx_m = char_map.m(); let ghost vx_cm = *char_map;» let vx_v = vx_chars('1', '8', true); let mut vx_j: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_j < vx_v.len()
                invariant vx_j <= vx_v@.len(), *char_map == (CharMap { char_map: char_map.char_map, ..vx_cm }), ident(char_map.m()), forall|c: char| #[trigger] char_map.m().contains_key(c) <==> vx_m.contains_key(c) || exists|i: int| 0 <= i < vx_j && #[trigger] vx_v@[i] == c,
                decreases vx_v@.len() - vx_j
            { let $c = vx_v[vx_j]; «proof { assert(vx_v@.contains(vx_v@[vx_j as int])); }» $b vx_j += 1; }
            «proof { assert forall|c: char| cv('0') <= cv(c) && cv(c) <= cv('9') implies #[trigger] char_map.m().contains_key(c) by {
                if cv(c) == cv('0') { lemma_cv(c, '0'); } else if cv(c) == cv('9') { lemma_cv(c, '9'); } else { assert(vx_v@.contains(c)); let i = choose|i: int| 0 <= i < vx_v@.len() && vx_v@[i] == c; } }
                assert forall|c: char| #[trigger] char_map.m().contains_key(c) implies within(('0', '9'), c) by { if !vx_m.contains_key(c) { let i = choose|i: int| 0 <= i < vx_v@.len() && vx_v@[i] == c; assert(vx_v@.contains(c)); } }
                reveal(ident); assert(vx_m.contains_key('0') && vx_m.contains_key('9')); assert(char_map.m().contains_key('0') && char_map.m().contains_key('9')); assert(fix(char_map.m(), '0')); assert(fix(char_map.m(), '9')); }»'''),
        ('ghost', 'if matches ! ( $st:id , KeepInts :: AsInts | KeepInts :: ExactInts ) { $b }', '''if matches!($st, KeepInts::AsInts | KeepInts::ExactInts) { $b }
            «proof { reveal(covered); let vx_r = char_map.ranges@; if vx_r.len() > 0 { assert(vx_r[0] == digits());
                assert forall|c: char| #[trigger] char_map.m().contains_key(c) implies exists|i: int| 0 <= i < vx_r.len() && inr(#[trigger] vx_r[i], c) by { assert(inr(vx_r[0], c)); }
                assert(is_range(vx_r[0], ('0', '9'))); assert(fix(char_map.m(), '0')); assert(fix(char_map.m(), '9')); } }»'''),
        ],
        requires='old(char_map).m() == Map::<char, char>::empty(), old(char_map).ranges@.len() == 0, offset >= 35, offset < 58',
        ensures='''same(final(char_map).m(), final(char_map).ranges@, r as int), start_ok(final(char_map).m(), final(char_map).ranges@, r as int), 35 <= r <= 58,
            *final(char_map) == (CharMap { char_map: final(char_map).char_map, ranges: final(char_map).ranges, ..*old(char_map) }),
            digits_kept(partitions@, final(char_map).m(), final(char_map).ranges@)''')

    u.fn(F, 'initialize_charmap_with_ranges', ret='r', rules=u_charmap.CHARS + [
        ('type', 'BTreeSet < ( char , char ) >', 'PairSet', '*'), ('desugar', 'BTreeSet :: new ( )', 'PairSet::new()', '*'),
        ('desugar', 'for $p:id in $ps:id { for ( $f:id , $a:id ) in & $p2:id . string_fcts { if let StringFctArgs :: ReRange ( $c1:id , $c2:id ) = $a2:id { $rs:id . insert ( $x ) ; } } }',
         """let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < $ps.len()
                invariant vx_i <= $ps@.len(), ordered($rs@), forall|i: int, k: int| 0 <= i < vx_i && 0 <= k < fcts($ps@[i]).len() ==> ((#[trigger] fcts($ps@[i])[k]).1 matches StringFctArgs::ReRange(a, b) ==> $rs@.contains((a, b))),
                decreases $ps@.len() - vx_i
            {   let $p = &$ps[vx_i]; let vx_v = $p2.string_fcts.vx_list(); let mut vx_k: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_k < vx_v.len()
                    invariant vx_k <= vx_v@.len(), ordered($rs@), vx_v@ == fcts($ps@[vx_i as int]), forall|i: int, k: int| 0 <= i < vx_i && 0 <= k < fcts($ps@[i]).len() ==> ((#[trigger] fcts($ps@[i])[k]).1 matches StringFctArgs::ReRange(a, b) ==> $rs@.contains((a, b))),
                        forall|k: int| 0 <= k < vx_k ==> ((#[trigger] vx_v@[k]).1 matches StringFctArgs::ReRange(a, b) ==> $rs@.contains((a, b))),
                    decreases vx_v@.len() - vx_k
                { «proof { assert(fcts($ps@[vx_i as int])[vx_k as int] == vx_v@[vx_k as int]); }» let $f = &vx_v[vx_k].0; let $a = &vx_v[vx_k].1; if let StringFctArgs::ReRange($c1, $c2) = $a2 { $rs.insert($x); } vx_k += 1; }
                vx_i += 1; }
            «let ghost vx_asked = $rs@;»"""),
        ('desugar', 'let ( $ig:id , $g:id ) : ( Vec < _ > , Vec < _ > ) = group_overlapping_ranges ( $rs:id ) . into_iter ( ) . partition ( | $x:id | $k:id && $y:id . contains ( & $d ) ) ;',
         """let vx_all = group_overlapping_ranges($rs); «let ghost gs = vx_all@; let ghost vx_keep = $k;»
            let ($ig, $g, vx_p, vx_q): (Vec<Vec<Pair>>, Vec<Vec<Pair>>, Ghost<Seq<int>>, Ghost<Seq<int>>) = vx_partition(vx_all, |$x: &Vec<Pair>| -> (b: bool) ensures b == ($k && $x@.contains($d)) { $k && vx_has($y, $d) }, Ghost($k));
            «let ghost (p, q) = (vx_p@, vx_q@);
            proof {
                    assert(parted(gs, $ig@, $g@, p, q, $k));
                    let rs = char_map.ranges@;
                    if $k { assert(in_groups(gs, ('0', '9'))); lemma_done_digits(gs, $ig@, $g@, p, q, rs); }
                    else { reveal(from); assert(rs.len() == 0) by { if rs.len() > 0 { assert(is_range(rs[0], ('0', '9'))); } } if $ig@.len() > 0 { lemma_ig(gs, $ig@, $g@, p, q, $k, 0); } } }»"""),
        ('desugar', 'for $g:id in $ig:id . iter ( ) . filter ( | $x:id | $y:id . len ( ) > 1 ) { $b }',
         """let mut vx_i: usize = 0;
            while vx_i < $ig.len()
                invariant parted(gs, $ig@, groups@, p, q, vx_keep), groups_ok(gs), parts_ordered(partitions@), ill_list(old(char_map).illegal_chars@), vx_i <= $ig@.len(), mid(char_map.m(), char_map.ranges@, offset as int), frame(*char_map, *old(char_map)), from(char_map.ranges@, gs, done(p, q, 0)), all_has($ig@, vx_i as int, char_map.ranges@),
                    $ig@.len() > 0 ==> char_map.ranges@.len() > 0,
                decreases $ig@.len() - vx_i
            {   let $g = &$ig[vx_i]; let $x = $g; «let ghost vx_g = $g@; let ghost vx_x = p[vx_i as int]; let ghost vx_rs0 = char_map.ranges@;
                    proof { lemma_ig(gs, $ig@, groups@, p, q, vx_keep, vx_i as int); assert(vx_g == gs[vx_x]@); assert(group_ok(vx_g)); }»
                if $y.len() > 1 { $b
                    «proof { let j = choose|j: int| 0 <= j < vx_g.len() && vx_g[j] == ('0', '9'); assert(shut(char_map.m(), vx_g[j]));
                        let rs = char_map.ranges@;
                        assert(closed(char_map.m(), rs)) by { assert forall|i: int| 0 <= i < rs.len() implies !opened(char_map.m(), #[trigger] rs[i]) by { if i == 0 && opened(char_map.m(), rs[i]) { let d = choose|d: char| inr(rs[i], d) && !#[trigger] char_map.m().contains_key(d); assert(within(('0', '9'), d)); } } } }» }
                «proof { lemma_all_has($ig@, vx_i as int, vx_rs0, char_map.ranges@);
                    assert(group_has(vx_g, vx_g.len() as int, char_map.ranges@)) by { if vx_g.len() == 1 { assert(vx_g[0] == ('0', '9')); assert(is_range(char_map.ranges@[0], ('0', '9'))); } }
                    assert(all_has($ig@, vx_i + 1, char_map.ranges@)) by { assert forall|x: int, y: int| 0 <= x < vx_i + 1 && 0 <= y < $ig@[x]@.len() implies has(char_map.ranges@, #[trigger] $ig@[x]@[y]) by { if x == vx_i { assert(has(char_map.ranges@, vx_g[y])); } } } }»
                vx_i += 1; }"""),
        ('desugar', 'for ( $c1:id , $c2:id ) in $g:id { for $c:id in * $a:id ..= * $b2:id { $b } $rest }',
         """let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < $g.len()
                invariant vx_k <= $g@.len(), $g@ == vx_g, same(char_map.m(), char_map.ranges@, offset as int), 35 <= offset <= 0x110000, frame(*char_map, *old(char_map)), prefix(vx_rs0, char_map.ranges@), from(char_map.ranges@, gs, done(p, q, 0)),
                    group_has(vx_g, vx_k as int, char_map.ranges@), almost_closed(char_map.m(), char_map.ranges@), char_map.ranges@.len() > 0, char_map.ranges@[0] == digits(),
                    forall|y: int| 0 <= y < vx_k ==> shut(char_map.m(), #[trigger] vx_g[y]),
                decreases $g@.len() - vx_k
            {   let (vx_a, vx_b) = $g[vx_k]; let $c1 = &vx_a; let $c2 = &vx_b;
                «let ghost vx_p = vx_g[vx_k as int]; let ghost vx_m = char_map.m(); let ghost vx_rs = char_map.ranges@; let ghost vx_n = offset as int; let ghost vx_cm = *char_map;
                proof { assert((vx_a, vx_b) == vx_p); assert(cv(vx_g[vx_k as int].0) <= cv(vx_g[vx_k as int].1)); }»
                let vx_v = vx_chars(*$a, *$b2, true); let mut vx_j: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_j < vx_v.len()
                    invariant vx_j <= vx_v@.len(), *char_map == (CharMap { char_map: char_map.char_map, ..vx_cm }), ident(char_map.m()), forall|c: char| #[trigger] char_map.m().contains_key(c) <==> vx_m.contains_key(c) || exists|i: int| 0 <= i < vx_j && #[trigger] vx_v@[i] == c,
                    decreases vx_v@.len() - vx_j
                { let $c = vx_v[vx_j]; «proof { assert(vx_v@.contains(vx_v@[vx_j as int])); }» $b vx_j += 1; }
                «proof { assert(plus(vx_m, char_map.m(), vx_p)) by { assert forall|c: char| #[trigger] char_map.m().contains_key(c) <==> vx_m.contains_key(c) || within(vx_p, c) by {
                    if within(vx_p, c) { assert(vx_v@.contains(c)); let i = choose|i: int| 0 <= i < vx_v@.len() && vx_v@[i] == c; }
                    if char_map.m().contains_key(c) && !vx_m.contains_key(c) { let i = choose|i: int| 0 <= i < vx_j && #[trigger] vx_v@[i] == c; assert(vx_v@.contains(c)); } } } }»
                $rest
                «proof { let ss = char_map.ranges@; let w = char_map.m();
                    assert(prefix(vx_rs, ss)); lemma_group_has(vx_g, vx_k as int, vx_rs, ss);
                    if ss.len() > vx_rs.len() { let r = ss[vx_rs.len() as int]; assert(ss == vx_rs.push(r)); lemma_from_push(vx_rs, gs, done(p, q, 0), r, vx_x, vx_k as int); lemma_same(vx_m, vx_rs, vx_n, vx_p, w, ss, vx_rs.len() as int); }
                    else { assert(ss == vx_rs); let k = choose|k: int| 0 <= k < vx_rs.len() && is_range(#[trigger] vx_rs[k], vx_p); lemma_same(vx_m, vx_rs, vx_n, vx_p, w, ss, k); }
                    assert forall|y: int| 0 <= y < vx_k + 1 implies shut(w, #[trigger] vx_g[y]) by { if y < vx_k { assert(shut(vx_m, vx_g[y])); } }
                    assert(almost_closed(w, ss)) by { assert forall|i: int| 1 <= i < ss.len() implies !opened(w, #[trigger] ss[i]) by { if i < vx_rs.len() { assert(!opened(vx_m, vx_rs[i])); } } } }»
                vx_k += 1; }"""),
        ('desugar', 'std :: cmp :: max (', 'vx_max_u (', '*'),
        ('desugar', '$m:id . char_map [ $c:id ]', 'vx_at(&$m.char_map, $c)', '*'),
        ('desugar', 'for $g:id in $gs:id { $s if let [ ( $c1:id , $c2:id ) ] = $g2:id [ .. ] { $a } else { $e } }',
         """«proof { lemma_ident(char_map.m(), char_map.ranges@, offset as int); }»
            let mut vx_i: usize = 0;
            while vx_i < $gs.len()
                invariant parted(gs, int_groups@, $gs@, p, q, vx_keep), groups_ok(gs), parts_ordered(partitions@), ill_list(old(char_map).illegal_chars@), vx_i <= $gs@.len(), inv(char_map.m(), char_map.ranges@, offset as int), covered(char_map.m(), char_map.ranges@), 35 <= offset <= 0x110000, frame(*char_map, *old(char_map)), from(char_map.ranges@, gs, done(p, q, vx_i as int)),
                    all_has(int_groups@, int_groups@.len() as int, char_map.ranges@), all_has($gs@, vx_i as int, char_map.ranges@),
                decreases $gs@.len() - vx_i
            {   let $g = &$gs[vx_i]; «let ghost vx_g = $g@; let ghost vx_x = q[vx_i as int]; let ghost vx_m0 = char_map.m(); let ghost vx_rs0 = char_map.ranges@; let ghost vx_n00 = offset as int; let ghost vx_done = done(p, q, vx_i + 1);
                    proof { lemma_done(gs, int_groups@, $gs@, p, q, vx_keep, vx_i as int); assert(vx_g == gs[vx_x]@); assert(group_ok(vx_g));
                        assert forall|y: int, i: int| 0 <= y < vx_g.len() && 0 <= i < vx_rs0.len() implies cv((#[trigger] vx_rs0[i]).end_char) < cv((#[trigger] vx_g[y]).0) || cv(vx_g[y].1) < cv(vx_rs0[i].start_char) by { lemma_from(vx_rs0, gs, done(p, q, vx_i as int), vx_x, y); }
                        lemma_from_more(vx_rs0, gs, done(p, q, vx_i as int), vx_done); }»
                $s
                «let ghost vx_n0 = offset as int; proof { lemma_weaken(vx_m0, vx_rs0, vx_n00, vx_n0); }»
                if $g2.len() == 1 { let ($c1, $c2) = $g2[0]; $a
                    «proof { let (m, rs) = (char_map.m(), char_map.ranges@); let (va, vb) = (m[$c1], m[$c2]);
                        assert(vx_g[0] == ($c1, $c2));
                        assert(m =~= vx_m0.insert($c1, va).insert($c2, vb)) by { if $c1 == $c2 { assert(va == vb); } }
                        lemma_single(vx_m0, vx_rs0, vx_n0, $c1, $c2, va, vb);
                        assert(rs =~= vx_rs0.push(rs.last()));
                        lemma_from_push(vx_rs0, gs, vx_done, rs.last(), vx_x, 0);
                        assert(is_range(rs[rs.len() - 1], vx_g[0])); assert(group_has(vx_g, vx_g.len() as int, rs)); }»
                } else { $e }
                «proof { let rs = char_map.ranges@; assert(prefix(vx_rs0, rs)); lemma_all_has(int_groups@, int_groups@.len() as int, vx_rs0, rs); lemma_all_has($gs@, vx_i as int, vx_rs0, rs);
                    assert(all_has($gs@, vx_i + 1, rs)) by { assert forall|x: int, y: int| 0 <= x < vx_i + 1 && 0 <= y < $gs@[x]@.len() implies has(rs, #[trigger] $gs@[x]@[y]) by { if x == vx_i { assert(has(rs, vx_g[y])); } } } }»
                vx_i += 1; }
            «proof { let rs = char_map.ranges@; lemma_all(gs, int_groups@, $gs@, p, q, vx_keep, rs);
                assert forall|r: Pair| vx_asked.contains(r) implies has(rs, r) by { assert(in_groups(gs, r)); } }»"""),
        ('desugar', 'for $x:id in & $m:id . illegal_chars { $b }', """«let ghost vx_o = offset as int;» let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < $m.illegal_chars.len()
                invariant vx_k <= $m.illegal_chars@.len(), vx_n0 <= vx_o, offset == vx_o + (if vx_k >= 1 && vx_n0 < 92 <= vx_o { 1int } else { 0 }) + (if vx_k >= 5 && vx_n0 < 127 <= vx_o + (if vx_n0 < 92 <= vx_o { 1int } else { 0 }) { 1int } else { 0 }),
                decreases $m.illegal_chars@.len() - vx_k
            { let $x = &$m.illegal_chars[vx_k]; $b vx_k += 1; }
            «proof { if offset > vx_n0 { lemma_ills_val(vx_n0 + 1, offset as int); } assert(!illegal(offset as int)); }»"""),
        ('desugar', 'for ( $c1:id , $c2:id ) in & $g:id { for $c:id in * $a:id ..= * $b2:id { if $cond { $b } } $rest }',
         """«let ghost vx_s = cv(vx_g[0].0); let ghost mut vx_e = vx_s;
            proof { assert(vx_rs0.take(vx_rs0.len() as int) =~= vx_rs0); assert(block(vx_m0, char_map.m(), vx_s, vx_s, vx_n0, offset as int)) by { reveal(block); reveal(inv); };
                assert forall|c: char, y: int| 0 <= y < vx_g.len() && within(#[trigger] vx_g[y], c) implies !#[trigger] vx_m0.contains_key(c) by { reveal(covered); if vx_m0.contains_key(c) { let i = choose|i: int| 0 <= i < vx_rs0.len() && inr(#[trigger] vx_rs0[i], c); } } }»
            let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < $g.len()
                invariant vx_k <= $g@.len(), $g@ == vx_g, inv(char_map.m(), char_map.ranges@, offset as int), vx_n0 <= offset <= 0x110000, frame(*char_map, *old(char_map)), covered(char_map.m(), char_map.ranges@), from(char_map.ranges@, gs, vx_done),
                    block(vx_m0, char_map.m(), vx_s, vx_e, vx_n0, offset as int), vx_s <= vx_e, vx_k == 0 ==> vx_e == vx_s, prefix(vx_rs0, char_map.ranges@), group_has(vx_g, vx_k as int, char_map.ranges@),
                    forall|y: int| 0 <= y < vx_k ==> cv((#[trigger] vx_g[y]).1) < vx_e,
                    forall|i: int| vx_rs0.len() <= i < char_map.ranges@.len() ==> vx_s <= cv((#[trigger] char_map.ranges@[i]).start_char) && cv(char_map.ranges@[i].end_char) < vx_e,
                decreases $g@.len() - vx_k
            {   let (vx_a, vx_b) = $g[vx_k]; let $c1 = &vx_a; let $c2 = &vx_b;
                «let ghost vx_p = vx_g[vx_k as int]; let ghost vx_m = char_map.m(); let ghost vx_rs = char_map.ranges@; let ghost vx_cm = *char_map;
                proof { assert((vx_a, vx_b) == vx_p); assert(cv(vx_g[vx_k as int].0) <= cv(vx_g[vx_k as int].1)); assert(cv(vx_g[0].0) <= cv(vx_p.0));
                    assert(cv(vx_p.0) <= vx_e) by { if vx_k > 0 { reveal(linked); let i = choose|i: int| 0 <= i < vx_k && cv((#[trigger] vx_g[vx_k as int]).0) <= cv((#[trigger] vx_g[i]).1); } } }»
                let vx_v = vx_chars(*$a, *$b2, true); let mut vx_j: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_j < vx_v.len()
                    invariant vx_j <= vx_v@.len(), *char_map == (CharMap { char_map: char_map.char_map, ..vx_cm }), inv(char_map.m(), vx_rs, offset as int), vx_n0 <= offset <= 0x110000,
                        block(vx_m0, char_map.m(), vx_s, vx_e, vx_n0, offset as int), vx_s <= vx_e, cv(vx_p.0) <= vx_e, grows(vx_m, char_map.m()),
                        forall|y: int| 0 <= y < vx_k ==> cv((#[trigger] vx_g[y]).1) < vx_e,
                        forall|i: int| vx_rs0.len() <= i < vx_rs.len() ==> vx_s <= cv((#[trigger] vx_rs[i]).start_char) && cv(vx_rs[i].end_char) < vx_e,
                        forall|i: int| 0 <= i < vx_j ==> cv(#[trigger] vx_v@[i]) < vx_e,
                        forall|c: char| #[trigger] char_map.m().contains_key(c) ==> vx_m.contains_key(c) || within(vx_p, c),
                    decreases vx_v@.len() - vx_j
                { let $c = vx_v[vx_j];
                    «let ghost vx_w = char_map.m(); let ghost vx_on = offset as int; proof { assert(vx_v@.contains(vx_v@[vx_j as int])); assert(within(vx_g[vx_k as int], $c)); assert(!vx_m0.contains_key($c)); assert(cv($c) < vx_e ==> vx_w.contains_key($c)) by { reveal(block); } }»
                    if $cond { $b
                        «proof { let v = char_map.m()[$c]; assert(char_map.m() == vx_w.insert($c, v));
                            assert(cv($c) >= vx_e) by { reveal(block); }
                            assert forall|d: char| vx_e <= cv(d) && cv(d) < cv($c) implies false by { assert(vx_v@.contains(d)); let x = choose|x: int| 0 <= x < vx_v@.len() && vx_v@[x] == d; if x > vx_j { assert(cv(vx_v@[vx_j as int]) < cv(vx_v@[x])); } assert(x < vx_j); }
                            lemma_block(vx_m0, vx_w, vx_s, vx_e, vx_n0, vx_on, $c, v);
                            assert forall|i: int| 0 <= i < vx_rs.len() implies !inr(#[trigger] vx_rs[i], $c) by { if i < vx_rs0.len() { assert(vx_rs[i] == vx_rs0[i]); } }
                            lemma_out(vx_w, vx_rs, vx_on, $c, v);
                            vx_e = cv($c) + 1; }» }
                    «proof { assert(cv($c) < vx_e) by { reveal(block); } }»
                    vx_j += 1; }
                «proof { assert(vx_v@.contains(vx_b)) by { assert(cv(vx_a) <= cv(vx_b)); } let x = choose|x: int| 0 <= x < vx_v@.len() && vx_v@[x] == vx_b; assert(cv(vx_v@[x]) < vx_e); }»
                $rest
                «proof { let ss = char_map.ranges@; let w = char_map.m(); let r = ss[vx_rs.len() as int]; assert(ss == vx_rs.push(r)); assert(is_range(r, vx_p));
                    assert(vx_rs.take(vx_rs0.len() as int) =~= vx_rs0);
                    assert forall|i: int| 0 <= i < vx_rs0.len() implies (cv((#[trigger] vx_rs[i]).end_char) < cv(r.start_char) || cv(r.end_char) < cv(vx_rs[i].start_char)) && vx_m0.contains_key(vx_rs[i].start_char) && vx_m0.contains_key(vx_rs[i].end_char) by { reveal(inv); assert(vx_rs[i] == vx_rs0[i]); assert(cv(vx_rs0[i].end_char) < cv(vx_g[vx_k as int].0) || cv(vx_g[vx_k as int].1) < cv(vx_rs0[i].start_char)); assert(vx_m0.contains_key(vx_rs0[i].start_char)); }
                    lemma_block_push(vx_m0, w, vx_s, vx_e, vx_n0, offset as int, vx_rs, r, vx_rs0.len() as int);
                    lemma_covered_push(vx_m, vx_rs, w, r);
                    lemma_from_push(vx_rs, gs, vx_done, r, vx_x, vx_k as int);
                    assert(prefix(vx_rs, ss)); lemma_group_has(vx_g, vx_k as int, vx_rs, ss); assert(is_range(ss[vx_rs.len() as int], vx_g[vx_k as int])); }»
                vx_k += 1; }"""),
        ],
        requires="""parts_ordered(partitions@), ill_list(old(char_map).illegal_chars@), same(old(char_map).m(), old(char_map).ranges@, offset as int),
            start_ok(old(char_map).m(), old(char_map).ranges@, offset as int), 35 <= offset <= 58""",
        ensures="""inv(final(char_map).m(), final(char_map).ranges@, r as int), 35 <= r <= 0x110000, frame(*final(char_map), *old(char_map)), all_ranges(partitions@, final(char_map).ranges@)""")
    u.add(r'''
#[verifier::external_body]
pub fn vx_no_props() -> HashMap<String, StringSetProperties> { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_meta() -> HashMap<String, MappedStringMetaObj> { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_strings() -> HashMap<String, String> { unimplemented!() }
impl CharMap {
    /// proved in unit u_litprops: nothing but the requirements of literals is written
    #[verifier::external_body]
    pub fn setup_string_lit_oriented_props(&mut self, partitions: &[NodeSetData], vars: &Opaque)
        ensures *final(self) == (CharMap { string_lit_props: final(self).string_lit_props, char_to_char_string_lits: final(self).char_to_char_string_lits, ..*old(self) })
    { unimplemented!() }
''')
    u.fn(F, 'Default for CharMap::default', ret='r', rules=[
        ('desugar', 'char_map : HashMap :: default ( )', 'char_map: HashMap::new()'), ('desugar', 'Vec :: default ( )', 'Vec::new()', '*'),
        ('desugar', 'string_map : HashMap :: default ( ) , string_lit_props', 'string_map: vx_no_strings(), string_lit_props'), ('desugar', 'string_lit_props : HashMap :: default ( )', 'string_lit_props: vx_no_props()'), ('desugar', 'persist_string_map : HashMap :: default ( )', 'persist_string_map: vx_no_meta()')],
        ensures='r.m() == Map::<char, char>::empty(), r.ranges@.len() == 0, ill_list(r.illegal_chars@)')
    u.add('}')
    u.fn(F, 'initialize_charmap', ret='r', rules=[('type', '& HashSet < Option < & NodeId > >', '&Opaque'),
        ('ghost', '$m:id . setup_string_lit_oriented_props ( $x )', '«proof { lemma_digits_kept(partitions@, vx_cm.m(), vx_cm.ranges@, $m.m(), $m.ranges@); }» $m.setup_string_lit_oriented_props($x)', '+'),
        ('ghost', '$o:id = initialize_charmap_with_ranges ( $x ) ;', '«let ghost vx_cm = char_map;» $o = initialize_charmap_with_ranges($x);')],
        requires='parts_ordered(partitions@)',
        ensures='r.good(), all_ranges(partitions@, r.ranges@), digits_kept(partitions@, r.m(), r.ranges@)')
