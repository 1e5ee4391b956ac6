"""Declarations shared by the units of the eager encoder.

Terms over booleans are an opaque type with a value under every assignment of the boolean variables; the
constructors of aws-smt-ir used by the encoder are trusted to build terms with the usual value. Iterators
(`impl Iterator ..` in the source) are the stand-in `It`, a sequence with the adapters of the standard
library and itertools as trusted contracts."""
EA = 'amzn-smt-eager-arithmetic/src/'
ENC, LIB = EA + 'encoding.rs', EA + 'lib.rs'

NONZERO = r'''
#[derive(Clone, Copy)]
pub struct NonZeroU64 { pub v: u64 }
impl NonZeroU64 {
    pub fn new(n: u64) -> (r: Option<NonZeroU64>) ensures r is Some == (n != 0), r is Some ==> r->Some_0.v == n { if n == 0 { None } else { Some(NonZeroU64 { v: n }) } }
    pub fn get(self) -> (r: u64) ensures r == self.v { self.v }
}
/// assumed: `expect` and `unwrap` do not return when there is nothing (a panic is no result)
#[verifier::external_body]
pub fn vx_expect<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }
'''
BITS_ = r'''
#[derive(Clone, Copy)]
pub enum Either<L, R> { Left(L), Right(R) }
#[derive(Clone, Copy)]
pub struct Bit(pub Either<bool, BoolVariable>);
impl Bit {
    pub open spec fn term(self) -> Reduced { match self.0 { Either::Left(b) => t_const(b), Either::Right(v) => Reduced::Variable(Variable::Bool(v)) } }
    pub open spec fn val(self, a: Asg) -> bool { match self.0 { Either::Left(b) => b, Either::Right(v) => a(v.0.v as int) } }
}
'''
TERMS = r'''
pub type Asg = spec_fn(int) -> bool;
pub open spec fn agree(a: Asg, b: Asg, n: int) -> bool { forall|i: int| i < n ==> #[trigger] a(i) == b(i) }
#[verifier::external_body]
pub struct Opaque { x: () }
/// a term over boolean variables, integer variables and constants
pub enum Reduced { Variable(Variable), Constant(Constant), Op(Opaque) }
#[derive(Clone, Copy)]
pub struct BoolVariable(pub NonZeroU64);
#[derive(Clone, Copy)]
pub struct IntVariable(pub u64);
#[verifier::external_body]
pub struct IVar { x: () }
pub enum Variable { Bool(BoolVariable), Int(IntVariable), Bv(IVar) }
#[verifier::external_body]
pub struct Numeral { x: () }
// assumed (num-bigint): the bits of a number; a number has fewer than 2^60 bits
impl Numeral {
    pub uninterp spec fn view(&self) -> nat;
    #[verifier::external_body]
    pub fn bits(&self) -> (w: u64) ensures self@ < pow2(w as nat), w > 0 ==> self@ >= pow2((w - 1) as nat), w < 0x1000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn bit(&self, i: u64) -> (b: bool) ensures b == nbit(self@, i as nat) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_num(x: u8) -> (n: Numeral) ensures n@ == x { unimplemented!() }
#[verifier::external_body]
pub fn vx_add(x: &Numeral, y: &Numeral) -> (n: Numeral) ensures n@ == x@ + y@ { unimplemented!() }
/// subtraction of unsigned numbers panics below zero
#[verifier::external_body]
pub fn vx_sub(x: &Numeral, y: &Numeral) -> (n: Numeral) ensures x@ >= y@, n@ == x@ - y@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_mul(x: &Numeral, y: &Numeral) -> (n: Numeral) ensures n@ == x@ * y@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_ge(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ >= y@) { unimplemented!() }
pub fn vx_le(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ <= y@) { vx_ge(y, x) }
pub fn vx_gt(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ > y@) { !vx_ge(y, x) }
pub fn vx_lt(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ < y@) { !vx_ge(x, y) }
pub fn vx_eq(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ == y@) { vx_ge(x, y) && vx_ge(y, x) }
pub fn vx_ne(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ != y@) { !vx_eq(x, y) }
pub open spec fn nbit(x: nat, i: nat) -> bool { (x / pow2(i)) % 2 == 1 }
pub enum Constant { Numeral(Numeral), Decimal(Opaque), Hexadecimal(Opaque), Binary(Vec<bool>), String(Opaque) }
pub trait Copyable: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl Copyable for Reduced { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Bit { fn clone(&self) -> (r: Self) { *self } }
impl Copyable for Numeral { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn t_val(t: Opaque, a: Asg) -> bool;
impl Reduced {
    pub open spec fn val(self, a: Asg) -> bool {
        match self { Reduced::Variable(Variable::Bool(b)) => a(b.0.v as int), Reduced::Op(t) => t_val(t, a), _ => false }
    }
    /// the value only depends on the variables below n
    pub open spec fn dep(self, n: int) -> bool { forall|a: Asg, b: Asg| #[trigger] agree(a, b, n) ==> self.val(a) == self.val(b) }
    /// assumed (aws-smt-ir): the numeral zero
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self matches Reduced::Constant(Constant::Numeral(n)) && n@ == 0) { unimplemented!() }
    /// assumed (aws-smt-ir): the value of a constant, or the term itself
    #[verifier::external_body]
    pub fn const_bool(&self) -> (r: Result<bool, &Reduced>)
        ensures match r { Ok(b) => forall|a: Asg| self.val(a) == b, Err(t) => t == self }
    { unimplemented!() }
}
// assumed: the operators of aws-smt-ir on terms build the terms they say
pub uninterp spec fn t_const(x: bool) -> Reduced;
pub uninterp spec fn t_not(x: Reduced) -> Reduced;
pub uninterp spec fn t_and(x: Reduced, y: Reduced) -> Reduced;
pub uninterp spec fn t_or(x: Reduced, y: Reduced) -> Reduced;
pub uninterp spec fn t_xor(x: Reduced, y: Reduced) -> Reduced;
pub uninterp spec fn t_op(x: CoreOp) -> Reduced;
pub mod vx_ax { use vstd::prelude::*; use super::*;
#[verifier::external_body]
pub broadcast proof fn axiom_const(x: bool, a: Asg) ensures #[trigger] t_const(x).val(a) == x {}
#[verifier::external_body]
pub broadcast proof fn axiom_not(x: Reduced, a: Asg) ensures #[trigger] t_not(x).val(a) == !x.val(a) {}
#[verifier::external_body]
pub broadcast proof fn axiom_and(x: Reduced, y: Reduced, a: Asg) ensures #[trigger] t_and(x, y).val(a) == (x.val(a) && y.val(a)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_or(x: Reduced, y: Reduced, a: Asg) ensures #[trigger] t_or(x, y).val(a) == (x.val(a) || y.val(a)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_xor(x: Reduced, y: Reduced, a: Asg) ensures #[trigger] t_xor(x, y).val(a) == (x.val(a) != y.val(a)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_op(x: CoreOp, a: Asg) ensures #[trigger] t_op(x).val(a) == x.val(a) {}
}
pub enum CoreOp { Not(Reduced), Eq(Vec<Reduced>), And(Vec<Reduced>), Or(Vec<Reduced>), Xor(Vec<Reduced>), Ite(Reduced, Reduced, Reduced) }
pub open spec fn xor_all(s: Seq<Reduced>, a: Asg) -> bool decreases s.len() { if s.len() == 0 { false } else { xor_all(s.drop_last(), a) != s.last().val(a) } }
pub open spec fn and_all(s: Seq<Reduced>, a: Asg) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val(a) }
pub open spec fn or_all(s: Seq<Reduced>, a: Asg) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).val(a) }
pub open spec fn eq_all(s: Seq<Reduced>, a: Asg) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] s[i]).val(a) == (#[trigger] s[j]).val(a) }
pub proof fn lemma_2(x: Reduced, y: Reduced, a: Asg)
    ensures and_all(seq![x, y], a) == (x.val(a) && y.val(a)), or_all(seq![x, y], a) == (x.val(a) || y.val(a)), eq_all(seq![x, y], a) == (x.val(a) == y.val(a)), xor_all(seq![x, y], a) == (x.val(a) != y.val(a)),
{ let s = seq![x, y]; assert(s[0] == x && s[1] == y); assert(s.drop_last() =~= seq![x]); assert(seq![x].drop_last() =~= Seq::empty()); reveal_with_fuel(xor_all, 4); }
pub proof fn lemma_3(x: Reduced, y: Reduced, z: Reduced, a: Asg)
    ensures and_all(seq![x, y, z], a) == (x.val(a) && y.val(a) && z.val(a)), or_all(seq![x, y, z], a) == (x.val(a) || y.val(a) || z.val(a)), xor_all(seq![x, y, z], a) == (x.val(a) != (y.val(a) != z.val(a))),
{ let s = seq![x, y, z]; assert(s[0] == x && s[1] == y && s[2] == z); assert(s.drop_last() =~= seq![x, y]); assert(seq![x, y].drop_last() =~= seq![x]); assert(seq![x].drop_last() =~= Seq::empty()); reveal_with_fuel(xor_all, 4); }
impl CoreOp {
    pub open spec fn val(self, a: Asg) -> bool {
        match self {
            CoreOp::Not(x) => !x.val(a),
            CoreOp::Eq(s) => eq_all(s@, a),
            CoreOp::And(s) => and_all(s@, a),
            CoreOp::Or(s) => or_all(s@, a),
            CoreOp::Xor(s) => xor_all(s@, a),
            CoreOp::Ite(c, x, y) => if c.val(a) { x.val(a) } else { y.val(a) },
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<bool> for Reduced { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: bool) -> Reduced { t_const(b) } }
impl From<bool> for Reduced { #[verifier::external_body] fn from(b: bool) -> (r: Reduced) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<CoreOp> for Reduced { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: CoreOp) -> Reduced { t_op(b) } }
impl From<CoreOp> for Reduced { #[verifier::external_body] fn from(b: CoreOp) -> (r: Reduced) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Constant> for Reduced { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Constant) -> Reduced { Reduced::Constant(b) } }
impl From<Constant> for Reduced { fn from(b: Constant) -> (r: Reduced) { Reduced::Constant(b) } }
impl vstd::std_specs::convert::FromSpecImpl<Bit> for Reduced { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Bit) -> Reduced { b.term() } }
'''
for tr, fn, t in (('BitAnd', 'bitand', 'and'), ('BitOr', 'bitor', 'or'), ('BitXor', 'bitxor', 'xor')):
    TERMS += '''
impl vstd::std_specs::ops::%sSpecImpl for Reduced { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(self, o: Reduced) -> bool { true } open spec fn %s_spec(self, o: Reduced) -> Reduced { t_%s(self, o) } }
impl core::ops::%s for Reduced { type Output = Reduced; #[verifier::external_body] fn %s(self, o: Reduced) -> (r: Reduced) { unimplemented!() } }
''' % (tr, fn, fn, fn, t, tr, fn)
TERMS += '''
impl vstd::std_specs::ops::NotSpecImpl for Reduced { open spec fn obeys_not_spec() -> bool { true } open spec fn not_req(self) -> bool { true } open spec fn not_spec(self) -> Reduced { t_not(self) } }
impl core::ops::Not for Reduced { type Output = Reduced; #[verifier::external_body] fn not(self) -> (r: Reduced) { unimplemented!() } }
'''
ARGFNS = r'''
/// the arguments of an operator; what the operators mean on them is proved here
pub fn vx_args2(a: Reduced, b: Reduced) -> (r: Vec<Reduced>)
    ensures r@ == seq![a, b],
        forall|s: Asg| #[trigger] t_op(CoreOp::Or(r)).val(s) == (a.val(s) || b.val(s)),
        forall|s: Asg| #[trigger] t_op(CoreOp::And(r)).val(s) == (a.val(s) && b.val(s)),
        forall|s: Asg| #[trigger] t_op(CoreOp::Eq(r)).val(s) == (a.val(s) == b.val(s)),
        forall|s: Asg| #[trigger] t_op(CoreOp::Xor(r)).val(s) == (a.val(s) != b.val(s)),
{
    let mut v = Vec::new(); v.push(a); v.push(b);
    proof { assert(v@ =~= seq![a, b]); assert forall|s: Asg| true implies and_all(v@, s) == (a.val(s) && b.val(s)) && or_all(v@, s) == (a.val(s) || b.val(s)) && eq_all(v@, s) == (a.val(s) == b.val(s)) && xor_all(v@, s) == (a.val(s) != b.val(s)) by { lemma_2(a, b, s); } }
    v
}
pub fn vx_args3(a: Reduced, b: Reduced, c: Reduced) -> (r: Vec<Reduced>)
    ensures r@ == seq![a, b, c],
        forall|s: Asg| #[trigger] t_op(CoreOp::Or(r)).val(s) == (a.val(s) || b.val(s) || c.val(s)),
        forall|s: Asg| #[trigger] t_op(CoreOp::And(r)).val(s) == (a.val(s) && b.val(s) && c.val(s)),
        forall|s: Asg| #[trigger] t_op(CoreOp::Xor(r)).val(s) == (a.val(s) != (b.val(s) != c.val(s))),
{
    let mut v = Vec::new(); v.push(a); v.push(b); v.push(c);
    proof { assert(v@ =~= seq![a, b, c]); assert forall|s: Asg| true implies and_all(v@, s) == (a.val(s) && b.val(s) && c.val(s)) && or_all(v@, s) == (a.val(s) || b.val(s) || c.val(s)) && xor_all(v@, s) == (a.val(s) != (b.val(s) != c.val(s))) by { lemma_3(a, b, c, s); } }
    v
}
'''
PRE = 'pub mod vx_t { use vstd::prelude::*; use vstd::arithmetic::power2::*;\n' + NONZERO + BITS_ + TERMS + '''
}
pub use vx_t::*;
broadcast use {vx_ax::axiom_const, vx_ax::axiom_not, vx_ax::axiom_and, vx_ax::axiom_or, vx_ax::axiom_xor, vx_ax::axiom_op};
''' + ARGFNS
# ranges, as in the standard library
RANGE = r"""
#[derive(Clone, Copy)]
pub struct Range<T> { pub start: T, pub end: T }
"""
for _t in ('u64', 'usize'):
    RANGE += """
impl Range<%s> {
    pub fn next(&mut self) -> (r: Option<%s>)
        ensures r is Some == (old(self).start < old(self).end), r is Some ==> r->Some_0 == old(self).start && final(self).start == old(self).start + 1 && final(self).end == old(self).end, r is None ==> *final(self) == *old(self)
    { if self.start < self.end { let x = self.start; self.start = x + 1; Some(x) } else { None } }
    pub fn next_back(&mut self) -> (r: Option<%s>)
        ensures r is Some == (old(self).start < old(self).end), r is Some ==> r->Some_0 == old(self).end - 1 && final(self).end == old(self).end - 1 && final(self).start == old(self).start, r is None ==> *final(self) == *old(self)
    { if self.start < self.end { let x = self.end - 1; self.end = x; Some(x) } else { None } }
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures self.end - self.start <= usize::MAX ==> r.0 == (if self.start < self.end { self.end - self.start } else { 0 }) && r.1 == Some(r.0)
    { if self.start < self.end { if (self.end - self.start) as u64 > usize::MAX as u64 { (usize::MAX, None) } else { ((self.end - self.start) as usize, Some((self.end - self.start) as usize)) } } else { (0, Some(0)) } }
}
""" % (_t, _t, _t)
RANGES = [('type', 'Range < $t:id >', 'Range<$t>', '*'), ('desugar', '$a:tt .. $b:tt + $c:tt', 'Range { start: $a, end: $b + $c }', '*')]
# `args![..]` and `[..].into()` build argument lists
ARGS = [('desugar', 'args ! [ $a:tt , $b:tt ]', 'vx_args2($a, $b)', '*'),
        ('desugar', '[ $a:tt , $b:tt ] . into ( )', 'vx_args2($a, $b)', '*')]
ITER = r'''
/// assumed: the iterators and adapters of the standard library and itertools, as sequences of what they produce
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
pub enum EitherOrBoth<T, U> { Both(T, U), Left(T), Right(U) }
pub open spec fn zip_long<T, U>(x: Seq<T>, y: Seq<U>) -> Seq<EitherOrBoth<T, U>> {
    Seq::new(if x.len() >= y.len() { x.len() } else { y.len() }, |i: int| if i < x.len() && i < y.len() { EitherOrBoth::Both(x[i], y[i]) }
        else if i < x.len() { EitherOrBoth::Left(x[i]) } else { EitherOrBoth::Right(y[i]) })
}
pub open spec fn zipped<T, U>(x: Seq<T>, y: Seq<U>) -> Seq<(T, U)> { Seq::new(if x.len() <= y.len() { x.len() } else { y.len() }, |i: int| (x[i], y[i])) }
impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: It<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>) ensures final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(&old(self)@[0]), old(self)@.len() == 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>) ensures r@ == zipped(self@, o@) { unimplemented!() }
    /// `a.zip(&mut b)`, used up completely: b has lost what was paired (and one more only if a is longer)
    #[verifier::external_body]
    pub fn vx_zip_mut<U>(self, o: &mut It<U>) -> (r: It<(T, U)>) ensures r@ == zipped(self@, old(o)@), self@.len() <= old(o)@.len() ==> final(o)@ == old(o)@.skip(self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip_longest<U>(self, o: It<U>) -> (r: It<EitherOrBoth<T, U>>) ensures r@ == zip_long(self@, o@) { unimplemented!() }
}
impl It<Bit> {
    pub fn vx_terms(self) -> (r: It<Reduced>)
        ensures r@ == self@.map_values(|b: Bit| b.term()), r@.len() == self@.len(), forall|a: Asg| #[trigger] vals(r@, a) == bvals(self@, a), forall|n: int| bits_dep(self@, n) ==> #[trigger] deps(r@, n)
    {
        let r = self.map(|b: Bit| -> (t: Reduced) ensures t == b.term() { Reduced::from(b) });
        proof { assert(r@ =~= self@.map_values(|b: Bit| b.term()));
          assert forall|a: Asg| #[trigger] vals(r@, a) == bvals(self@, a) by { assert(vals(r@, a) =~= bvals(self@, a)); }
          assert forall|n: int| bits_dep(self@, n) implies #[trigger] deps(r@, n) by { assert forall|i: int| 0 <= i < r@.len() implies (#[trigger] r@[i]).dep(n) by { let b = self@[i]; } } }
        r
    }
}
/// assumed: a map, by equality of keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> VMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_index(&self, k: &K) -> (r: &V) ensures self@.dom().contains(*k), *r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
'''
NUM = r'''
use vstd::arithmetic::power2::*;
pub open spec fn p2(n: nat) -> int { pow2(n) as int }
pub proof fn lemma_p2(n: nat) ensures p2(n) >= 1, p2(n + 1) == 2 * p2(n), p2(0) == 1 { lemma_pow2_pos(n); lemma_pow2_unfold((n + 1) as nat); lemma2_to64(); }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// unsigned value, least significant bit first
pub open spec fn uval(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { uval(s.drop_last()) + b2i(s.last()) * p2((s.len() - 1) as nat) } }
/// two's complement value
pub open spec fn sval(s: Seq<bool>) -> int { uval(s) - b2i(s.last()) * p2(s.len()) }
pub open spec fn vals(s: Seq<Reduced>, a: Asg) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i].val(a)) }
pub open spec fn bvals(s: Seq<Bit>, a: Asg) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i].val(a)) }
/// the bits only refer to variables below n
pub open spec fn bits_dep(s: Seq<Bit>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).0 matches Either::Right(v) ==> v.0.v < n) }
pub open spec fn deps(s: Seq<Reduced>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).dep(n) }
/// sign extension
pub open spec fn ext<T>(s: Seq<T>, n: nat) -> Seq<T> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { s.last() }) }
pub proof fn lemma_ext(s: Seq<bool>, n: nat)
    requires 1 <= s.len() <= n,
    ensures sval(ext(s, n)) == sval(s),
    decreases n - s.len(),
{
    if n == s.len() { assert(ext(s, n) =~= s); }
    else {
        let m = (n - 1) as nat;
        lemma_ext(s, m);
        assert(ext(s, n).drop_last() =~= ext(s, m));
        lemma_p2(m);
        assert(ext(s, n).last() == s.last() && ext(s, m).last() == s.last());
        let k = b2i(s.last());
        assert(k * p2(n) == 2 * (k * p2(m))) by (nonlinear_arith) requires p2(n) == 2 * p2(m);
    }
}
'''

def from_bit(u):
    u.add('impl From<Bit> for Reduced {')
    u.fn(LIB, 'From for Term::from', ret='r', rules=[('type', ') -> ( r : Self )', ') -> (r: Reduced)'),
        ('desugar', 'Term :: Variable ( IVar :: from ( $v:id . into ( ) ) )', 'Reduced::Variable(Variable::Bool($v))')])
    u.add('}')
