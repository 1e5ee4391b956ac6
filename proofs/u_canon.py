"""Normalisation of integer constraints (E05): every term has the same value before and after.

Terms are a datatype with the operators the normaliser looks at; `val(t, a)` is the value of a term under an
assignment of its variables (integers, Booleans or something else). The interned terms of aws-smt-ir are the
boxes of that datatype, argument lists are vectors, numbers (num-bigint) mathematical naturals."""
from ea_common import ITER, EA
import re
import u_stats
CA = EA + 'canonicalize.rs'
TIMEOUT = 300
TERMS = r'''
pub enum Ordering { Less, Equal, Greater }
impl Numeral {
    #[verifier::external_body] pub fn zero() -> (r: Numeral) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1) { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &Numeral) -> (r: Ordering) ensures r == (if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_num_ne(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ != y@) { unimplemented!() }
/// a difference of natural numbers panics when it would be negative: shown not to happen
pub trait VxAdd<T> { fn vx_add_to(&mut self, o: T); }
impl vstd::std_specs::ops::SubSpecImpl<Numeral> for Numeral { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Numeral) -> bool { self@ >= o@ } open spec fn sub_spec(self, o: Numeral) -> Numeral { n_of((self@ - o@) as nat) } }
impl core::ops::Sub<Numeral> for Numeral { type Output = Numeral; #[verifier::external_body] fn sub(self, o: Numeral) -> (r: Numeral) { unimplemented!() } }
impl VxAdd<Numeral> for Numeral { #[verifier::external_body] fn vx_add_to(&mut self, o: Numeral) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
impl<'a> VxAdd<&'a Numeral> for Numeral { #[verifier::external_body] fn vx_add_to(&mut self, o: &'a Numeral) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
impl Copyable for Term { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<IVar> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IVar) -> Term { Term::Variable(b) } }
impl From<IVar> for Term { fn from(b: IVar) -> (r: Term) { Term::Variable(b) } }
impl vstd::std_specs::convert::FromSpecImpl<IOp> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IOp) -> Term { Term::OtherOp(b) } }
impl From<IOp> for Term { fn from(b: IOp) -> (r: Term) { Term::OtherOp(b) } }
impl vstd::std_specs::convert::FromSpecImpl<Constant> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Constant) -> Term { Term::Constant(IConst(Box::new(b))) } }
impl From<Constant> for Term { fn from(b: Constant) -> (r: Term) { Term::Constant(IConst(Box::new(b))) } }
impl vstd::std_specs::convert::FromSpecImpl<ArithOp> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: ArithOp) -> Term { ar(b) } }
impl From<ArithOp> for Term { fn from(b: ArithOp) -> (r: Term) { Term::OtherOp(IOp(Box::new(Op::Arith(b)))) } }
impl vstd::std_specs::convert::FromSpecImpl<Op> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Op) -> Term { Term::OtherOp(IOp(Box::new(b))) } }
impl From<Op> for Term { fn from(b: Op) -> (r: Term) { Term::OtherOp(IOp(Box::new(b))) } }
impl vstd::std_specs::convert::FromSpecImpl<CoreOp> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: CoreOp) -> Term { co(b) } }
impl From<CoreOp> for Term { fn from(b: CoreOp) -> (r: Term) { co_exec(b) } }
pub fn co_exec(b: CoreOp) -> (r: Term) ensures r == co(b) { Term::CoreOp(ICoreOp(Box::new(b))) }
pub open spec fn co(b: CoreOp) -> Term { Term::CoreOp(ICoreOp(Box::new(b))) }
pub open spec fn ar(b: ArithOp) -> Term { Term::OtherOp(IOp(Box::new(Op::Arith(b)))) }
pub fn vx_args1(a: Term) -> (r: Vec<Term>) ensures r@ == Seq::<Term>::empty().push(a) { let mut v = Vec::new(); v.push(a); v }
pub fn vx_args2(a: Term, b: Term) -> (r: Vec<Term>) ensures r@ == Seq::<Term>::empty().push(a).push(b) { let mut v = Vec::new(); v.push(a); v.push(b); v }
#[verifier::external_body] pub fn vx_once(t: Term) -> (r: It<Term>) ensures r@ == Seq::<Term>::empty().push(t) { unimplemented!() }
impl It<Term> { #[verifier::external_body] pub fn chain(self, y: It<Term>) -> (r: It<Term>) ensures r@ == self@ + y@, forall|a: A| #[trigger] isum(r@, a) == isum(self@, a) + isum(y@, a) { unimplemented!() } }
#[verifier::external_body] pub fn vx_opt_iter(x: Option<Term>) -> (r: It<Term>) ensures r@ == (match x { Some(t) => Seq::empty().push(t), None => Seq::empty() }) { unimplemented!() }
/// what can be iterated over
pub trait VxIter: Sized { spec fn items(&self) -> Seq<Term>; fn vx_into(self) -> (r: It<Term>) ensures r@ == self.items(); }
impl VxIter for It<Term> { open spec fn items(&self) -> Seq<Term> { self@ } fn vx_into(self) -> (r: It<Term>) { self } }
impl VxIter for Vec<Term> { open spec fn items(&self) -> Seq<Term> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: It<Term>) { unimplemented!() } }
'''
SPEC = r'''
// ---- the value of a term
pub enum Val { I(int), B(bool), X(int) }
impl Val { pub open spec fn i(self) -> int { if let Val::I(x) = self { x } else { 0 } } pub open spec fn b(self) -> bool { self == Val::B(true) } }
/// an assignment of the variables; what the terms that are not looked at mean is arbitrary
pub struct A { pub v: spec_fn(IVar) -> Val, pub o: spec_fn(Term) -> Val }
#[verifier::opaque]
pub open spec fn sum(s: Seq<Val>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last().i() } }
#[verifier::opaque]
pub open spec fn prod(s: Seq<Val>) -> int decreases s.len() { if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last().i() } }
/// a difference (`(- x)` with one argument is a negation, not a difference)
#[verifier::opaque]
pub open spec fn minus(s: Seq<Val>) -> int { if s.len() == 0 { 0 } else { 2 * s[0].i() - sum(s) } }
pub open spec fn rel(r: int, x: int, y: int) -> bool { if r == 0 { x >= y } else if r == 1 { x > y } else if r == 2 { x <= y } else if r == 3 { x < y } else if r == 4 { x == y } else { x != y } }
#[verifier::opaque]
pub open spec fn chain(r: int, s: Seq<Val>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> rel(r, (#[trigger] s[i]).i(), s[i + 1].i()) }
#[verifier::opaque]
pub open spec fn xors(s: Seq<Val>) -> bool decreases s.len() { if s.len() == 0 { false } else { xors(s.drop_last()) != s.last().b() } }
#[verifier::opaque]
pub open spec fn imps(s: Seq<Val>) -> bool decreases s.len() { if s.len() == 0 { true } else if s.len() == 1 { s[0].b() } else { s[0].b() ==> imps(s.skip(1)) } }
/// equality; a comparison of an integer with something else (never in a well-sorted script) counts the latter as 0
pub open spec fn same(x: Val, y: Val) -> bool { if x is I || y is I { x.i() == y.i() } else { x == y } }
#[verifier::opaque]
pub open spec fn all_eq(s: Seq<Val>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> same(#[trigger] s[i], s[i + 1]) }
#[verifier::opaque]
pub open spec fn all_ne(s: Seq<Val>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !same(#[trigger] s[i], #[trigger] s[j]) }
#[verifier::opaque]
pub open spec fn all_b(s: Seq<Val>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).b() }
#[verifier::opaque]
pub open spec fn any_b(s: Seq<Val>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).b() }
#[verifier::opaque]
pub open spec fn val(t: Term, a: A) -> Val decreases t {
    match t {
        Term::Constant(c) => if let Constant::Numeral(n) = *c.0 { Val::I(n@ as int) } else { (a.o)(t) },
        Term::Variable(v) => (a.v)(v),
        Term::OtherOp(o) => match *o.0 {
            Op::Arith(ArithOp::Plus(s)) => Val::I(sum(vs(s, a))),
            Op::Arith(ArithOp::Neg(x)) => if val(x, a) is I { Val::I(-val(x, a).i()) } else { Val::X(0) },
            Op::Arith(ArithOp::Minus(s)) => Val::I(minus(vs(s, a))),
            Op::Arith(ArithOp::Mul(s)) => Val::I(prod(vs(s, a))),
            Op::Arith(ArithOp::Gte(s)) => Val::B(chain(0, vs(s, a))),
            Op::Arith(ArithOp::Gt(s)) => Val::B(chain(1, vs(s, a))),
            Op::Arith(ArithOp::Lte(s)) => Val::B(chain(2, vs(s, a))),
            Op::Arith(ArithOp::Lt(s)) => Val::B(chain(3, vs(s, a))),
            _ => (a.o)(t),
        },
        Term::CoreOp(o) => match *o.0 {
            CoreOp::True => Val::B(true),
            CoreOp::False => Val::B(false),
            CoreOp::Not(x) => Val::B(!val(x, a).b()),
            CoreOp::And(s) => Val::B(all_b(vs(s, a))),
            CoreOp::Or(s) => Val::B(any_b(vs(s, a))),
            CoreOp::Xor(s) => Val::B(xors(vs(s, a))),
            CoreOp::Imp(s) => Val::B(imps(vs(s, a))),
            CoreOp::Eq(s) => Val::B(all_eq(vs(s, a))),
            CoreOp::Distinct(s) => Val::B(all_ne(vs(s, a))),
            CoreOp::Ite(c, x, y) => if val(c, a).b() { val(x, a) } else { val(y, a) },
        },
        _ => (a.o)(t),
    }
}
pub open spec fn vs(s: Vec<Term>, a: A) -> Seq<Val> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { val(s@[i], a) } else { Val::I(0) }) }
pub open spec fn vals(s: Seq<Term>, a: A) -> Seq<Val> { Seq::new(s.len(), |i: int| val(s[i], a)) }
pub open spec fn iv(t: Term, a: A) -> int { val(t, a).i() }
pub open spec fn isum(s: Seq<Term>, a: A) -> int { sum(vals(s, a)) }
/// the values of the operators, by the values of their arguments
pub broadcast proof fn lemma_val_ar(o: ArithOp, a: A)
    ensures #[trigger] val(ar(o), a) == (match o {
        ArithOp::Plus(s) => Val::I(isum(s@, a)), ArithOp::Neg(x) => if val(x, a) is I { Val::I(-iv(x, a)) } else { Val::X(0) }, ArithOp::Minus(s) => Val::I(minus(vals(s@, a))), ArithOp::Mul(s) => Val::I(prod(vals(s@, a))),
        ArithOp::Gte(s) => Val::B(chain(0, vals(s@, a))), ArithOp::Gt(s) => Val::B(chain(1, vals(s@, a))), ArithOp::Lte(s) => Val::B(chain(2, vals(s@, a))), ArithOp::Lt(s) => Val::B(chain(3, vals(s@, a))),
        ArithOp::Rest(x) => (a.o)(ar(o)) }),
{
    reveal_with_fuel(val, 2);
    match o {
        ArithOp::Plus(s) | ArithOp::Minus(s) | ArithOp::Mul(s) | ArithOp::Gte(s) | ArithOp::Gt(s) | ArithOp::Lte(s) | ArithOp::Lt(s) => {
            assert(vs(s, a) =~= vals(s@, a)); }
        _ => {}
    }
}
pub broadcast proof fn lemma_val_co(o: CoreOp, a: A)
    ensures #[trigger] val(co(o), a) == (match o {
        CoreOp::True => Val::B(true), CoreOp::False => Val::B(false), CoreOp::Not(x) => Val::B(!val(x, a).b()),
        CoreOp::And(s) => Val::B(all_b(vals(s@, a))), CoreOp::Or(s) => Val::B(any_b(vals(s@, a))), CoreOp::Xor(s) => Val::B(xors(vals(s@, a))), CoreOp::Imp(s) => Val::B(imps(vals(s@, a))),
        CoreOp::Eq(s) => Val::B(all_eq(vals(s@, a))), CoreOp::Distinct(s) => Val::B(all_ne(vals(s@, a))),
        CoreOp::Ite(c, x, y) => if val(c, a).b() { val(x, a) } else { val(y, a) } }),
{
    reveal_with_fuel(val, 2);
    match o {
        CoreOp::And(s) | CoreOp::Or(s) | CoreOp::Xor(s) | CoreOp::Imp(s) | CoreOp::Eq(s) | CoreOp::Distinct(s) => {
            assert(vs(s, a) =~= vals(s@, a)); }
        _ => {}
    }
}
/// an interned operator is the operator it stands for
pub broadcast proof fn lemma_op(o: IOp, a: A) ensures #[trigger] val(Term::OtherOp(o), a) == (match *o.0 { Op::Arith(x) => val(ar(x), a), _ => val(Term::OtherOp(o), a) }) {}
pub broadcast proof fn lemma_cop(o: ICoreOp, a: A) ensures #[trigger] val(Term::CoreOp(o), a) == val(co(*o.0), a) {}
pub broadcast proof fn lemma_sum_push(s: Seq<Term>, t: Term, a: A) ensures #[trigger] isum(s.push(t), a) == isum(s, a) + iv(t, a),
{ reveal_with_fuel(sum, 2); assert(vals(s.push(t), a).drop_last() =~= vals(s, a)); assert(vals(s.push(t), a).last() == val(t, a)); }
pub proof fn lemma_sum_1(x: Term, a: A) ensures isum(seq![x], a) == iv(x, a)
{ reveal_with_fuel(sum, 2); lemma_sum_push(Seq::empty(), x, a); assert(Seq::<Term>::empty().push(x) =~= seq![x]); assert(vals(Seq::empty(), a) =~= Seq::empty()); }
pub broadcast proof fn lemma_sum_add(s: Seq<Term>, t: Seq<Term>, a: A) ensures #[trigger] isum(s + t, a) == isum(s, a) + isum(t, a), decreases t.len(),
{ reveal_with_fuel(sum, 2); if t.len() == 0 { assert(s + t =~= s); assert(vals(t, a) =~= Seq::empty()); } else {
    let d = t.drop_last(); lemma_sum_add(s, d, a); assert(s + t =~= (s + d).push(t.last())); assert(t =~= d.push(t.last())); lemma_sum_push(s + d, t.last(), a); lemma_sum_push(d, t.last(), a); } }
pub broadcast proof fn lemma_val_const(c: IConst, a: A) ensures (*c.0 matches Constant::Numeral(n) ==> #[trigger] val(Term::Constant(c), a) == Val::I(n@ as int)) { reveal_with_fuel(val, 2); }
pub broadcast proof fn lemma_val_var(v: IVar, a: A) ensures #[trigger] val(Term::Variable(v), a) == (a.v)(v) { reveal_with_fuel(val, 2); }
pub proof fn lemma_prod_2(x: Term, y: Term, a: A) ensures prod(vals(Seq::empty().push(x).push(y), a)) == iv(x, a) * iv(y, a),
{ let s = vals(Seq::empty().push(x).push(y), a); assert(s.len() == 2); assert(s.drop_last() =~= seq![s[0]]); assert(seq![s[0]].drop_last() =~= Seq::empty()); reveal_with_fuel(prod, 3); assert(s.last() == val(y, a)); assert(s[0] == val(x, a));
  assert(prod(seq![s[0]]) == iv(x, a)); }
pub proof fn lemma_sum_neg(s: Seq<Term>, t: Seq<Term>, a: A)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> iv(#[trigger] s[i], a) == -iv(t[i], a),
    ensures isum(s, a) == -isum(t, a), decreases s.len(),
{ reveal_with_fuel(sum, 2); if s.len() > 0 { let (d, e) = (s.drop_last(), t.drop_last()); lemma_sum_neg(d, e, a); assert(s =~= d.push(s.last())); assert(t =~= e.push(t.last())); lemma_sum_push(d, s.last(), a); lemma_sum_push(e, t.last(), a); }
  else { assert(vals(s, a) =~= vals(t, a)); } }
pub broadcast proof fn lemma_sum_0(a: A) ensures #[trigger] isum(Seq::empty(), a) == 0 { reveal_with_fuel(sum, 2); assert(vals(Seq::empty(), a) =~= Seq::empty()); }
pub proof fn lemma_mul(t: Term, a: A) requires mul_args(t) matches Some(s) && s.len() == 2, ensures iv(t, a) == iv(mul_args(t)->Some_0[0], a) * iv(mul_args(t)->Some_0[1], a),
{ broadcast use {lemma_val_ar, lemma_op}; let s = mul_args(t)->Some_0; assert(s =~= Seq::empty().push(s[0]).push(s[1])); lemma_prod_2(s[0], s[1], a); }
pub open spec fn mul_args(t: Term) -> Option<Seq<Term>> { if let Term::OtherOp(o) = t { if let Op::Arith(ArithOp::Mul(s)) = *o.0 { Some(s@) } else { None } } else { None } }
pub proof fn lemma_mul_neg(m: Term, t: Term)
    requires mul_args(m) matches Some(s) && mul_args(t) matches Some(k) && s.len() == 2 && k.len() == 2 && s[1] == k[1] && forall|a: A| #[trigger] iv(s[0], a) == -iv(k[0], a),
    ensures forall|a: A| #[trigger] iv(m, a) == -iv(t, a),
{
    let (s, k) = (mul_args(m)->Some_0, mul_args(t)->Some_0);
        assert forall|a: A| #[trigger] iv(m, a) == -iv(t, a) by { lemma_mul(m, a); lemma_mul(t, a); let (x, y) = (iv(k[0], a), iv(k[1], a)); assert(iv(s[0], a) == -x); assert((-x) * y == -(x * y)) by (nonlinear_arith); }
}
pub proof fn lemma_isum_remove(s: Seq<Term>, j: int, a: A) requires 0 <= j < s.len(), ensures isum(s, a) == isum(s.remove(j), a) + iv(s[j], a), decreases s.len(),
{ broadcast use lemma_sum_push; let d = s.drop_last(); assert(s =~= d.push(s.last())); if j == s.len() - 1 { assert(s.remove(j) =~= d); } else { lemma_isum_remove(d, j, a); assert(s.remove(j) =~= d.remove(j).push(s.last())); } }
pub proof fn lemma_swap(s: Seq<Term>, j: int, a: A) requires 0 <= j < s.len(), ensures isum(s.update(j, s.last()).drop_last(), a) == isum(s, a) - iv(s[j], a),
{ broadcast use lemma_sum_push; let u = s.update(j, s.last()); lemma_isum_remove(s, j, a); lemma_isum_remove(u, j, a); assert(u.remove(j) =~= s.remove(j)); assert(u =~= u.drop_last().push(u.last())); }
pub proof fn lemma_minus(s: Seq<Term>, a: A) ensures minus(vals(s, a)) == (if s.len() == 0 { 0 } else { iv(s[0], a) - isum(s.skip(1), a) }),
{ reveal(minus); if s.len() > 0 { lemma_isum_remove(s, 0, a); assert(s.remove(0) =~= s.skip(1)); } }
pub proof fn lemma_prod_comm(x: Term, y: Term, a: A) ensures prod(vals(Seq::empty().push(x).push(y), a)) == prod(vals(Seq::empty().push(y).push(x), a)) { lemma_prod_2(x, y, a); lemma_prod_2(y, x, a); assert(iv(x, a) * iv(y, a) == iv(y, a) * iv(x, a)) by (nonlinear_arith); }
pub fn vx_swap01(v: &mut Vec<Term>) requires old(v)@.len() == 2, ensures final(v)@ == Seq::<Term>::empty().push(old(v)@[1]).push(old(v)@[0]) { let t = v.remove(0); v.push(t); proof { assert(v@ =~= Seq::<Term>::empty().push(old(v)@[1]).push(old(v)@[0])); } }
/// negations have the opposite value
pub open spec fn negs(s: Seq<Term>, t: Seq<Term>) -> bool { s.len() == t.len() && forall|i: int, a: A| 0 <= i < s.len() ==> #[trigger] iv(s[i], a) == -iv(t[i], a) }
// ---- occurrences of variables
pub type E = (IVar, (Numeral, Numeral));
pub open spec fn w(e: E, a: A) -> int { ((e.1).0@ - (e.1).1@) * (a.v)(e.0).i() }
pub open spec fn wsum(l: Seq<E>, a: A) -> int decreases l.len() { if l.len() == 0 { 0 } else { wsum(l.drop_last(), a) + w(l.last(), a) } }
pub open spec fn distinct_keys(l: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
/// the entries of a map, each once
pub open spec fn lists(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>) -> bool {
    &&& distinct_keys(l)
    &&& forall|i: int| 0 <= i < l.len() ==> m.dom().contains((#[trigger] l[i]).0) && m[l[i].0] == l[i].1
    &&& forall|v: IVar| #[trigger] m.dom().contains(v) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v
}
pub proof fn lemma_wsum_remove(l: Seq<E>, j: int, a: A) requires 0 <= j < l.len(), ensures wsum(l, a) == wsum(l.remove(j), a) + w(l[j], a), decreases l.len(),
{ if j == l.len() - 1 { assert(l.remove(j) =~= l.drop_last()); } else { lemma_wsum_remove(l.drop_last(), j, a); assert(l.remove(j).drop_last() =~= l.drop_last().remove(j)); assert(l.remove(j).last() == l.last()); } }
pub proof fn lemma_wsum_same(l: Seq<E>, k: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, a: A)
    requires lists(l, m), lists(k, m), ensures wsum(l, a) == wsum(k, a), decreases l.len(),
{
    if l.len() == 0 { if k.len() > 0 { assert(m.dom().contains(k[0].0)); } }
    else {
        let e = l.last();
        assert(m.dom().contains(e.0)) by { assert(l[l.len() - 1] == e); }
        let j = choose|j: int| 0 <= j < k.len() && (#[trigger] k[j]).0 == e.0;
        assert(k[j] == e);
        lemma_wsum_remove(k, j, a);
        let m2 = m.remove(e.0); let (l2, k2) = (l.drop_last(), k.remove(j));
        assert(lists(l2, m2)) by {
            assert forall|i: int| 0 <= i < l2.len() implies m2.dom().contains((#[trigger] l2[i]).0) && m2[l2[i].0] == l2[i].1 by { assert(l[i].0 != l[l.len() - 1].0); }
            assert forall|v: IVar| #[trigger] m2.dom().contains(v) implies exists|i: int| 0 <= i < l2.len() && (#[trigger] l2[i]).0 == v by { assert(m.dom().contains(v)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v; assert(l2[i].0 == v); }
        }
        assert(lists(k2, m2)) by {
            assert forall|i: int| 0 <= i < k2.len() implies m2.dom().contains((#[trigger] k2[i]).0) && m2[k2[i].0] == k2[i].1 by { let i0 = if i < j { i } else { i + 1 }; assert(k2[i] == k[i0]); assert(k[i0].0 != k[j].0); }
            assert forall|x: int, y: int| 0 <= x < y < k2.len() implies (#[trigger] k2[x]).0 != (#[trigger] k2[y]).0 by { let x0 = if x < j { x } else { x + 1 }; let y0 = if y < j { y } else { y + 1 }; assert(k2[x] == k[x0] && k2[y] == k[y0]); }
            assert forall|v: IVar| #[trigger] m2.dom().contains(v) implies exists|i: int| 0 <= i < k2.len() && (#[trigger] k2[i]).0 == v by { assert(m.dom().contains(v)); let i = choose|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == v; assert(i != j); let i2 = if i < j { i } else { i - 1 }; assert(k2[i2] == k[i]); }
        }
        lemma_wsum_same(l2, k2, m2, a);
    }
}
/// the entry of a variable gets another pair
pub open spec fn upd(l: Seq<E>, v: IVar, p: (Numeral, Numeral)) -> Seq<E> {
    if exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v; l.remove(i).push((v, p)) } else { l.push((v, p)) }
}
pub proof fn lemma_upd(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, v: IVar, p: (Numeral, Numeral))
    requires lists(l, m),
    ensures lists(upd(l, v, p), m.insert(v, p)), forall|a: A| #[trigger] wsum(upd(l, v, p), a) == wsum(l, a) + w((v, p), a) - (if m.dom().contains(v) { w((v, m[v]), a) } else { 0 }),
{
    let u = upd(l, v, p); let m2 = m.insert(v, p);
    if exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v {
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == v;
        assert(l[i] == (v, m[v]));
        assert forall|a: A| #[trigger] wsum(u, a) == wsum(l, a) + w((v, p), a) - (if m.dom().contains(v) { w((v, m[v]), a) } else { 0 }) by { lemma_wsum_remove(l, i, a); assert(u.drop_last() =~= l.remove(i)); }
        assert forall|x: int, y: int| 0 <= x < y < u.len() implies (#[trigger] u[x]).0 != (#[trigger] u[y]).0 by { let x0 = if x < i { x } else { x + 1 }; let y0 = if y < i { y } else { y + 1 }; if y < u.len() - 1 { assert(u[x] == l[x0] && u[y] == l[y0]); } else { assert(u[x] == l[x0]); assert(l[x0].0 != l[i].0); } }
        assert forall|x: int| 0 <= x < u.len() implies m2.dom().contains((#[trigger] u[x]).0) && m2[u[x].0] == u[x].1 by { let x0 = if x < i { x } else { x + 1 }; if x < u.len() - 1 { assert(u[x] == l[x0]); assert(l[x0].0 != l[i].0); } }
        assert forall|y: IVar| #[trigger] m2.dom().contains(y) implies exists|x: int| 0 <= x < u.len() && (#[trigger] u[x]).0 == y by { if y == v { assert(u[u.len() - 1].0 == y); } else { assert(m.dom().contains(y)); let x = choose|x: int| 0 <= x < l.len() && (#[trigger] l[x]).0 == y; assert(x != i); let x2 = if x < i { x } else { x - 1 }; assert(u[x2] == l[x]); } }
    } else {
        assert(!m.dom().contains(v));
        assert(u.drop_last() =~= l);
        assert forall|y: IVar| #[trigger] m2.dom().contains(y) implies exists|x: int| 0 <= x < u.len() && (#[trigger] u[x]).0 == y by { if y == v { assert(u[u.len() - 1].0 == y); } else { assert(m.dom().contains(y)); let x = choose|x: int| 0 <= x < l.len() && (#[trigger] l[x]).0 == y; assert(u[x] == l[x]); } }
    }
}
pub proof fn lemma_one(d: int, x: int) ensures d == 1 ==> d * x == x, d == -1 ==> d * x == -x { }
pub proof fn lemma_w2(e: E, a: A)
    ensures ({ let (p, n, x) = ((e.1).0@, (e.1).1@, (a.v)(e.0).i()); &&& w(e, a) == -((n - p) * x) &&& (p == n ==> w(e, a) == 0) &&& w(e, a) == -(n - p) * x &&& (n - p == 1 ==> w(e, a) == -x) &&& (p - n == 1 ==> w(e, a) == x) }),
{ let (p, n, x) = ((e.1).0@, (e.1).1@, (a.v)(e.0).i()); assert((p - n) * x == -((n - p) * x)) by (nonlinear_arith); assert((p - n) * x == -(n - p) * x) by (nonlinear_arith); }
/// what was gathered so far: the entries of the map and the other summands have the sum of what was read
#[verifier::opaque]
pub open spec fn inv1(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, res: Seq<Term>, done: Seq<Term>) -> bool { lists(l, m) && forall|a: A| wsum(l, a) + #[trigger] isum(res, a) == isum(done, a) }
pub proof fn lemma_inv1_0(m: Map<IVar, (Numeral, Numeral)>) requires m == Map::<IVar, (Numeral, Numeral)>::empty(), ensures inv1(Seq::empty(), m, Seq::empty(), Seq::empty()), { reveal(inv1); }
/// occurrences of v are added
pub proof fn lemma_half(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, res: Seq<Term>, done: Seq<Term>, t: Term, v: IVar, p: (Numeral, Numeral), k: int)
    requires inv1(l, m, res, done), forall|a: A| #[trigger] iv(t, a) == k * (a.v)(v).i(),
        p.0@ - p.1@ == k + (if m.dom().contains(v) { m[v].0@ - m[v].1@ } else { 0 }),
    ensures inv1(upd(l, v, p), m.insert(v, p), res, done.push(t)),
{
    reveal(inv1); lemma_upd(l, m, v, p);
    let d0 = if m.dom().contains(v) { m[v].0@ - m[v].1@ } else { 0 };
    assert forall|a: A| wsum(upd(l, v, p), a) + #[trigger] isum(res, a) == isum(done.push(t), a) by {
        let x = (a.v)(v).i(); assert((p.0@ - p.1@) * x == d0 * x + k * x) by (nonlinear_arith) requires p.0@ - p.1@ == k + d0;
        assert(0 * x == 0); assert(iv(t, a) == k * x); lemma_sum_push(done, t, a);
    }
}
pub proof fn lemma_other(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, r0: Seq<Term>, res: Seq<Term>, done: Seq<Term>, t: Term)
    requires inv1(l, m, r0, done), res.len() == r0.len() + 1, res.drop_last() == r0, forall|a: A| #[trigger] iv(res.last(), a) == iv(t, a),
    ensures inv1(l, m, res, done.push(t)),
{ reveal(inv1); assert forall|a: A| wsum(l, a) + #[trigger] isum(res, a) == isum(done.push(t), a) by { assert(res =~= r0.push(res.last())); lemma_sum_push(r0, res.last(), a); lemma_sum_push(done, t, a); assert(iv(res.last(), a) == iv(t, a)); } }
/// what was written out: the entries d have the sum of what was added to r0
#[verifier::opaque]
pub open spec fn inv2(res: Seq<Term>, r0: Seq<Term>, d: Seq<E>) -> bool { forall|a: A| #[trigger] isum(res, a) == isum(r0, a) + wsum(d, a) }
pub proof fn lemma_inv2_0(r: Seq<Term>) ensures inv2(r, r, Seq::empty()) { reveal(inv2); }
pub proof fn lemma_put(res: Seq<Term>, r0: Seq<Term>, d: Seq<E>, t: Term, e: E)
    requires inv2(res, r0, d), forall|a: A| #[trigger] iv(t, a) == w(e, a),
    ensures inv2(res.push(t), r0, d.push(e)),
{ reveal(inv2); assert(d.push(e).drop_last() =~= d); assert forall|a: A| #[trigger] isum(res.push(t), a) == isum(r0, a) + wsum(d.push(e), a) by { lemma_sum_push(res, t, a); assert(iv(t, a) == w(e, a)); } }
pub proof fn lemma_skip(res: Seq<Term>, r0: Seq<Term>, d: Seq<E>, e: E)
    requires inv2(res, r0, d), (e.1).0@ == (e.1).1@, ensures inv2(res, r0, d.push(e)),
{ reveal(inv2); assert(d.push(e).drop_last() =~= d); assert forall|a: A| #[trigger] isum(res, a) == isum(r0, a) + wsum(d.push(e), a) by { lemma_w2(e, a); } }
pub proof fn lemma_grouped(l: Seq<E>, m: Map<IVar, (Numeral, Numeral)>, r0: Seq<Term>, res: Seq<Term>, all: Seq<Term>, k: Seq<E>)
    requires inv1(l, m, r0, all), lists(k, m), inv2(res, r0, k), ensures forall|a: A| #[trigger] isum(res, a) == isum(all, a),
{ reveal(inv1); reveal(inv2); assert forall|a: A| #[trigger] isum(res, a) == isum(all, a) by { lemma_wsum_same(l, k, m, a); assert(wsum(l, a) + isum(r0, a) == isum(all, a)); } }
/// what was kept and the constants taken out have the sum of what was read (`part` of the current summand included)
#[verifier::opaque]
pub open spec fn inv3(out: Seq<Term>, c: int, n: int, done: Seq<Term>, part: Seq<Term>) -> bool { forall|a: A| #[trigger] isum(out, a) + c - n == isum(done, a) + isum(part, a) }
pub proof fn lemma_inv3_0(c: int, n: int) requires c == n, ensures inv3(Seq::empty(), c, n, Seq::empty(), Seq::empty()) { broadcast use lemma_sum_0; reveal(inv3); }
pub proof fn lemma_inv3_keep(out: Seq<Term>, c: int, n: int, done: Seq<Term>, part: Seq<Term>, t: Term) requires inv3(out, c, n, done, part), ensures inv3(out.push(t), c, n, done, part.push(t)),
{ reveal(inv3); assert forall|a: A| #[trigger] isum(out.push(t), a) + c - n == isum(done, a) + isum(part.push(t), a) by { lemma_sum_push(out, t, a); lemma_sum_push(part, t, a); } }
pub proof fn lemma_inv3_const(out: Seq<Term>, c0: int, n0: int, c: int, n: int, done: Seq<Term>, part: Seq<Term>, t: Term)
    requires inv3(out, c0, n0, done, part), forall|a: A| #[trigger] iv(t, a) == c - n - (c0 - n0), ensures inv3(out, c, n, done, part.push(t)),
{ reveal(inv3); assert forall|a: A| #[trigger] isum(out, a) + c - n == isum(done, a) + isum(part.push(t), a) by { lemma_sum_push(part, t, a); assert(iv(t, a) == c - n - (c0 - n0)); } }
pub proof fn lemma_inv3_next(out: Seq<Term>, c: int, n: int, done: Seq<Term>, part: Seq<Term>, t: Term)
    requires inv3(out, c, n, done, part), forall|a: A| #[trigger] isum(part, a) == iv(t, a), ensures inv3(out, c, n, done.push(t), Seq::empty()),
{ reveal(inv3); assert forall|a: A| #[trigger] isum(out, a) + c - n == isum(done.push(t), a) + isum(Seq::empty(), a) by { lemma_sum_push(done, t, a); lemma_sum_0(a); assert(isum(part, a) == iv(t, a)); } }
#[verifier::external_body] pub fn vx_vec_iter(v: &Vec<Term>) -> (r: It<Term>) ensures r@ == v@ { unimplemented!() }
/// assumed: a map ordered by hashes, by equality of the variables
#[verifier::external_body] pub struct GMap { x: () }
impl GMap {
    pub uninterp spec fn view(&self) -> Map<IVar, (Numeral, Numeral)>;
    #[verifier::external_body] pub fn new() -> (r: GMap) ensures r@ == Map::<IVar, (Numeral, Numeral)>::empty() { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body] pub fn vx_entry(&mut self, k: IVar) -> (r: &mut (Numeral, Numeral))
        ensures old(self)@.dom().contains(k) ==> *r == old(self)@[k], !old(self)@.dom().contains(k) ==> r.0@ == 0 && r.1@ == 0, final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_into_iter(self) -> (r: It<E>) ensures lists(r@, self@) { unimplemented!() }
}
'''
FOLD = r'''
impl vstd::std_specs::ops::NotSpecImpl for Term { open spec fn obeys_not_spec() -> bool { false } open spec fn not_req(self) -> bool { true } open spec fn not_spec(self) -> Term { self } }
impl core::ops::Not for Term { type Output = Term; fn not(self) -> (r: Term) ensures r == co(CoreOp::Not(self)) { co_exec(CoreOp::Not(self)) } }
impl vstd::std_specs::ops::BitAndSpecImpl for Term { open spec fn obeys_bitand_spec() -> bool { false } open spec fn bitand_req(self, o: Term) -> bool { true } open spec fn bitand_spec(self, o: Term) -> Term { self } }
impl core::ops::BitAnd for Term { type Output = Term; fn bitand(self, o: Term) -> (r: Term) ensures forall|a: A| #[trigger] val(r, a) == Val::B(val(self, a).b() && val(o, a).b()) { let v = vx_args2(self, o); proof { broadcast use {lemma_val_co, lemma_all2}; } co_exec(CoreOp::And(v)) } }
impl vstd::std_specs::ops::BitXorSpecImpl for Term { open spec fn obeys_bitxor_spec() -> bool { false } open spec fn bitxor_req(self, o: Term) -> bool { true } open spec fn bitxor_spec(self, o: Term) -> Term { self } }
impl core::ops::BitXor for Term { type Output = Term; fn bitxor(self, o: Term) -> (r: Term) ensures forall|a: A| #[trigger] val(r, a) == Val::B(val(self, a).b() != val(o, a).b()) { let v = vx_args2(self, o); proof { broadcast use {lemma_val_co, lemma_all2}; } co_exec(CoreOp::Xor(v)) } }
pub open spec fn pair_facts(s: Seq<Val>, p: Val, q: Val) -> bool {
    &&& all_b(s) == (p.b() && q.b()) &&& xors(s) == (p.b() != q.b()) &&& imps(s) == (p.b() ==> q.b()) &&& all_eq(s) == same(p, q) &&& all_ne(s) == !same(p, q) &&& chain(0, s) == rel(0, p.i(), q.i())
}
/// two arguments of a relation
pub fn vx_pair(x: Term, y: Term) -> (r: Vec<Term>) ensures r@ == Seq::<Term>::empty().push(x).push(y), forall|a: A| pair_facts(#[trigger] vals(r@, a), val(x, a), val(y, a)) { let r = vx_args2(x, y); proof { broadcast use lemma_all2; } r }
pub broadcast proof fn lemma_all2(x: Term, y: Term, a: A)
    ensures ({ let s = #[trigger] vals(Seq::empty().push(x).push(y), a); let (p, q) = (val(x, a), val(y, a));
        &&& all_b(s) == (p.b() && q.b()) &&& xors(s) == (p.b() != q.b()) &&& imps(s) == (p.b() ==> q.b()) &&& all_eq(s) == same(p, q) &&& all_ne(s) == !same(p, q)
        &&& forall|k: int| #[trigger] chain(k, s) == rel(k, p.i(), q.i()) })
{
    let s = vals(Seq::empty().push(x).push(y), a); let (p, q) = (val(x, a), val(y, a));
    reveal(all_b); reveal_with_fuel(xors, 4); reveal_with_fuel(imps, 4); reveal(all_eq); reveal(all_ne); reveal(chain);
    assert(s[0] == p && s[1] == q && s.len() == 2);
    assert(s.drop_last() =~= seq![p]); assert(seq![p].drop_last() =~= Seq::empty()); assert(s.skip(1) =~= seq![q]); assert(xors(seq![p]) == p.b());
    assert forall|k: int| #[trigger] chain(k, s) == rel(k, p.i(), q.i()) by {}
}
/// what `chained` and `pairwise` of aws-smt-ir build: the function on every adjacent (every) pair, in a conjunction
pub open spec fn chain_of<F: Fn(Term, Term) -> Term>(f: F, s: Seq<Term>, q: Seq<Term>) -> bool { q.len() == (if s.len() == 0 { 0 } else { s.len() - 1 }) && forall|i: int| 0 <= i < q.len() ==> f.ensures((s[i], s[i + 1]), #[trigger] q[i]) }
pub open spec fn is_and(t: Term, q: Seq<Term>) -> bool { if let Term::CoreOp(o) = t { if let CoreOp::And(v) = *o.0 { v@ == q } else { false } } else { false } }
#[verifier::external_body] pub fn chained<F: Fn(Term, Term) -> Term>(args: Vec<Term>, f: F) -> (r: Term)
    requires forall|x: Term, y: Term| f.requires((x, y)), ensures exists|q: Seq<Term>| #[trigger] chain_of(f, args@, q) && (if q.len() == 1 { r == q[0] } else { is_and(r, q) }) { unimplemented!() }
#[verifier::opaque]
pub open spec fn from_pair<F: Fn(Term, Term) -> Term>(f: F, s: Seq<Term>, t: Term) -> bool { exists|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && f.ensures((s[i], s[j]), t) }
#[verifier::opaque]
pub open spec fn has_pair<F: Fn(Term, Term) -> Term>(f: F, x: Term, y: Term, q: Seq<Term>) -> bool { exists|k: int| 0 <= k < q.len() && f.ensures((x, y), #[trigger] q[k]) }
pub open spec fn pairs_of<F: Fn(Term, Term) -> Term>(f: F, s: Seq<Term>, q: Seq<Term>) -> bool {
    &&& forall|k: int| 0 <= k < q.len() ==> from_pair(f, s, #[trigger] q[k])
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> has_pair(f, s[i], s[j], q)
}
#[verifier::external_body] pub fn pairwise<F: Fn(Term, Term) -> Term>(args: &Vec<Term>, f: F) -> (r: Term)
    requires forall|x: Term, y: Term| f.requires((x, y)), ensures exists|q: Seq<Term>| #[trigger] pairs_of(f, args@, q) && is_and(r, q) { unimplemented!() }
/// q says that l and r are related
pub open spec fn rel_term(k: int, l: Term, r: Term, q: Term) -> bool { forall|a: A| #[trigger] val(q, a) == Val::B(rel(k, iv(l, a), iv(r, a))) }
pub fn vx_chained<F: Fn(Term, Term) -> Term>(Ghost(k): Ghost<int>, args: Vec<Term>, f: F) -> (r: Term)
    requires forall|x: Term, y: Term| f.requires((x, y)), forall|x: Term, y: Term, q: Term| f.ensures((x, y), q) ==> rel_term(k, x, y, q),
    ensures forall|a: A| #[trigger] val(r, a) == Val::B(chain(k, vals(args@, a)))
{
    broadcast use {lemma_val_co, lemma_cop}; 
    let ghost s = args@;
    let r = chained(args, f);
    proof {
        let q = choose|q: Seq<Term>| #[trigger] chain_of(f, s, q) && (if q.len() == 1 { r == q[0] } else { is_and(r, q) });
        assert forall|a: A| #[trigger] val(r, a) == Val::B(chain(k, vals(s, a))) by {
            reveal(chain); reveal(all_b);
            assert forall|i: int| 0 <= i < q.len() implies val(#[trigger] q[i], a) == Val::B(rel(k, vals(s, a)[i].i(), vals(s, a)[i + 1].i())) by { assert(rel_term(k, s[i], s[i + 1], q[i])); }
            if q.len() != 1 { if all_b(vals(q, a)) { assert forall|i: int| 0 <= i < s.len() - 1 implies rel(k, (#[trigger] vals(s, a)[i]).i(), vals(s, a)[i + 1].i()) by { assert(vals(q, a)[i].b()); assert(val(q[i], a).b()); } } else { let i = choose|i: int| 0 <= i < q.len() && !vals(q, a)[i].b(); assert(!val(q[i], a).b()); assert(!rel(k, vals(s, a)[i].i(), vals(s, a)[i + 1].i())); } }
            else { assert(val(q[0], a) == val(r, a)); if val(r, a).b() { assert forall|i: int| 0 <= i < s.len() - 1 implies rel(k, (#[trigger] vals(s, a)[i]).i(), vals(s, a)[i + 1].i()) by { assert(i == 0); } } else { assert(!rel(k, vals(s, a)[0].i(), vals(s, a)[1].i())); } }
        }
    }
    r
}
pub fn vx_pairwise<F: Fn(Term, Term) -> Term>(Ghost(k): Ghost<int>, args: &Vec<Term>, f: F) -> (r: Term)
    requires forall|x: Term, y: Term| f.requires((x, y)), forall|x: Term, y: Term, q: Term| f.ensures((x, y), q) ==> rel_term(k, x, y, q),
    ensures forall|a: A| #[trigger] val(r, a) == Val::B(forall|i: int, j: int| 0 <= i < j < args@.len() ==> rel(k, iv(#[trigger] args@[i], a), iv(#[trigger] args@[j], a)))
{
    broadcast use {lemma_val_co, lemma_cop}; 
    let ghost s = args@;
    let r = pairwise(args, f);
    proof {
        let q = choose|q: Seq<Term>| #[trigger] pairs_of(f, s, q) && is_and(r, q);
        assert forall|a: A| #[trigger] val(r, a) == Val::B(forall|i: int, j: int| 0 <= i < j < s.len() ==> rel(k, iv(#[trigger] s[i], a), iv(#[trigger] s[j], a))) by {
            reveal(all_b);
            if all_b(vals(q, a)) {
                assert forall|i: int, j: int| 0 <= i < j < s.len() implies rel(k, iv(#[trigger] s[i], a), iv(#[trigger] s[j], a)) by { assert(has_pair(f, s[i], s[j], q)) by { let _ = (s[i], s[j]); } reveal(has_pair); let n = choose|n: int| 0 <= n < q.len() && f.ensures((s[i], s[j]), #[trigger] q[n]); assert(rel_term(k, s[i], s[j], q[n])); assert(vals(q, a)[n].b()); assert(val(q[n], a).b()); }
            } else {
                let n = choose|n: int| 0 <= n < q.len() && !vals(q, a)[n].b(); assert(!val(q[n], a).b());
                assert(from_pair(f, s, q[n])); reveal(from_pair); let (i, j) = choose|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && f.ensures((s[i], s[j]), q[n]); assert(rel_term(k, s[i], s[j], q[n])); assert(!rel(k, iv(s[i], a), iv(s[j], a)));
            }
        }
    }
    r
}
/// `reduce`: the first element, combined with each of the others in turn
pub open spec fn steps<F: Fn(Term, Term) -> Term>(f: F, s: Seq<Term>, acc: Seq<Term>) -> bool { acc.len() == s.len() && (s.len() > 0 ==> acc[0] == s[0]) && forall|i: int| 0 <= i < s.len() - 1 ==> f.ensures((#[trigger] acc[i], s[i + 1]), acc[i + 1]) }
impl It<Term> { #[verifier::external_body] pub fn reduce<F: Fn(Term, Term) -> Term>(self, f: F) -> (r: Option<Term>)
    requires forall|x: Term, y: Term| f.requires((x, y)), ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> exists|acc: Seq<Term>| #[trigger] steps(f, self@, acc) && r == Some(acc.last()) { unimplemented!() } }
pub open spec fn xor_term(l: Term, r: Term, q: Term) -> bool { forall|a: A| #[trigger] val(q, a) == Val::B(val(l, a).b() != val(r, a).b()) }
pub fn vx_reduce_xor<F: Fn(Term, Term) -> Term>(args: It<Term>, f: F) -> (r: Option<Term>)
    requires forall|x: Term, y: Term| f.requires((x, y)), forall|x: Term, y: Term, q: Term| f.ensures((x, y), q) ==> xor_term(x, y, q),
    ensures args@.len() >= 2 ==> r is Some && forall|a: A| #[trigger] val(r->Some_0, a) == Val::B(xors(vals(args@, a)))
{
    let ghost s = args@;
    let r = args.reduce(f);
    proof { if s.len() >= 2 {
        let acc = choose|acc: Seq<Term>| #[trigger] steps(f, s, acc) && r == Some(acc.last());
        assert forall|a: A| #[trigger] val(r->Some_0, a) == Val::B(xors(vals(s, a))) by { lemma_steps(f, s, acc, s.len() as int, a); assert(s.take(s.len() as int) =~= s); }
    } }
    r
}
pub proof fn lemma_steps<F: Fn(Term, Term) -> Term>(f: F, s: Seq<Term>, acc: Seq<Term>, n: int, a: A)
    requires steps(f, s, acc), 1 <= n <= s.len(), forall|x: Term, y: Term, q: Term| f.ensures((x, y), q) ==> xor_term(x, y, q),
    ensures val(acc[n - 1], a).b() == xors(vals(s.take(n), a)), n >= 2 ==> val(acc[n - 1], a) == Val::B(xors(vals(s.take(n), a))), decreases n,
{
    reveal_with_fuel(xors, 2);
    let v = vals(s.take(n), a);
    assert(v.last() == val(s[n - 1], a));
    if n == 1 { assert(v.drop_last() =~= Seq::empty()); }
    else { lemma_steps(f, s, acc, n - 1, a); assert(v.drop_last() =~= vals(s.take(n - 1), a)); assert(f.ensures((acc[n - 2], s[n - 2 + 1]), acc[n - 2 + 1])); assert(xor_term(acc[n - 2], s[n - 1], acc[n - 1])); }
}
// ---- sorts and the context
#[derive(Clone, Copy)] pub enum ISort { Int, Bool, Other(u64) }
impl ISort { pub fn int() -> (r: ISort) ensures r == ISort::Int { ISort::Int } }
impl Copyable for ISort { fn clone(&self) -> (r: ISort) { *self } }
pub fn vx_is_int(s: ISort) -> (b: bool) ensures b == (s is Int) { if let ISort::Int = s { true } else { false } }
pub open spec fn of_sort(v: Val, s: ISort) -> bool { match s { ISort::Int => v is I, ISort::Bool => v is B, ISort::Other(x) => v is X } }
#[verifier::external_body] pub struct Ctx { x: () }
impl Ctx {
    /// the sorts of the declared constants
    pub uninterp spec fn decl(&self) -> Map<IVar, ISort>;
    /// assumed: a constant that is not declared yet
    #[verifier::external_body] pub fn fresh_var(&mut self, s: ISort) -> (r: Result<IVar, Error>)
        ensures match r { Ok(v) => !old(self).decl().dom().contains(v) && final(self).decl() == old(self).decl().insert(v, s), Err(_) => final(self).decl() == old(self).decl() } { unimplemented!() }
}
pub open spec fn typed(a: A, c: Map<IVar, ISort>) -> bool { forall|v: IVar| #[trigger] c.dom().contains(v) ==> of_sort((a.v)(v), c[v]) }
/// assumed: sorts of terms
pub uninterp spec fn sort_of(t: Term, c: Map<IVar, ISort>) -> Option<ISort>;
impl Term { #[verifier::external_body] pub fn sort(&self, c: &Ctx) -> (r: Result<ISort, Error>) ensures r is Ok == sort_of(*self, c.decl()) is Some, r is Ok ==> sort_of(*self, c.decl()) == Some(r->Ok_0) && forall|a: A| typed(a, c.decl()) ==> of_sort(#[trigger] val(*self, a), r->Ok_0) { unimplemented!() } }
/// the sort of the first argument, if there is one
pub fn vx_first_int(args: &Vec<Term>, c: &Ctx) -> (r: bool) ensures r ==> args@.len() > 0 && sort_of(args@[0], c.decl()) == Some(ISort::Int) && forall|a: A| typed(a, c.decl()) ==> #[trigger] val(args@[0], a) is I
{ if args.len() == 0 { return false; } match args[0].sort(c) { Ok(s) => { let b = vx_is_int(s); proof { if b { assert forall|a: A| typed(a, c.decl()) implies #[trigger] val(args@[0], a) is I by { assert(of_sort(val(args@[0], a), s)); } } } b } Err(_) => false } }
/// assumed: the script is well sorted
pub open spec fn like(x: Val, y: Val) -> bool { (x is I) == (y is I) && (x is B) == (y is B) }
pub open spec fn well_sorted(o: CoreOp, c: Map<IVar, ISort>) -> bool {
    match o {
        CoreOp::Eq(s) => forall|a: A, i: int| typed(a, c) && 0 <= i < s@.len() ==> like(#[trigger] val(s@[i], a), val(s@[0], a)),
        CoreOp::Distinct(s) => forall|a: A, i: int| typed(a, c) && 0 <= i < s@.len() ==> like(#[trigger] val(s@[i], a), val(s@[0], a)),
        // other sorts than integers and Booleans are not supported
        CoreOp::Ite(p, x, y) => forall|a: A| typed(a, c) ==> like(#[trigger] val(x, a), val(y, a)) && (val(x, a) is I || val(x, a) is B),
        _ => true,
    }
}
pub open spec fn holds(s: Seq<Term>, a: A) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] val(s[i], a)).b() }
pub proof fn lemma_holds_push(s: Seq<Term>, t: Term, a: A) ensures holds(s.push(t), a) == (holds(s, a) && val(t, a).b()),
{ if holds(s.push(t), a) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] val(s[i], a)).b() by { assert(s.push(t)[i] == s[i]); } assert(s.push(t)[s.len() as int] == t); }
  if holds(s, a) && val(t, a).b() { assert forall|i: int| 0 <= i < s.push(t).len() implies (#[trigger] val(s.push(t)[i], a)).b() by { if i < s.len() { assert(s.push(t)[i] == s[i]); } } } }
/// every new variable has the value of the term it was made for
pub open spec fn defined(d: Seq<(IVar, Term)>, a: A) -> bool { forall|i: int| 0 <= i < d.len() ==> (a.v)((#[trigger] d[i]).0) == val(d[i].1, a) }
'''

SELF = r'''
/// the operators the normaliser distinguishes
pub open spec fn kind(o: Op) -> int { match o { Op::Arith(ArithOp::Plus(_)) => 0, Op::Arith(ArithOp::Neg(_)) => 1, Op::Arith(ArithOp::Minus(_)) => 2, Op::Arith(ArithOp::Mul(_)) => 3, Op::Arith(ArithOp::Gte(_)) => 4, Op::Arith(ArithOp::Gt(_)) => 5, Op::Arith(ArithOp::Lte(_)) => 6, Op::Arith(ArithOp::Lt(_)) => 7, _ => 8 } }
/// the operator after folding the arguments: some function of the state and the operator (used for the case split)
pub open spec fn ckind(o: CoreOp) -> int { match o { CoreOp::Eq(_) => 0, CoreOp::Ite(_, _, _) => 1, CoreOp::Distinct(_) => 2, CoreOp::Xor(_) => 3, _ => 4 } }
pub uninterp spec fn vx_ckind(c: Canonicalizer, op: ICoreOp) -> int;
pub uninterp spec fn vx_kind(c: Canonicalizer, op: IOp) -> int;
impl Canonicalizer {
    pub open spec fn c(&self) -> Map<IVar, ISort> { self.context.decl() }
    /// the new assertions only say what the new variables are
    pub open spec fn inv(&self) -> bool { forall|a: A| #[trigger] typed(a, self.c()) && defined(self.defs@, a) ==> holds(self.new_asserts@, a) }
    /// an assignment to consider after normalisation
    pub open spec fn ok(&self, a: A) -> bool { typed(a, self.c()) && holds(self.new_asserts@, a) }
    /// later: only fresh variables were declared, one for each new definition; what holds now held before
    pub open spec fn after(&self, o: &Canonicalizer) -> bool {
        &&& o.new_asserts@.len() <= self.new_asserts@.len() && self.new_asserts@.take(o.new_asserts@.len() as int) == o.new_asserts@
        &&& o.defs@.len() <= self.defs@.len() && self.defs@.take(o.defs@.len() as int) == o.defs@
        &&& forall|v: IVar| #[trigger] o.c().dom().contains(v) ==> self.c().dom().contains(v) && self.c()[v] == o.c()[v]
        &&& forall|i: int| o.defs@.len() <= i < self.defs@.len() ==> !o.c().dom().contains((#[trigger] self.defs@[i]).0) && self.c().dom().contains(self.defs@[i].0)
    }
    pub fn vx_end(&mut self) ensures *final(self) == *old(self) {}
    pub fn vx_define(&mut self, d: Ghost<(IVar, Term)>) ensures final(self).context == old(self).context, final(self).new_asserts == old(self).new_asserts, final(self).defs@ == old(self).defs@.push(d@) { self.defs = Ghost(self.defs@.push(d@)); }
    /// assumed (aws-smt-ir, by induction over terms): folding the arguments of an operator keeps its value
    #[verifier::external_body] pub fn vx_fold_core(&mut self, op: ICoreOp) -> (r: Result<CoreOp, Error>)
        requires old(self).inv(),
        ensures r is Ok ==> ckind(r->Ok_0) == vx_ckind(*old(self), op) && final(self).inv() && final(self).after(old(self)) && well_sorted(r->Ok_0, final(self).c()) && forall|a: A| final(self).ok(a) ==> val(co(r->Ok_0), a) == #[trigger] val(Term::CoreOp(op), a) { unimplemented!() }
    #[verifier::external_body] pub fn vx_fold_op(&mut self, op: IOp) -> (r: Result<Op, Error>)
        requires old(self).inv(),
        ensures r is Ok ==> kind(r->Ok_0) == vx_kind(*old(self), op) && final(self).inv() && final(self).after(old(self)) && (r->Ok_0 matches Op::Arith(ArithOp::Neg(x)) ==> forall|a: A| typed(a, final(self).c()) ==> #[trigger] val(x, a) is I) && forall|a: A| final(self).ok(a) ==> val(Term::OtherOp(IOp(Box::new(r->Ok_0))), a) == #[trigger] val(Term::OtherOp(op), a) { unimplemented!() }
}
/// the same value
#[verifier::opaque]
pub open spec fn keeps(c: &Canonicalizer, x: Term, y: Term) -> bool { forall|a: A| c.ok(a) ==> #[trigger] val(x, a) == val(y, a) }
pub proof fn lemma_refl(x: &Canonicalizer) ensures x.after(x), { assert(x.new_asserts@.take(x.new_asserts@.len() as int) =~= x.new_asserts@); assert(x.defs@.take(x.defs@.len() as int) =~= x.defs@); }
pub proof fn lemma_trans(x: &Canonicalizer, y: &Canonicalizer, z: &Canonicalizer) requires y.after(x), z.after(y), ensures z.after(x),
{
    assert(z.new_asserts@.take(x.new_asserts@.len() as int) =~= y.new_asserts@.take(x.new_asserts@.len() as int)) by { assert forall|i: int| 0 <= i < x.new_asserts@.len() implies z.new_asserts@[i] == y.new_asserts@[i] by { assert(z.new_asserts@.take(y.new_asserts@.len() as int)[i] == y.new_asserts@[i]); } }
    assert(z.defs@.take(x.defs@.len() as int) =~= y.defs@.take(x.defs@.len() as int)) by { assert forall|i: int| 0 <= i < x.defs@.len() implies z.defs@[i] == y.defs@[i] by { assert(z.defs@.take(y.defs@.len() as int)[i] == y.defs@[i]); } }
    assert forall|i: int| x.defs@.len() <= i < z.defs@.len() implies !x.c().dom().contains((#[trigger] z.defs@[i]).0) && z.c().dom().contains(z.defs@[i].0) by {
        if i < y.defs@.len() { assert(z.defs@.take(y.defs@.len() as int)[i] == y.defs@[i]); assert(y.c().dom().contains(y.defs@[i].0)); } else { }
    }
}
pub proof fn lemma_eq_chain(s: Seq<Term>, a: A) requires s.len() > 0 ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] val(s[i], a) is I, ensures chain(4, vals(s, a)) == all_eq(vals(s, a)),
{ reveal(chain); reveal(all_eq); let v = vals(s, a); assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] is I by { assert(val(s[i], a) is I); } 
  if chain(4, v) { assert forall|i: int| 0 <= i < v.len() - 1 implies same(#[trigger] v[i], v[i + 1]) by { assert(rel(4, v[i].i(), v[i + 1].i())); } }
  if all_eq(v) { assert forall|i: int| 0 <= i < v.len() - 1 implies rel(4, (#[trigger] v[i]).i(), v[i + 1].i()) by { assert(same(v[i], v[i + 1])); } } }
pub proof fn lemma_ne_pairs(s: Seq<Term>, a: A) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] val(s[i], a) is I, ensures all_ne(vals(s, a)) == (forall|i: int, j: int| 0 <= i < j < s.len() ==> rel(5, iv(#[trigger] s[i], a), iv(#[trigger] s[j], a))),
{ reveal(all_ne); let v = vals(s, a); assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] is I && v[i] == val(s[i], a) by { assert(val(s[i], a) is I); }
  if all_ne(v) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies rel(5, iv(#[trigger] s[i], a), iv(#[trigger] s[j], a)) by { assert(!same(v[i], v[j])); } }
  if forall|i: int, j: int| 0 <= i < j < s.len() ==> rel(5, iv(#[trigger] s[i], a), iv(#[trigger] s[j], a)) { assert forall|i: int, j: int| 0 <= i < j < v.len() implies !same(#[trigger] v[i], #[trigger] v[j]) by { assert(rel(5, iv(s[i], a), iv(s[j], a))); } } }
/// the two assertions for the new variable of an integer `ite`
pub proof fn lemma_ite(x: &Canonicalizer, y: &Canonicalizer, v: IVar, o: CoreOp, t1: Term, t2: Term)
    requires x.inv(), o matches CoreOp::Ite(cond, consq, alt), !x.c().dom().contains(v), y.c() == x.c().insert(v, ISort::Int), y.new_asserts@ == x.new_asserts@.push(t1).push(t2), y.defs@ == x.defs@.push((v, co(o))),
        forall|a: A| typed(a, x.c()) ==> #[trigger] val(o->Ite_1, a) is I && val(o->Ite_2, a) is I,
        forall|a: A| (#[trigger] val(t1, a)).b() && val(t2, a).b() <==> (if val(o->Ite_0, a).b() { (a.v)(v).i() == iv(o->Ite_1, a) } else { (a.v)(v).i() == iv(o->Ite_2, a) }),
    ensures y.inv(), y.after(x), forall|a: A| y.ok(a) ==> x.ok(a) && (a.v)(v) == #[trigger] val(co(o), a),
{
    broadcast use lemma_val_co;
    assert(y.new_asserts@.take(x.new_asserts@.len() as int) =~= x.new_asserts@); assert(y.defs@.take(x.defs@.len() as int) =~= x.defs@);
    assert forall|a: A| #[trigger] typed(a, y.c()) implies typed(a, x.c()) && (a.v)(v) is I by { assert forall|u: IVar| #[trigger] x.c().dom().contains(u) implies of_sort((a.v)(u), x.c()[u]) by { assert(y.c().dom().contains(u)); } assert(y.c().dom().contains(v)); }
    assert forall|a: A| #[trigger] typed(a, y.c()) && defined(y.defs@, a) implies holds(y.new_asserts@, a) by {
        assert(defined(x.defs@, a)) by { assert forall|i: int| 0 <= i < x.defs@.len() implies (a.v)((#[trigger] x.defs@[i]).0) == val(x.defs@[i].1, a) by { assert(y.defs@[i] == x.defs@[i]); } }
        let d = y.defs@[x.defs@.len() as int]; assert(d == (v, co(o)));
        lemma_holds_push(x.new_asserts@, t1, a); lemma_holds_push(x.new_asserts@.push(t1), t2, a);
        assert(val(t1, a).b()); assert(val(t2, a).b());
    }
    assert forall|a: A| y.ok(a) implies x.ok(a) && (a.v)(v) == #[trigger] val(co(o), a) by {
        lemma_holds_push(x.new_asserts@, t1, a); lemma_holds_push(x.new_asserts@.push(t1), t2, a);
        assert(val(t1, a).b()); assert(val(t2, a).b()); assert(val(o->Ite_1, a) is I && val(o->Ite_2, a) is I);
    }
}
'''
def build(u):
    u.add('pub mod vx_m { use vstd::prelude::*;\n' + ITER.split('impl It<Bit>')[0] + '/// assumed: a map, by equality of keys' + ITER.split('/// assumed: a map, by equality of keys')[1]
        + u_stats.TYPES.replace('broadcast use vx_ax::axiom_n_of;', '') + u_stats.OPS + re.sub(r'seq!\[(.*?)\]', lambda m: 'Seq::<T>::empty()' + ''.join('.push(%s)' % x.strip() for x in m[1].split(',')), u_stats.TERMS) + TERMS + SPEC + FOLD + '}\npub use vx_m::*; use vx_m::ArithOp::*; use vx_m::Op::*; use vx_m::Ordering::*;\nbroadcast use {lemma_val_ar, lemma_val_co, lemma_op, lemma_cop, lemma_val_const, lemma_val_var, lemma_sum_push, lemma_sum_0, vx_ax::axiom_n_of};')
    u.fn(EA + 'lib.rs', 'int_term', ensures='ret is Some ==> forall|a: A| #[trigger] iv(*t, a) == (if ret->Some_0.1 { ret->Some_0.0@ as int } else { -ret->Some_0.0@ })')
    u.item(CA, 'struct', 'Canonicalizer', rules=[('type', "Canonicalizer < 'a >", 'Canonicalizer'), ('type', "context : & 'a mut Ctx", 'pub context: Ctx'), ('type', 'pub ( super ) new_asserts', 'pub new_asserts'), ('ghost', 'new_asserts : $t* , }', 'new_asserts : $t , «pub defs: Ghost<Seq<(IVar, Term)>>,» }')], prefix='pub ')
    u.add(SELF + 'impl Canonicalizer {')
    INTO = [('desugar', '[ $a , $b ] . into ( )', 'vx_args2($a, $b)', '*')]
    SL = [('desugar', 'match $a:id . as_slice ( )', 'match vx_sl($a)', '*'), ('desugar', '[ $x , $y ] =>', 'Sl::S2($x, $y) =>', '*')]
    u.fn(CA, 'Canonicalizer::negate', ret='r', ensures='forall|a: A| #![trigger val(r, a)] #![trigger iv(r, a)] iv(r, a) == -iv(t, a) && (val(t, a) is I ==> val(r, a) is I)', tail='decreases t', rules=SL + INTO + [
        ('desugar', 'Mul ( vx_args2 ( $x* ) ) . into ( )', '{ let vx_m: Term = Mul(vx_args2($x)).into(); «proof { lemma_mul_neg(vx_m, t); }» vx_m }', '*'),
        ('desugar', 'args . iter ( ) . cloned ( ) . map ( Self :: negate ) . collect ( )', '''{ let mut vx_o: Vec<Term> = Vec::new(); let mut vx_i: usize = 0;
«#[verifier::loop_isolation(false)]» while vx_i < args.len() «invariant vx_i <= args@.len(), vx_o@.len() == vx_i, negs(vx_o@, args@.take(vx_i as int)), decreases args@.len() - vx_i,» { vx_o.push(Self::negate(args[vx_i].clone())); vx_i = vx_i + 1; } 
«proof { assert(args@.take(vx_i as int) =~= args@); assert forall|a: A| isum(vx_o@, a) == -isum(args@, a) by { lemma_sum_neg(vx_o@, args@, a); } }» vx_o }'''),
        ])
    # an entry of the map is reached, one half of it is increased
    def half(p, i): return ('desugar', 'let ( %s ) = map . entry ( HashOrdered ( $k ) ) . or_default ( ) ; * $p += $e ;' % p, '''let vx_k = $k; let vx_x = $e; «let ghost (vx_m0, vx_n) = (map@, vx_x@ as int);»
let vx_e = map.vx_entry(vx_k); vx_e.%d.vx_add_to(vx_x);
«proof { vx_upd = true; vx_v = vx_k; vx_d = %svx_n; assert forall|vx_a: A| #[trigger] iv(vx_t, vx_a) == vx_d * (vx_a.v)(vx_v).i() by { if mul_args(vx_t) is Some && mul_args(vx_t)->Some_0.len() == 2 { lemma_mul(vx_t, vx_a); } lemma_one(vx_d, (vx_a.v)(vx_v).i()); } }»''' % (i, '-' if i else ''), '+')
    u.fn(CA, 'Canonicalizer::canonicalize_plus_inner/group_same_vars', ret='r', ensures='forall|a: A| #[trigger] isum(r@, a) == isum(terms.items(), a)', rules=SL + INTO + [
        ('type', 'fn group_same_vars ( terms : impl IntoIterator < Item = Term > )', 'fn group_same_vars<VxI: VxIter>(terms: VxI)'), ('type', 'SmallVec < [ Term ; 2 ] >', 'Vec<Term>'),
        ('desugar', 'let mut map : BTreeMap < HashOrdered < _ > , ( Numeral , Numeral ) > = BTreeMap :: new ( ) ;', 'let mut map = GMap::new();'),
        ('desugar', 'smallvec ! [ ]', 'Vec::<Term>::new()'),
        ('desugar', 'pos != neg', 'vx_num_ne(pos, neg)', '*'), ('desugar', 'neg != pos', 'vx_num_ne(pos, neg)', '*'), ('desugar', 'use std :: cmp :: Ordering :: * ;', '', '*'), ('desugar', 'unreachable ! ( $e* )', 'vx_panic()', '*'),
        half('$p:id , _', 0), half('_ , $p:id', 1),
        ('desugar', 'for t in terms { $b* }', '''«let ghost mut vx_done: Seq<Term> = Seq::empty(); let ghost mut vx_l: Seq<E> = Seq::empty(); let ghost vx_all = terms.items(); proof { lemma_inv1_0(map@); }»
let mut vx_it = terms.vx_into();
loop «invariant vx_all == vx_done + vx_it@, inv1(vx_l, map@, res@, vx_done), ensures vx_it@.len() == 0, decreases vx_it@.len(),»
{ match vx_it.next() { None => { break; } Some(t) => { «let ghost (vx_t, vx_m, vx_r) = (t, map@, res@); let ghost mut vx_upd = false; let ghost mut vx_v = arbitrary::<IVar>(); let ghost mut vx_d = 0int;» $b
«proof { if vx_upd { lemma_half(vx_l, vx_m, res@, vx_done, vx_t, vx_v, map@[vx_v], vx_d); vx_l = upd(vx_l, vx_v, map@[vx_v]); } else { assert(res@.drop_last() =~= vx_r); lemma_other(vx_l, vx_m, vx_r, res@, vx_done, vx_t); } vx_done = vx_done.push(vx_t); }» } } }'''),
        ('desugar', "res . extend ( map . into_iter ( ) . filter ( | ( _ , ( $p:id , $n:id ) ) | $c* ) . map ( | ( HashOrdered ( $v:id ) , ( $p2:id , $n2:id ) ) | $body* ) , ) ;", '''
«let ghost vx_m = map@; let ghost vx_r0 = res@; let ghost mut vx_d2: Seq<E> = Seq::empty(); proof { lemma_inv2_0(res@); }» let mut vx_it = map.vx_into_iter(); «let ghost vx_all2 = vx_it@;»
loop «invariant vx_all2 == vx_d2 + vx_it@, inv2(res@, vx_r0, vx_d2), ensures vx_it@.len() == 0, decreases vx_it@.len(),»
{ match vx_it.next() { None => { break; } Some(($v, ($p, $n))) => { «let ghost vx_e = ($v, ($p, $n));»
  let vx_keep = { let $p = &$p; let $n = &$n; $c }; if vx_keep { let ($p2, $n2) = ($p, $n); let vx_t = $body; «proof { assert forall|a: A| #[trigger] iv(vx_t, a) == w(vx_e, a) by { lemma_w2(vx_e, a); if mul_args(vx_t) is Some && mul_args(vx_t)->Some_0.len() == 2 { lemma_mul(vx_t, a); } } lemma_put(res@, vx_r0, vx_d2, vx_t, vx_e); }» res.push(vx_t); }
«else { proof { lemma_skip(res@, vx_r0, vx_d2, vx_e); } } proof { vx_d2 = vx_d2.push(vx_e); }» } } }
«proof { assert(vx_all2 =~= vx_d2); assert(vx_done =~= vx_all); lemma_grouped(vx_l, vx_m, vx_r0, res@, vx_all, vx_all2); }»'''),
        ])
    u.fn(CA, 'Canonicalizer::canonicalize_plus_inner', ret='r', ensures='forall|a: A| #[trigger] isum(r.0@, a) + r.1@ - r.2@ == isum(args.items(), a)', rules=SL + INTO + [
        ('type', 'fn canonicalize_plus_inner ( args : impl IntoIterator < Item = Term > , )', 'fn canonicalize_plus_inner<VxI: VxIter>(args: VxI)'), ('type', 'SmallVec < [ Term ; 2 ] >', 'Vec<Term>', '*'),
        ('desugar', 'fn group_same_vars ( $a* ) -> Vec < Term > { $b* }', ''),
        ('desugar', 'group_same_vars (', 'Self::group_same_vars(', '*'),
        ('desugar', 'Either :: Left ( $e:id . clone ( ) . into_iter ( ) )', 'vx_vec_iter($e)', '*'), ('desugar', 'Either :: Right ( iter :: once ( $e:id ) )', 'vx_once($e)', '*'),
        ('desugar', '$p:id += $e ;', '$p.vx_add_to($e);', '*'),
        ('desugar', 'let args = args . into_iter ( ) . flat_map ( | arg | { $b* } ) . filter ( | arg | { $c* } ) ;', '''
«let ghost mut vx_done: Seq<Term> = Seq::empty(); let ghost vx_all = args.items(); proof { lemma_inv3_0(c_pos@ as int, c_neg@ as int); }»
let vx_f = |arg: Term| -> (q: It<Term>) «ensures forall|a: A| #[trigger] isum(q@, a) == iv(arg, a)» { $b };
let mut vx_out: Vec<Term> = Vec::new(); let mut vx_it = args.vx_into();
loop «invariant vx_all == vx_done + vx_it@, inv3(vx_out@, c_pos@ as int, c_neg@ as int, vx_done, Seq::empty()), forall|t: Term| vx_f.requires((t,)), forall|t: Term, q: It<Term>, a: A| #![trigger vx_f.ensures((t,), q), isum(q@, a)] vx_f.ensures((t,), q) ==> isum(q@, a) == iv(t, a), ensures vx_it@.len() == 0, decreases vx_it@.len(),»
{ match vx_it.next() { None => { break; } Some(vx_t) => { let mut vx_in = vx_f(vx_t); «let ghost vx_q = vx_in@; let ghost mut vx_d2: Seq<Term> = Seq::empty(); »
  loop «invariant vx_q == vx_d2 + vx_in@, inv3(vx_out@, c_pos@ as int, c_neg@ as int, vx_done, vx_d2), ensures vx_in@.len() == 0, decreases vx_in@.len(),»
  { match vx_in.next() { None => { break; } Some(vx_a) => { «let ghost (vx_c0, vx_n0) = (c_pos@, c_neg@);» let vx_keep = { let arg = &vx_a; $c };
      if vx_keep { «proof { lemma_inv3_keep(vx_out@, c_pos@ as int, c_neg@ as int, vx_done, vx_d2, vx_a); }» vx_out.push(vx_a); } «else { proof { lemma_inv3_const(vx_out@, vx_c0 as int, vx_n0 as int, c_pos@ as int, c_neg@ as int, vx_done, vx_d2, vx_a); } } proof { vx_d2 = vx_d2.push(vx_a); }» } } }
  «proof { assert(vx_q =~= vx_d2); lemma_inv3_next(vx_out@, c_pos@ as int, c_neg@ as int, vx_done, vx_d2, vx_t); vx_done = vx_done.push(vx_t); }» } } }
«proof { assert(vx_done =~= vx_all); reveal(inv3); }» let args = vx_out;'''),
        ])
    CMP = [('desugar', 'use std :: cmp :: Ordering :: * ;', '', '*')]
    u.fn(CA, 'Canonicalizer::canonicalize_plus', ret='r', ensures='forall|a: A| #[trigger] val(r, a) == Val::I(isum(args.items(), a))', rules=SL + INTO + CMP + [
        ('type', 'fn canonicalize_plus ( args : impl IntoIterator < Item = Term > )', 'fn canonicalize_plus<VxI: VxIter>(args: VxI)')])
    u.fn(CA, 'Canonicalizer::normalize_constraint', ret='q', ensures='forall|a: A| #![trigger val(q.0, a)] #![trigger val(q.1, a)] val(q.0, a) is I && iv(q.0, a) - iv(q.1, a) == iv(l, a) - iv(r, a)', rules=SL + INTO + CMP + [
        ('desugar', 'iter :: once (', 'vx_once(', '*'),
        ('desugar', 'for ( $i:id , $t:id ) in args . iter ( ) . enumerate ( ) { $b* }', 'let mut vx_i: usize = 0; while vx_i < args.len() «invariant to_move < args@.len(), vx_i <= args@.len(), decreases args@.len() - vx_i,» { let $i = vx_i; let $t = &args[vx_i]; vx_i = vx_i + 1; $b };'),
        ('desugar', 'Self :: negate ( args . swap_remove ( $k:id ) )', '{ «let ghost vx_s = args@;» let vx_t = args.swap_remove($k); «proof { assert forall|a: A| #[trigger] isum(args@, a) == isum(vx_s, a) - iv(vx_t, a) by { lemma_swap(vx_s, $k as int, a); } }» Self::negate(vx_t) }', '*'),
        ])
    CLO = lambda k: [('desugar', '| $x:id , $y:id | $e*', '|$x: Term, $y: Term| -> (q: Term) «ensures rel_term(%d, $x, $y, q)» { $e }' % k)]
    RT = [('type', 'Result < Term , Self :: Error >', 'Result<Term, Error>'), ('type', 'ICoreOp < ALL >', 'ICoreOp', '*'), ('type', 'IOp < ALL >', 'IOp', '*'), ('desugar', 'anyhow :: bail ! ( $e* )', 'return Err(vx_err())', '*'), ('desugar', 'debug_assert_eq ! ( $e* ) ;', '', '*')]
    SAME = '«proof { reveal(keeps); assert(keeps(self, vx_r, vx_t)); }»'
    CH = lambda name, k: [('desugar', 'Arith ( %s ( args ) ) => chained ( args , | $x:id , $y:id | $e* ) ,' % name, 'Arith(%s(args)) => { let vx_r: Term = vx_chained(Ghost(%d), args, |$x: Term, $y: Term| -> (q: Term) «ensures rel_term(%d, $x, $y, q)» { $e }); %s vx_r }' % (name, k, k, SAME), '*'),
        ('desugar', 'Arith ( %s ( args ) ) => chained ( args , $e:id ) ,' % name, 'Arith(%s(args)) => { let vx_r: Term = vx_chained(Ghost(%d), args, $e); %s vx_r }' % (name, k, SAME), '*')]
    PAIR = [('desugar', '[ $a , $b ] . into ( )', 'vx_pair($a, $b)', '*')]
    FE = 'ret is Ok ==> final(self).inv() && final(self).after(old(self)) && forall|a: A| final(self).ok(a) ==> val(ret->Ok_0, a) == #[trigger] val(Term::%s(op), a)'
    for K in range(9): u.fn(CA, 'IntraLogicFolder for Canonicalizer::fold_theory_op', requires='old(self).inv()', case=('k%d' % K, 'vx_kind(*old(self), op) == %d' % K), ensures=FE % 'OtherOp', rules=RT + CH('Gte', 0) + CH('Gt', 1) + CH('Lte', 2) + CH('Lt', 3) + PAIR + [
        ('desugar', 'let op = match op . super_fold_with ( self ) ? {', 'let vx_o = self.vx_fold_op(op)?; «let ghost vx_t = Term::OtherOp(IOp(Box::new(vx_o)));» let op = match vx_o {'),
        ('ghost', 'Ok ( op )', '«proof { assert(keeps(self, op, vx_t)); reveal(keeps); }» Ok ( op )'),
        ('desugar', 'op => op . into ( ) , }', 'op => { let vx_r: Term = op.into(); %s vx_r } }' % SAME),
        ('desugar', 'Arith ( Plus ( args ) ) => $e ,', 'Arith(Plus(args)) => { let vx_r: Term = $e; %s vx_r }' % SAME),
        ('desugar', 'Arith ( Neg ( arg ) ) => $e ,', 'Arith(Neg(arg)) => { let vx_r: Term = $e; %s vx_r }' % SAME),
        ('desugar', 'Arith ( Mul ( mut args ) ) => $e ,', 'Arith(Mul(mut args)) => { let vx_r: Term = $e; %s vx_r }' % SAME),
        ('desugar', 'Arith ( Minus ( args ) ) => { $b* }', 'Arith(Minus(args)) => { let vx_r: Term = { $b }; %s vx_r }' % SAME),
        ('desugar', 'let normalize_gte = | l , r | { $b* } ;', 'let normalize_gte = |l: Term, r: Term| -> (q: Term) «ensures rel_term(0, l, r, q)» { $b };', '*'),
        ('desugar', 'match args . as_slice ( ) { [ _ , b ] => {', 'match vx_sl(&args) { Sl::S2(_, b) => {'),
        ('desugar', 'args . swap ( 0 , 1 ) ;', '«let ghost vx_s = args@;» vx_swap01(&mut args); «proof { assert forall|a: A| #[trigger] prod(vals(args@, a)) == prod(vals(vx_s, a)) by { lemma_prod_comm(vx_s[1], vx_s[0], a); assert(vx_s =~= Seq::empty().push(vx_s[0]).push(vx_s[1])); } }»', '*'),
        ('desugar', 'let mut args = args . into_iter ( ) ; Self :: canonicalize_plus ( args . next ( ) . into_iter ( ) . chain ( args . map ( Self :: negate ) ) )', '''{ «let ghost vx_s = args@;» let mut args = args.vx_into(); let vx_h = vx_opt_iter(args.next()); «let ghost vx_r = args@;» let vx_n = args.map(|vx_t: Term| -> (q: Term) «ensures forall|a: A| #[trigger] iv(q, a) == -iv(vx_t, a)» { Self::negate(vx_t) });
«let ghost vx_m = vx_n@; proof { if vx_s.len() == 0 { assert(vx_r =~= Seq::<Term>::empty()); assert(vx_h@ =~= Seq::<Term>::empty()); } assert forall|a: A| isum(vx_h@, a) + #[trigger] isum(vx_m, a) == minus(vals(vx_s, a)) by { lemma_sum_neg(vx_m, vx_r, a); lemma_minus(vx_s, a); lemma_sum_0(a); if vx_s.len() > 0 { lemma_sum_push(Seq::empty(), vx_s[0], a); } } }» Self::canonicalize_plus(vx_h.chain(vx_n)) }'''),
        ])
    KP = '«proof { reveal(keeps); assert(keeps(self, vx_r, vx_t)); }»'
    for K in range(5): u.fn(CA, 'IntraLogicFolder for Canonicalizer::fold_core_op', requires='old(self).inv()', case=('k%d' % K, 'vx_ckind(*old(self), op) == %d' % K), ensures=FE % 'CoreOp', rules=RT + PAIR + [
        ('desugar', 'let implies = | a : Term , b : Term | $e* ;', 'let implies = |a: Term, b: Term| -> (q: Term) «ensures forall|vx_a: A| #[trigger] val(q, vx_a) == Val::B(val(a, vx_a).b() ==> val(b, vx_a).b())» { $e };'),
        ('desugar', 'Ok ( match op . super_fold_with ( self ) ? { $b* } )', 'let vx_o = self.vx_fold_core(op)?; «let ghost vx_t = co(vx_o); let ghost vx_s0 = *self;» let vx_r: Term = match vx_o { $b }; %s self.vx_end(); «proof { if *self == vx_s0 { lemma_refl(self); } lemma_trans(old(self), &vx_s0, self); assert(self.inv()); assert(self.after(old(self))); }» Ok(vx_r)' % KP),
        ('desugar', 'let sort = ( args . first ( ) ) . ok_or_else ( $e* ) . and_then ( $f* ) ;', 'let sort = vx_first_int(&args, &self.context);', '*'),
        ('desugar', 'sort == Ok ( ISort :: int ( ) )', 'sort', '*'),
        ('desugar', 'sort == ISort :: int ( )', 'vx_is_int(sort)', '*'),
        ('desugar', '. sort ( self . context )', '.sort(&self.context)', '*'),
        ('desugar', 'CoreOp :: Eq ( args ) => { if sort { chained ( args , | $x:id , $y:id | $e* ) }', 'CoreOp::Eq(args) => { if sort { «let ghost vx_s = args@;» let vx_r: Term = vx_chained(Ghost(4), args, |$x: Term, $y: Term| -> (q: Term) «ensures rel_term(4, $x, $y, q)» { $e }); «proof { assert forall|a: A| self.ok(a) implies #[trigger] chain(4, vals(vx_s, a)) == all_eq(vals(vx_s, a)) by { lemma_eq_chain(vx_s, a); } }» vx_r }', '*'),
        ('desugar', 'CoreOp :: Eq ( args ) => { let sort = $s* ; if sort { chained ( args , | $x:id , $y:id | $e* ) }', 'CoreOp::Eq(args) => { let sort = $s; if sort { «let ghost vx_s = args@;» let vx_r: Term = vx_chained(Ghost(4), args, |$x: Term, $y: Term| -> (q: Term) «ensures rel_term(4, $x, $y, q)» { $e }); «proof { assert forall|a: A| self.ok(a) implies #[trigger] chain(4, vals(vx_s, a)) == all_eq(vals(vx_s, a)) by { lemma_eq_chain(vx_s, a); } }» vx_r }', '*'),
        ('desugar', 'pairwise ( & args , | $x:id , $y:id | $e* )', '{ let vx_r: Term = vx_pairwise(Ghost(5), &args, |$x: Term, $y: Term| -> (q: Term) «ensures rel_term(5, $x, $y, q)» { $e }); «proof { assert forall|a: A| self.ok(a) implies #[trigger] all_ne(vals(args@, a)) == (forall|i: int, j: int| 0 <= i < j < args@.len() ==> rel(5, iv(#[trigger] args@[i], a), iv(#[trigger] args@[j], a))) by { lemma_ne_pairs(args@, a); } }» vx_r }', '*'),
        ('desugar', '( args . into_iter ( ) ) . reduce ( | l , r | $e* ) . expect ( $m* )', '{ vx_reduce_xor(args.vx_into(), |l: Term, r: Term| -> (q: Term) «ensures xor_term(l, r, q)» { $e }).unwrap() }', '*'),
        ('desugar', 'self . new_asserts . push ( implies ( $x* ) ) ;', 'let vx_a: Term = implies($x); self.new_asserts.push(vx_a);', '*'),
        ('desugar', 'self . new_asserts . push ( vx_a ) ; res }', 'self.new_asserts.push(vx_a); self.vx_define(«Ghost((res->Variable_0, co(vx_o)))»); «proof { let vx_n = vx_s0.new_asserts@.len() as int; lemma_ite(&vx_s0, self, res->Variable_0, vx_o, self.new_asserts@[vx_n], self.new_asserts@[vx_n + 1]); }» res }', '*'),
        ])
    u.add('}')
