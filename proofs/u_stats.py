"""The statistics of a partition, the bound computed from them and the visitor that gathers them (E07).

Terms of the normalised script are a datatype with the operators the visitor looks at. The unification table
of `ena` is a stand-in: keys, their classes and the value of each class; `union` joins the values of two
classes with `unify_values`, whose contract is proved here. `Rc<RefCell<Stats>>` values of the table are
reached by exclusive reference (the code never keeps two of them)."""
from ea_common import ITER, LIB, EA
ST = EA + 'stats.rs'
TIMEOUT = 300
TYPES = r'''
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
#[verifier::external_body] pub struct Opaque { x: () }
#[verifier::external_body] pub struct Error { x: () }
#[verifier::external_body] pub fn vx_err() -> (r: Error) { unimplemented!() }
#[verifier::external_body] pub fn vx_panic<T>() -> (r: T) ensures false { unimplemented!() }
pub trait Copyable: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub mod vx_n { use vstd::prelude::*; use vstd::arithmetic::power2::*; use vstd::arithmetic::power::*; use super::Copyable;
#[verifier::external_body] pub struct Numeral { x: () }
impl Copyable for Numeral { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn n_of(x: nat) -> Numeral;
impl Numeral {
    pub uninterp spec fn view(&self) -> nat;
    // assumed (num-bigint)
    #[verifier::external_body] pub fn bits(&self) -> (w: u64) ensures self@ < pow2(w as nat), w < 0x1000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Numeral) ensures r@ == 1 { unimplemented!() }
    #[verifier::external_body] pub fn pow(self, k: u32) -> (r: Numeral) ensures r@ == pow(self@ as int, k as nat) { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self, o: Numeral) -> (r: Numeral) ensures r == (if o@ >= self@ { o } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self, o: Numeral) -> (r: Numeral) ensures r == (if o@ >= self@ { self } else { o }) { unimplemented!() }
}
}
pub use vx_n::*;
pub mod vx_ax { use vstd::prelude::*; use super::vx_n::*;
#[verifier::external_body] pub broadcast proof fn axiom_n_of(x: nat) ensures (#[trigger] n_of(x))@ == x {}
}
broadcast use vx_ax::axiom_n_of;
#[verifier::external_body] pub fn vx_gt(x: &Numeral, y: &Numeral) -> (b: bool) ensures b == (x@ > y@) { unimplemented!() }
pub trait VxMax: Sized { fn vx_max(self, o: Self) -> (r: Self); fn vx_min(self, o: Self) -> (r: Self); }
impl VxMax for usize { fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
  fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } }
pub fn min(x: usize, y: usize) -> (r: usize) ensures r == (if x <= y { x } else { y }) { if x <= y { x } else { y } }
pub fn max(x: usize, y: usize) -> (r: usize) ensures r == (if x >= y { x } else { y }) { if x >= y { x } else { y } }
#[derive(Clone, Copy)] pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    pub fn new(n: u32) -> (r: Option<NonZeroU32>) ensures r is Some == (n != 0), r is Some ==> r->Some_0.v == n { if n == 0 { None } else { Some(NonZeroU32 { v: n }) } }
    pub fn get(self) -> (r: u32) ensures r == self.v { self.v }
}
impl vstd::std_specs::convert::FromSpecImpl<usize> for Numeral { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: usize) -> Numeral { n_of(b as nat) } }
impl From<usize> for Numeral { #[verifier::external_body] fn from(b: usize) -> (r: Numeral) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u8> for Numeral { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: u8) -> Numeral { n_of(b as nat) } }
impl From<u8> for Numeral { #[verifier::external_body] fn from(b: u8) -> (r: Numeral) { unimplemented!() } }
'''
# operators on numbers (num-bigint), for every mix of references and machine integers the code may use
def op(tr, fn, sym, lhs, rhs):
    v = lambda t, x: '(%s as nat)' % x if t == 'usize' else x + '@'
    lt = "<'a>" if '&' in lhs + rhs else ''
    l, r = lhs.replace('&', "&'a "), rhs.replace('&', "&'a ")
    return ('impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(self, o: %s) -> bool { true } '
            'open spec fn %s_spec(self, o: %s) -> Numeral { n_of((%s %s %s) as nat) } }\n'
            'impl%s core::ops::%s<%s> for %s { type Output = Numeral; #[verifier::external_body] fn %s(self, o: %s) -> (r: Numeral) { unimplemented!() } }\n'
            % (lt, tr, r, l, fn, fn, r, fn, r, v(lhs, 'self'), sym, v(rhs, 'o'), lt, tr, r, l, fn, r))
OPS = ''.join(op(tr, fn, sym, a, b) for tr, fn, sym in (('Mul', 'mul', '*'), ('Add', 'add', '+'))
              for a in ('Numeral', '&Numeral', 'usize') for b in ('Numeral', '&Numeral', 'usize') if not (a == b == 'usize'))
TERMS = r'''
#[verifier::external_body] pub struct ISymbol { x: () }
impl Copyable for ISymbol { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct IVar { x: () }
impl Copyable for IVar { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl IVar { pub uninterp spec fn name(&self) -> ISymbol;
    #[verifier::external_body] pub fn sym(&self) -> (r: &ISymbol) ensures *r == self.name() { unimplemented!() } }
pub enum Constant { Numeral(Numeral), Decimal(Opaque), Hexadecimal(Opaque), Binary(Vec<bool>), String(Opaque) }
pub struct IConst(pub Box<Constant>);
pub struct ICoreOp(pub Box<CoreOp>);
pub struct IOp(pub Box<Op>);
impl IConst { pub fn as_ref(&self) -> (r: &Constant) ensures *r == *self.0 { &self.0 } }
impl ICoreOp { pub fn as_ref(&self) -> (r: &CoreOp) ensures *r == *self.0 { &self.0 } }
impl IOp { pub fn as_ref(&self) -> (r: &Op) ensures *r == *self.0 { &self.0 } }
/// terms of a normalised script; every other kind of term is `Rest`
pub enum Term { Constant(IConst), Variable(IVar), CoreOp(ICoreOp), OtherOp(IOp), Rest(Opaque) }
pub enum CoreOp { True, False, Not(Term), And(Vec<Term>), Or(Vec<Term>), Xor(Vec<Term>), Imp(Vec<Term>), Eq(Vec<Term>), Distinct(Vec<Term>), Ite(Term, Term, Term) }
pub enum ArithOp { Plus(Vec<Term>), Neg(Term), Minus(Vec<Term>), Mul(Vec<Term>), Gte(Vec<Term>), Gt(Vec<Term>), Lte(Vec<Term>), Lt(Vec<Term>), Rest(Opaque) }
pub enum Op { Arith(ArithOp), BitVec(Opaque), Rest(Opaque) }
impl Copyable for IConst { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for ICoreOp { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for IOp { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// `op.into()`: an interned operator as a term
pub trait VxTerm { fn vx_term(&self) -> (r: Term); }
impl VxTerm for ICoreOp { #[verifier::external_body] fn vx_term(&self) -> (r: Term) ensures r == Term::CoreOp(*self) { unimplemented!() } }
impl VxTerm for IOp { #[verifier::external_body] fn vx_term(&self) -> (r: Term) ensures r == Term::OtherOp(*self) { unimplemented!() } }
/// argument lists, for matching with slice patterns
pub enum Sl<'a, T> { S0, S1(&'a T), S2(&'a T, &'a T), S3(&'a T, &'a T, &'a T), More }
pub fn vx_sl<'a, T>(v: &'a Vec<T>) -> (r: Sl<'a, T>)
    ensures match r { Sl::S0 => v@.len() == 0, Sl::S1(x) => v@ == seq![*x], Sl::S2(x, y) => v@ == seq![*x, *y], Sl::S3(x, y, z) => v@ == seq![*x, *y, *z], Sl::More => v@.len() > 3 }
{ match v.len() { 0 => Sl::S0, 1 => Sl::S1(&v[0]), 2 => Sl::S2(&v[0], &v[1]), 3 => Sl::S3(&v[0], &v[1], &v[2]), _ => Sl::More } }
/// assumed: a set, by equality; iteration lists every element once
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HSet<T> { v: Vec<T> }
impl<T> HSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: HSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len(), n < usize::MAX - 8 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: HSet<T>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: It<&T>) ensures elems(r@).no_duplicates(), elems(r@).to_set() == self@ { unimplemented!() }
}
pub open spec fn elems<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
#[verifier::external_body] pub fn vx_swap<T>(x: &mut T, y: &mut T) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() }
pub fn vx_hset_default<T>() -> (r: HSet<T>) ensures r@ == Set::<T>::empty() { HSet::new() }
'''
SPEC = r'''
// ---- what a constraint looks like
pub open spec fn is_num(t: Term) -> bool { num_of(t) is Some }
/// the absolute value of an integer literal
pub open spec fn num_of(t: Term) -> Option<nat> {
    match t {
        Term::Constant(c) => if let Constant::Numeral(n) = *c.0 { Some(n@) } else { None },
        Term::OtherOp(o) => if let Op::Arith(ArithOp::Neg(Term::Constant(c))) = *o.0 { if let Constant::Numeral(n) = *c.0 { Some(n@) } else { None } } else { None },
        _ => None,
    }
}
pub open spec fn is_var(t: Term) -> bool { t is Variable }
pub open spec fn is_nvar(t: Term) -> bool { if let Term::OtherOp(o) = t { if let Op::Arith(ArithOp::Neg(Term::Variable(v))) = *o.0 { true } else { false } } else { false } }
pub open spec fn is_eq(t: Term) -> bool { if let Term::CoreOp(o) = t { *o.0 is Eq } else { false } }
pub open spec fn rel_args(t: Term) -> Option<Seq<Term>> {
    match t {
        Term::CoreOp(o) => if let CoreOp::Eq(a) = *o.0 { Some(a@) } else { None },
        Term::OtherOp(o) => match *o.0 { Op::Arith(ArithOp::Gte(a)) => Some(a@), Op::Arith(ArithOp::Gt(a)) => Some(a@), Op::Arith(ArithOp::Lte(a)) => Some(a@), Op::Arith(ArithOp::Lt(a)) => Some(a@), _ => None },
        _ => None,
    }
}
pub open spec fn summands(t: Term) -> Option<Seq<Term>> { if let Term::OtherOp(o) = t { if let Op::Arith(ArithOp::Plus(a)) = *o.0 { Some(a@) } else { None } } else { None } }
/// a separation constraint: x R c, -x R c, x R y, -x R -y, x - y R c
pub open spec fn separation(t: Term) -> bool {
    let a = rel_args(t)->Some_0; let l = summands(a[0])->Some_0; let r = a[1];
    ||| l.len() == 1 && is_var(l[0]) && (is_num(r) || is_var(r))
    ||| l.len() == 1 && is_nvar(l[0]) && (is_num(r) || is_nvar(r))
    ||| l.len() == 2 && is_var(l[0]) && is_nvar(l[1]) && is_num(r)
    ||| l.len() == 2 && is_nvar(l[0]) && is_var(l[1]) && is_num(r)
}
// ---- the documented bound
impl Stats {
    pub open spec fn k(&self) -> nat { self.constraints@.filter(|t: Term| !separation(t)).len() }
    pub open spec fn equalities(&self) -> bool { self.mu_b@ == 0 && forall|t: Term| #[trigger] self.constraints@.contains(t) ==> is_eq(t) }
    pub open spec fn bound(&self) -> int {
        let (m, n) = (self.constraints@.len() as int, self.vars@.len() as int);
        if self.k() > 0 { pow(self.mu_a@ * self.w, self.k()) * (n + 2) * (if n + 1 <= m { n + 1 } else { m }) * (self.mu_b@ + 1) }
        else if self.equalities() { n }
        else { (if n <= m { n } else { m }) * (self.mu_b@ + 1) }
    }
    /// fewer than 2^32 constraints
    pub open spec fn small(&self) -> bool { self.constraints@.len() <= u32::MAX }
    pub open spec fn le(&self, o: Stats) -> bool {
        self.constraints@.subset_of(o.constraints@) && self.vars@.subset_of(o.vars@) && self.mu_a@ <= o.mu_a@ && self.mu_b@ <= o.mu_b@ && self.w <= o.w
    }
    pub open spec fn join_of(&self, x: Stats, y: Stats) -> bool {
        &&& self.constraints@ == x.constraints@.union(y.constraints@)
        &&& self.vars@ == x.vars@.union(y.vars@)
        &&& x.mu_a@ <= self.mu_a@ && y.mu_a@ <= self.mu_a@
        &&& x.mu_b@ <= self.mu_b@ && y.mu_b@ <= self.mu_b@
        &&& x.w <= self.w && y.w <= self.w
    }
    pub open spec fn fresh(&self) -> bool { self.constraints@ == Set::<Term>::empty() && self.vars@ == Set::<ISymbol>::empty() && self.mu_a@ >= 1 && self.w >= 1 }
}
pub open spec fn count(s: Seq<Term>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last()) + if separation(s.last()) { 0nat } else { 1 } } }
pub proof fn lemma_count(s: Seq<Term>)
    requires s.no_duplicates(),
    ensures count(s) == s.to_set().filter(|t: Term| !separation(t)).len(),
    decreases s.len(),
{
    let p = |t: Term| !separation(t);
    if s.len() == 0 { assert(s.to_set().filter(p) =~= Set::empty()); }
    else {
        let d = s.drop_last();
        lemma_count(d);
        assert(s =~= d.push(s.last()));
        assert(s.to_set() =~= d.to_set().insert(s.last())) by {
            assert forall|x: Term| s.to_set().contains(x) implies d.to_set().insert(s.last()).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } }
            assert forall|x: Term| d.to_set().insert(s.last()).contains(x) implies s.to_set().contains(x) by { if x == s.last() { assert(s[s.len() - 1] == x); } else { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } }
        }
        assert(!d.to_set().contains(s.last())) by { if d.to_set().contains(s.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
        if separation(s.last()) { assert(s.to_set().filter(p) =~= d.to_set().filter(p)); }
        else { assert(s.to_set().filter(p) =~= d.to_set().filter(p).insert(s.last())); }
    }
}
pub proof fn lemma_count_le(s: Seq<Term>, n: int) requires 0 <= n <= s.len(), ensures count(s.take(n)) <= n, decreases n,
{ if n > 0 { lemma_count_le(s, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); } }
'''
SLICE = [('desugar', 'match $a:id . as_slice ( )', 'match vx_sl($a)', '*'),
      ('desugar', '[ $x:id ] if', 'Sl::S1($x) if', '*'), ('desugar', '[ $x , $y ] if', 'Sl::S2($x, $y) if', '*'), ('desugar', '[ $x , $y ] =>', 'Sl::S2($x, $y) =>', '*')]

REF = r'''
#[verifier::external_body] pub struct NoError { x: () }
/// a shared cell that holds the statistics of a partition
#[verifier::external_body] pub struct StatsRef { x: () }
impl StatsRef {
    pub uninterp spec fn content(&self) -> Stats;
    #[verifier::external_body] pub fn vx_from(s: Stats) -> (r: StatsRef) ensures r.content() == s { unimplemented!() }
}
/// takes the statistics out of the cell (assumed: the two cells are different and each is taken once)
#[verifier::external_body] pub fn vx_take(s: &StatsRef) -> (r: Stats) ensures r == s.content() { unimplemented!() }
'''
VIS = r'''
pub enum ControlFlow<B, C = ()> { Continue(C), Break(B) }
#[derive(Clone, Copy)] pub struct VarKey(pub u32);
impl Copyable for Stats { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// assumed (ena): keys, the class of every key and the value of every class; classes are named by one of their keys
pub struct TV { pub cls: Map<u32, u32>, pub val: Map<u32, Stats> }
impl TV {
    pub open spec fn wf(&self) -> bool { forall|k: u32| #[trigger] self.cls.dom().contains(k) ==> self.val.dom().contains(self.cls[k]) }
    pub open spec fn at(&self, k: VarKey) -> Stats { self.val[self.cls[k.0]] }
    pub open spec fn has(&self, k: VarKey) -> bool { self.cls.dom().contains(k.0) }
    pub open spec fn same(&self, a: VarKey, b: VarKey) -> bool { self.cls[a.0] == self.cls[b.0] }
    /// two classes become one, everything else stays
    pub open spec fn joined(&self, o: TV, a: VarKey, b: VarKey) -> bool {
        if o.same(a, b) { *self == o } else {
            let (ca, cb) = (o.cls[a.0], o.cls[b.0]); let r = self.cls[a.0];
            &&& (r == ca || r == cb)
            &&& self.cls.dom() == o.cls.dom()
            &&& forall|k: u32| o.cls.dom().contains(k) ==> #[trigger] self.cls[k] == (if o.cls[k] == ca || o.cls[k] == cb { r } else { o.cls[k] })
            &&& forall|c: u32| #![trigger self.val[c]] #![trigger self.val.dom().contains(c)] c != ca && c != cb && o.val.dom().contains(c) ==> self.val.dom().contains(c) && self.val[c] == o.val[c]
            &&& self.val.dom().contains(r) && (self.val[r].join_of(o.val[ca], o.val[cb]) || self.val[r].join_of(o.val[cb], o.val[ca]))
        }
    }
}
#[verifier::external_body] pub struct Table { x: () }
impl Table {
    pub uninterp spec fn view(&self) -> TV;
    #[verifier::external_body] pub fn new_key(&mut self, s: Stats) -> (k: VarKey)
        ensures !old(self)@.has(k), final(self)@.cls == old(self)@.cls.insert(k.0, k.0), final(self)@.val == old(self)@.val.insert(k.0, s),
            forall|x: u32| old(self)@.cls.dom().contains(x) ==> #[trigger] old(self)@.cls[x] != k.0
    { unimplemented!() }
    #[verifier::external_body] pub fn union(&mut self, a: VarKey, b: VarKey) requires old(self)@.has(a), old(self)@.has(b), ensures final(self)@.joined(old(self)@, a, b) { unimplemented!() }
    #[verifier::external_body] pub fn find(&mut self, k: VarKey) -> (r: VarKey) requires old(self)@.has(k), ensures final(self)@ == old(self)@, old(self)@.has(r), old(self)@.same(r, k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_peek(&mut self, k: VarKey) -> (r: Stats) requires old(self)@.has(k), ensures r == old(self)@.at(k), final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_probe(&mut self, k: VarKey) -> (r: &mut Stats) requires old(self)@.has(k),
        ensures *r == old(self)@.at(k), final(self)@.cls == old(self)@.cls, final(self)@.val == old(self)@.val.insert(old(self)@.cls[k.0], *final(r)) { unimplemented!() }
}
/// what an iterator over a map yields: every key once, with its value
pub open spec fn vx_it_ok(s: Seq<(ISymbol, VarKey)>, m: Map<ISymbol, VarKey>) -> bool { forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 }
impl VMap<ISymbol, VarKey> {
    #[verifier::external_body] pub fn vx_into_iter(self) -> (r: It<(ISymbol, VarKey)>) ensures vx_it_ok(r@, self@), forall|x: ISymbol| #[trigger] self@.dom().contains(x) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).0 == x { unimplemented!() }
}
impl<K, V> VMap<K, V> { #[verifier::external_body] pub fn new() -> (r: VMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() } }
/// whether the arguments of = are Booleans (decided by the sorts of the context, not looked at here)
pub uninterp spec fn bool_args(a: Seq<Term>) -> bool;
#[verifier::external_body] pub fn vx_bool_args(a: &Vec<Term>) -> (r: bool) ensures r == bool_args(a@) { unimplemented!() }
#[verifier::external_body] pub fn vx_sort_is_bool(v: &ISymbol) -> (r: bool) { unimplemented!() }
pub struct Ctx { pub x: u64 }
// ---- what the statistics of a partition must say about a constraint
/// an integer literal (possibly negated) whose absolute value is at most m
pub open spec fn num_le(t: Term, m: int) -> bool decreases t {
    match t {
        Term::Constant(c) => if let Constant::Numeral(n) = *c.0 { n@ <= m } else { false },
        Term::OtherOp(o) => if let Op::Arith(ArithOp::Neg(x)) = *o.0 { num_le(x, m) } else { false },
        _ => false,
    }
}
pub open spec fn var_in(s: Stats, t: Term) -> bool { if let Term::Variable(v) = t { s.vars@.contains(v.name()) } else { false } }
/// a multiple of a variable: the variable is counted and the coefficient is at most mu_a
pub open spec fn mul_in(s: Stats, a: Seq<Term>) -> bool { a.len() == 2 && num_le(a[0], s.mu_a@ as int) && var_in(s, a[1]) }
/// a variable, its negation, or a multiple of it
pub open spec fn summand_in(s: Stats, t: Term) -> bool {
    var_in(s, t) || (if let Term::OtherOp(o) = t { match *o.0 { Op::Arith(ArithOp::Neg(x)) => var_in(s, x), Op::Arith(ArithOp::Mul(a)) => mul_in(s, a@), _ => false } } else { false })
}
pub open spec fn sum_in(s: Stats, t: Term) -> bool {
    match summands(t) { Some(l) => s.w >= l.len() && forall|i: int| 0 <= i < l.len() ==> summand_in(s, #[trigger] l[i]), None => var_in(s, t) }
}
/// the right-hand side: a constant of absolute value at most mu_b, or a summand, possibly negated
pub open spec fn rhs_in(s: Stats, t: Term) -> bool decreases t {
    match t {
        Term::Constant(c) => num_le(t, s.mu_b@ as int),
        Term::OtherOp(o) => match *o.0 { Op::Arith(ArithOp::Neg(x)) => rhs_in(s, x), Op::Arith(ArithOp::Mul(a)) => mul_in(s, a@), _ => false },
        _ => var_in(s, t),
    }
}
pub open spec fn no_summands(t: Term) -> bool { summands(t) matches Some(l) && l.len() == 0 }
pub open spec fn width(t: Term) -> int { match summands(t) { Some(l) => l.len() as int, None => 1 } }
pub open spec fn constraint_in(s: Stats, t: Term, a: Seq<Term>) -> bool {
    s.constraints@.contains(t) && a.len() == 2 && sum_in(s, a[0]) && rhs_in(s, a[1]) && (!is_num(a[1]) ==> s.w >= width(a[0]) + 1)
}
pub proof fn lemma_num_le(t: Term, m: int, n: int) requires m <= n, ensures num_le(t, m) ==> num_le(t, n), decreases t
{ if let Term::OtherOp(o) = t { if let Op::Arith(ArithOp::Neg(x)) = *o.0 { lemma_num_le(x, m, n); } } }
pub proof fn lemma_le(s: Stats, o: Stats, t: Term) requires s.le(o),
    ensures summand_in(s, t) ==> summand_in(o, t), rhs_in(s, t) ==> rhs_in(o, t), num_le(t, s.mu_a@ as int) ==> num_le(t, o.mu_a@ as int), decreases t,
{
    lemma_num_le(t, s.mu_a@ as int, o.mu_a@ as int); lemma_num_le(t, s.mu_b@ as int, o.mu_b@ as int);
    if let Term::OtherOp(oo) = t {
        if let Op::Arith(ArithOp::Neg(x)) = *oo.0 { lemma_le(s, o, x); }
        if let Op::Arith(ArithOp::Mul(a)) = *oo.0 { if a@.len() == 2 { lemma_num_le(a@[0], s.mu_a@ as int, o.mu_a@ as int); } }
    }
}
pub proof fn lemma_sum_le(s: Stats, o: Stats, t: Term) requires s.le(o), sum_in(s, t), ensures sum_in(o, t),
{ if let Some(l) = summands(t) { assert forall|i: int| 0 <= i < l.len() implies summand_in(o, #[trigger] l[i]) by { lemma_le(s, o, l[i]); } } }
pub proof fn lemma_constraint_le(s: Stats, o: Stats, t: Term, a: Seq<Term>) requires s.le(o), constraint_in(s, t, a), ensures constraint_in(o, t, a),
{ lemma_sum_le(s, o, a[0]); lemma_le(s, o, a[1]); }
'''
VSPEC = r'''
/// what a closure did to the statistics of a partition
#[verifier::prophetic]
pub open spec fn ran<R, F: FnOnce(&mut Stats) -> R>(f: F, a: Stats, b: Stats, q: R) -> bool { exists|s: &mut Stats| #[trigger] f.ensures((s,), q) && *s == a && *final(s) == b }
/// every variable of a partition has its key in the class of the partition, every key is in use
#[verifier::opaque]
pub open spec fn inv_p(vk: Map<ISymbol, VarKey>, t: TV, cur: Option<VarKey>) -> bool {
    &&& t.wf()
    &&& forall|x: ISymbol| #[trigger] vk.dom().contains(x) ==> t.has(vk[x])
    &&& forall|k: VarKey, x: ISymbol| t.has(k) && #[trigger] t.at(k).vars@.contains(x) ==> vk.dom().contains(x) && t.same(vk[x], k)
    &&& (cur is Some ==> t.has(cur->Some_0))
}
/// nothing that was gathered is lost, what was together stays together
#[verifier::opaque]
pub open spec fn grows_p(vk: Map<ISymbol, VarKey>, t: TV, vk0: Map<ISymbol, VarKey>, t0: TV) -> bool {
    &&& forall|x: ISymbol| #[trigger] vk0.dom().contains(x) ==> vk.dom().contains(x) && vk[x] == vk0[x]
    &&& forall|k: VarKey| #[trigger] t0.has(k) ==> t.has(k) && t0.at(k).le(t.at(k))
    &&& forall|a: VarKey, b: VarKey| #[trigger] t0.has(a) && #[trigger] t0.has(b) && t0.same(a, b) ==> t.same(a, b)
}
/// a change of the statistics of one partition: nothing is lost, only variables of that partition are added
pub open spec fn adds(vk: Map<ISymbol, VarKey>, t: TV, c: VarKey, s: Stats) -> bool {
    t.at(c).le(s) && forall|x: ISymbol| #[trigger] s.vars@.contains(x) ==> t.at(c).vars@.contains(x) || (vk.dom().contains(x) && t.same(vk[x], c))
}
pub proof fn lemma_adds(vk: Map<ISymbol, VarKey>, t0: TV, c: VarKey, s: Stats, t1: TV)
    requires inv_p(vk, t0, Some(c)), adds(vk, t0, c, s), t1.cls == t0.cls, t1.val == t0.val.insert(t0.cls[c.0], s),
    ensures inv_p(vk, t1, Some(c)), grows_p(vk, t1, vk, t0), t1.at(c) == s,
{
    reveal(inv_p); reveal(grows_p);
    assert forall|k: VarKey, x: ISymbol| t1.has(k) && #[trigger] t1.at(k).vars@.contains(x) implies vk.dom().contains(x) && t1.same(vk[x], k) by {
        assert(t0.has(k)); if t0.same(k, c) { if t0.at(c).vars@.contains(x) {} } else { assert(t0.at(k).vars@.contains(x)); }
    }
}
/// a new key for a variable
pub proof fn lemma_new(vk: Map<ISymbol, VarKey>, t0: TV, cur: Option<VarKey>, x: ISymbol, k: VarKey, s: Stats, t1: TV)
    requires inv_p(vk, t0, cur), !vk.dom().contains(x), s.fresh(), !t0.has(k), t1.cls == t0.cls.insert(k.0, k.0), t1.val == t0.val.insert(k.0, s), forall|x: u32| t0.cls.dom().contains(x) ==> #[trigger] t0.cls[x] != k.0,
    ensures inv_p(vk.insert(x, k), t1, cur), grows_p(vk.insert(x, k), t1, vk, t0), cur is Some ==> t1.has(cur->Some_0),
{
    reveal(inv_p); reveal(grows_p);
    let v1 = vk.insert(x, k);
    assert forall|q: VarKey| #[trigger] t0.has(q) implies t1.has(q) && t1.at(q) == t0.at(q) by {}
    assert forall|q: VarKey, y: ISymbol| t1.has(q) && #[trigger] t1.at(q).vars@.contains(y) implies v1.dom().contains(y) && t1.same(v1[y], q) by {
        if t0.has(q) { assert(t0.at(q).vars@.contains(y)); assert(t0.has(vk[y])); } else { assert(q == k); }
    }
    assert forall|y: ISymbol| #[trigger] v1.dom().contains(y) implies t1.has(v1[y]) by { if y != x { assert(vk.dom().contains(y)); } }
}
/// two partitions become one
pub proof fn lemma_union(vk: Map<ISymbol, VarKey>, t0: TV, a: VarKey, b: VarKey, t1: TV)
    requires inv_p(vk, t0, Some(b)), t0.has(a), t1.joined(t0, a, b),
    ensures inv_p(vk, t1, Some(a)), grows_p(vk, t1, vk, t0), t1.same(a, b),
{
    reveal(inv_p); reveal(grows_p);
    if !t0.same(a, b) {
        assert forall|q: VarKey| #[trigger] t0.has(q) implies t1.has(q) && t0.at(q).le(t1.at(q)) by { assert(t1.cls[q.0] == t1.cls[q.0]); }
        assert forall|q: VarKey, y: ISymbol| t1.has(q) && #[trigger] t1.at(q).vars@.contains(y) implies vk.dom().contains(y) && t1.same(vk[y], q) by {
            assert(t0.has(q)); assert(t1.cls[q.0] == t1.cls[q.0]);
            if t0.same(q, a) || t0.same(q, b) { if t0.at(a).vars@.contains(y) { assert(t1.cls[vk[y].0] == t1.cls[vk[y].0]); } else { assert(t0.at(b).vars@.contains(y)); assert(t1.cls[vk[y].0] == t1.cls[vk[y].0]); } }
            else { assert(t0.at(q).vars@.contains(y)); assert(t1.cls[vk[y].0] == t1.cls[vk[y].0]); }
        }
        assert(t1.cls[b.0] == t1.cls[a.0]);
        assert forall|x: VarKey, y: VarKey| #[trigger] t0.has(x) && #[trigger] t0.has(y) && t0.same(x, y) implies t1.same(x, y) by { assert(t1.cls[x.0] == t1.cls[y.0]); }
    }
}
pub proof fn lemma_p_refl(vk: Map<ISymbol, VarKey>, t: TV) ensures grows_p(vk, t, vk, t) { reveal(grows_p); }
pub proof fn lemma_p_trans(v0: Map<ISymbol, VarKey>, t0: TV, v1: Map<ISymbol, VarKey>, t1: TV, v2: Map<ISymbol, VarKey>, t2: TV)
    requires grows_p(v1, t1, v0, t0), grows_p(v2, t2, v1, t1), ensures grows_p(v2, t2, v0, t0) { reveal(grows_p); }
/// a constraint is accounted for in some partition (or has no variables)
pub open spec fn accounted(v: TV, t: Term, a: Seq<Term>) -> bool {
    a.len() == 2 && (no_summands(a[0]) || exists|k: VarKey| v.has(k) && constraint_in(#[trigger] v.at(k), t, a))
}
/// every constraint of a formula is accounted for
pub open spec fn all_in(v: TV, t: Term) -> bool decreases t {
    match t {
        Term::Variable(_) => true,
        Term::CoreOp(o) => match *o.0 {
            CoreOp::True | CoreOp::False => true,
            CoreOp::Not(x) => all_in(v, x),
            CoreOp::And(a) => forall|i: int| 0 <= i < a@.len() ==> all_in(v, #[trigger] a@[i]),
            CoreOp::Or(a) => forall|i: int| 0 <= i < a@.len() ==> all_in(v, #[trigger] a@[i]),
            CoreOp::Xor(a) => forall|i: int| 0 <= i < a@.len() ==> all_in(v, #[trigger] a@[i]),
            CoreOp::Imp(a) => forall|i: int| 0 <= i < a@.len() ==> all_in(v, #[trigger] a@[i]),
            CoreOp::Eq(a) => if bool_args(a@) { forall|i: int| 0 <= i < a@.len() ==> all_in(v, #[trigger] a@[i]) } else { accounted(v, t, a@) },
            _ => false,
        },
        Term::OtherOp(o) => match *o.0 { Op::BitVec(_) => true, _ => rel_args(t) is Some && accounted(v, t, rel_args(t)->Some_0) },
        _ => false,
    }
}
impl StatsVisitor {
    pub open spec fn inv(&self) -> bool { inv_p(self.var_keys@, self.stats@, self.current_partition) }
    pub open spec fn grows(&self, o: &StatsVisitor) -> bool { grows_p(self.var_keys@, self.stats@, o.var_keys@, o.stats@) }
    pub open spec fn cur(&self) -> Stats { self.stats@.at(self.current_partition->Some_0) }
    /// the current partition stays the current one
    pub open spec fn keeps(&self, o: &StatsVisitor) -> bool { o.current_partition is Some ==> self.current_partition is Some && self.stats@.same(self.current_partition->Some_0, o.current_partition->Some_0) }
    /// what a visit has done when it returns normally
    pub open spec fn visited(&self, o: &StatsVisitor, t: Term) -> bool {
        &&& self.inv() && self.grows(o)
        &&& match o.expecting {
            Expecting::Formula => self.expecting is Formula && self.current_partition is None && all_in(self.stats@, t),
            Expecting::Sum => if no_summands(t) { self.current_partition == o.current_partition } else { self.current_partition is Some && self.keeps(o) && sum_in(self.cur(), t) },
            Expecting::Summand => self.expecting is Summand && self.current_partition is Some && self.keeps(o) && summand_in(self.cur(), t),
            Expecting::Variable => self.expecting is Variable && self.current_partition is Some && self.keeps(o) && var_in(self.cur(), t),
            Expecting::Coefficient => self.expecting is Coefficient && self.current_partition == o.current_partition && self.current_partition is Some && num_le(t, self.cur().mu_a@ as int),
            Expecting::Rhs => self.expecting is Rhs && self.current_partition is Some && self.keeps(o) && rhs_in(self.cur(), t),
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
    /// aws-smt-ir: visiting a term calls the method for its kind
    pub fn vx_visit(&mut self, t: &Term) -> (r: ControlFlow<Error>)
        requires old(self).inv(), old(self).expecting is Formula ==> old(self).current_partition is None,
        ensures r is Continue ==> final(self).visited(old(self), *t),
    {
        match t {
            Term::Constant(c) => self.visit_const(c),
            Term::Variable(v) => self.visit_var(v),
            Term::CoreOp(o) => self.visit_core_op(o),
            Term::OtherOp(o) => self.visit_theory_op(o),
            Term::Rest(_) => ControlFlow::Break(vx_err()),
        }
    }
    /// visiting a list of arguments: one after the other, until one breaks off
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_visit_all(&mut self, args: &Vec<Term>) -> (r: ControlFlow<Error>)
        requires old(self).inv(), old(self).expecting is Formula ==> old(self).current_partition is None, old(self).expecting is Formula || old(self).expecting is Summand,
        ensures r is Continue ==> final(self).inv() && final(self).grows(old(self)) && final(self).expecting == old(self).expecting && final(self).keeps(old(self))
            && (old(self).expecting is Formula ==> final(self).current_partition is None && forall|i: int| 0 <= i < args@.len() ==> all_in(final(self).stats@, #[trigger] args@[i]))
            && (old(self).expecting is Summand ==> (args@.len() > 0 ==> final(self).current_partition is Some) && forall|i: int| 0 <= i < args@.len() ==> summand_in(final(self).cur(), #[trigger] args@[i])),
    {
        let mut k: usize = 0;
        proof { lemma_refl(self); }
        while k < args.len()
            invariant 0 <= k <= args@.len(), old(self).inv(), self.inv(), self.grows(old(self)), self.expecting == old(self).expecting, self.keeps(old(self)),
                old(self).expecting is Formula || old(self).expecting is Summand,
                self.expecting is Formula ==> self.current_partition is None,
                self.expecting is Formula ==> forall|i: int| 0 <= i < k ==> all_in(self.stats@, #[trigger] args@[i]),
                self.expecting is Summand ==> (k > 0 ==> self.current_partition is Some) && forall|i: int| 0 <= i < k ==> summand_in(self.cur(), #[trigger] args@[i]),
        {
            let ghost o = *self;
            match self.vx_visit(&args[k]) { ControlFlow::Break(b) => { return ControlFlow::Break(b); } ControlFlow::Continue(_) => {} }
            proof {
                lemma_trans(old(self), &o, self);
                if o.expecting is Formula { assert forall|i: int| 0 <= i < k implies all_in(self.stats@, #[trigger] args@[i]) by { lemma_all_in(&o, self, args@[i]); } }
                else if k > 0 { lemma_cur(&o, self); assert forall|i: int| 0 <= i < k implies summand_in(self.cur(), #[trigger] args@[i]) by { lemma_le(o.cur(), self.cur(), args@[i]); } }
                assert(o.expecting is Summand && old(self).current_partition is Some ==> o.current_partition is Some);
            }
            k += 1;
        }
        ControlFlow::Continue(())
    }
    #[verifier::exec_allows_no_decreases_clause]
    /// aws-smt-ir: the arguments of a core operator
    pub fn vx_super_core(&mut self, op: &ICoreOp) -> (r: ControlFlow<Error>)
        requires old(self).inv(), old(self).expecting is Formula, old(self).current_partition is None,
            !(*op.0 is Distinct), !(*op.0 is Ite), *op.0 matches CoreOp::Eq(a) ==> bool_args(a@),
        ensures r is Continue ==> final(self).visited(old(self), Term::CoreOp(*op)),
    {
        proof { lemma_refl(self); }
        match op.as_ref() {
            CoreOp::Not(x) => self.vx_visit(x),
            CoreOp::And(a) => self.vx_visit_all(a), CoreOp::Or(a) => self.vx_visit_all(a), CoreOp::Xor(a) => self.vx_visit_all(a),
            CoreOp::Imp(a) => self.vx_visit_all(a), CoreOp::Eq(a) => self.vx_visit_all(a),
            _ => ControlFlow::Continue(()),
        }
    }
}
pub proof fn lemma_trans_if(a: &StatsVisitor, b: &StatsVisitor, c: &StatsVisitor) ensures b.grows(a) && c.grows(b) && a.inv() && b.inv() ==> c.grows(a) && (b.keeps(a) && c.keeps(b) ==> c.keeps(a))
{ if b.grows(a) && c.grows(b) && a.inv() && b.inv() { lemma_trans(a, b, c); } }
/// an assumption on the machine: no list has usize::MAX elements
#[verifier::external_body] pub proof fn axiom_len(a: &Vec<Term>) ensures a@.len() < usize::MAX {}
pub proof fn lemma_refl(s: &StatsVisitor) ensures s.grows(s), s.keeps(s) { reveal(grows_p); }
pub proof fn lemma_trans(a: &StatsVisitor, b: &StatsVisitor, c: &StatsVisitor) requires b.grows(a), c.grows(b), a.inv(), b.inv(), ensures c.grows(a), b.keeps(a) && c.keeps(b) ==> c.keeps(a),
{ reveal(grows_p); reveal(inv_p);
  if b.keeps(a) && c.keeps(b) && a.current_partition is Some { let (x, y) = (a.current_partition->Some_0, b.current_partition->Some_0); assert(a.stats@.has(x)); assert(b.stats@.has(x)); assert(b.stats@.has(y)); assert(c.stats@.same(y, x)); } }
/// the current partition only grows
pub proof fn lemma_cur(a: &StatsVisitor, b: &StatsVisitor) requires b.grows(a), b.keeps(a), a.inv(), a.current_partition is Some, ensures a.cur().le(b.cur())
{ reveal(grows_p); reveal(inv_p); }
pub proof fn lemma_accounted(a: &StatsVisitor, b: &StatsVisitor, t: Term, l: Seq<Term>) requires b.grows(a), accounted(a.stats@, t, l), ensures accounted(b.stats@, t, l)
{ reveal(grows_p); if !no_summands(l[0]) { let k = choose|k: VarKey| a.stats@.has(k) && constraint_in(#[trigger] a.stats@.at(k), t, l); lemma_constraint_le(a.stats@.at(k), b.stats@.at(k), t, l); } }
pub proof fn lemma_all_in(a: &StatsVisitor, b: &StatsVisitor, t: Term) requires b.grows(a), all_in(a.stats@, t), ensures all_in(b.stats@, t), decreases t
{
    match t {
        Term::CoreOp(o) => match *o.0 {
            CoreOp::Not(x) => lemma_all_in(a, b, x),
            CoreOp::And(l) => { assert forall|i: int| 0 <= i < l@.len() implies all_in(b.stats@, #[trigger] l@[i]) by { lemma_all_in(a, b, l@[i]); } }
            CoreOp::Or(l) => { assert forall|i: int| 0 <= i < l@.len() implies all_in(b.stats@, #[trigger] l@[i]) by { lemma_all_in(a, b, l@[i]); } }
            CoreOp::Xor(l) => { assert forall|i: int| 0 <= i < l@.len() implies all_in(b.stats@, #[trigger] l@[i]) by { lemma_all_in(a, b, l@[i]); } }
            CoreOp::Imp(l) => { assert forall|i: int| 0 <= i < l@.len() implies all_in(b.stats@, #[trigger] l@[i]) by { lemma_all_in(a, b, l@[i]); } }
            CoreOp::Eq(l) => if bool_args(l@) { assert forall|i: int| 0 <= i < l@.len() implies all_in(b.stats@, #[trigger] l@[i]) by { lemma_all_in(a, b, l@[i]); } } else { lemma_accounted(a, b, t, l@); },
            _ => {} },
        Term::OtherOp(o) => if !(*o.0 is BitVec) { lemma_accounted(a, b, t, rel_args(t)->Some_0); },
        _ => {}
    }
}
'''
def build(u):
    u.add(TYPES + OPS + 'pub mod vx_it { use vstd::prelude::*;\n' + ITER[:ITER.index('impl It<Bit>')] + ITER[ITER.index('/// assumed: a map, by'):] + '}\npub use vx_it::*;\n' + TERMS)
    u.item(ST, 'struct', 'Stats', rules=[('type', 'HashSet < $t:id >', 'HSet<$t>', '*')] + [('type', '%s :' % f, 'pub %s:' % f) for f in ('constraints', 'vars', 'mu_a', 'mu_b', 'w')], prefix='pub ')
    u.item(ST, 'enum', 'SpecialCase', prefix='pub ')
    u.add(SPEC)
    u.fn(LIB, 'int_term', ensures='ret is Some == is_num(*t), ret is Some ==> num_of(*t) == Some(ret->Some_0.0@)')
    u.add('impl Stats {')
    u.fn(ST, 'Stats::new', ensures='ret.fresh(), ret.mu_b@ == 0', rules=[
        ('desugar', 'Default :: default ( )', 'vx_hset_default()', '*'), ('type', 'HashSet :: new ( )', 'HSet::new()', '*')])
    u.fn(ST, 'Stats::determine_special_case', requires='self.small()',
        ensures='match ret { SpecialCase::None { k } => k.v == self.k() && k.v > 0, SpecialCase::EqualityLogic => self.k() == 0 && self.equalities(), SpecialCase::SeparationLogic => self.k() == 0 && !self.equalities() }',
        rules=SLICE + [
        ('desugar', 'let bad = || { $b* } ;', ''),
        ('desugar', 'bad ( )', 'vx_panic()', '*'),
        ('desugar', 'let is_const = | $t:id : & Term | $e ;', '''let is_const = |$t: &Term| -> (q: bool) «ensures q == is_num(*$t)» { $e };'''),
        ('desugar', 'let is_var = | $t:id : & Term | $e ;', '''let is_var = |$t: &Term| -> (q: bool) «ensures q == is_var(*$t)» { $e };'''),
        ('desugar', 'let is_neg_var = | $t:id : & Term | { $e* } ;', '''let is_neg_var = |$t: &Term| -> (q: bool) «ensures q == is_nvar(*$t)» { $e };'''),
        ('desugar', 'for $t:id in self . constraints . iter ( ) { $b* } match', '''let mut vx_it = self.constraints.iter();
«let ghost vx_s = elems(vx_it@); let ghost mut vx_i: int = 0;
assert(vx_s.len() == self.constraints@.len()) by { vx_s.unique_seq_to_set(); }»
loop
«invariant self.small(), vx_s.no_duplicates(), vx_s.to_set() == self.constraints@, vx_s.len() == self.constraints@.len(), 0 <= vx_i <= vx_s.len(), elems(vx_it@) == vx_s.skip(vx_i),
   k == count(vx_s.take(vx_i)), count(vx_s.take(vx_i)) <= vx_i,
   equality_logic == (self.mu_b@ == 0 && forall|j: int| 0 <= j < vx_i ==> is_eq(#[trigger] vx_s[j])),
 ensures vx_i == vx_s.len(), k == count(vx_s), equality_logic == (self.mu_b@ == 0 && forall|j: int| 0 <= j < vx_s.len() ==> is_eq(#[trigger] vx_s[j])), 
   vx_s.no_duplicates(), vx_s.to_set() == self.constraints@,
 decreases vx_s.len() - vx_i,»
{
«let ghost vx_old = vx_it@; proof { assert(elems(vx_old).len() == vx_s.skip(vx_i).len()); lemma_count_le(vx_s, vx_i); }»
match vx_it.next() {
  None => { «assert(vx_s.take(vx_i) =~= vx_s);» break; }
  Some($t) => {
«assert(*$t == vx_s[vx_i]) by { assert(elems(vx_old)[0] == *$t); }
 assert(elems(vx_it@) =~= vx_s.skip(vx_i + 1)) by { assert forall|j: int| 0 <= j < vx_it@.len() implies #[trigger] elems(vx_it@)[j] == vx_s.skip(vx_i + 1)[j] by { assert(elems(vx_old)[j + 1] == vx_s.skip(vx_i)[j + 1]); } }
 assert(vx_s.take(vx_i + 1).drop_last() =~= vx_s.take(vx_i)); assert(vx_s.take(vx_i + 1).last() == vx_s[vx_i]);
 proof { vx_i = vx_i + 1; lemma_count_le(vx_s, vx_i); }»
 $b } } }
«proof { lemma_count(vx_s); assert forall|t: Term| #[trigger] self.constraints@.contains(t) && (forall|j: int| 0 <= j < vx_s.len() ==> is_eq(#[trigger] vx_s[j])) implies is_eq(t) by { assert(vx_s.to_set().contains(t)); let j = choose|j: int| 0 <= j < vx_s.len() && vx_s[j] == t; assert(is_eq(vx_s[j])); }
  assert forall|j: int| 0 <= j < vx_s.len() && self.equalities() implies is_eq(#[trigger] vx_s[j]) by { assert(self.constraints@.contains(vx_s[j])); } }»
match'''),
        ])
    u.fn(ST, 'Stats::solution_size_upper_bound_bits', requires='self.small()', ensures='ret >= 1, self.bound() < pow2((ret - 1) as nat)', rules=[
        ('desugar', 'use num_traits :: One ;', '', '*'), ('desugar', 'use std :: cmp :: min ;', '', '*'),
        ('ghost', 'let ( mu_a , mu_b ) = $e ;', '''let ( mu_a , mu_b ) = $e ;'''),
        ])
    u.add('}\n' + REF)
    MX = [('desugar', '. max (', '. vx_max (', '*'), ('desugar', '. min (', '. vx_min (', '*')]
    HS = [('type', 'HashSet < $t:id >', 'HSet<$t>', '*')]
    u.fn(ST, 'UnifyValue for StatsRef::unify_values/union', ensures='ret@ == s1@.union(s2@)', rules=HS + [
        ('type', '< T : Clone + Hash + Eq >', '<T>'), ('desugar', 'std :: mem :: swap (', 'vx_swap(', '*'),
        ('ghost', 'if s2 . len', '«proof { assert(s1@.union(s2@) =~= s2@.union(s1@)); }» if s2 . len', '*')])
    u.add('impl StatsRef {')
    u.fn(ST, 'UnifyValue for StatsRef::unify_values', ensures='ret is Ok, ret->Ok_0.content().join_of(value1.content(), value2.content())', rules=MX + [
        ('desugar', 'fn union < T : Clone + Hash + Eq > ( $a* ) -> HashSet < T > { $b* }', ''),
        ('desugar', '$v:id . deref ( ) . take ( )', 'vx_take($v)', '*'),
        ('desugar', 'stats . into ( )', 'StatsRef::vx_from(stats)', '*'),
        ('type', 'Self :: Error', 'NoError')])
    u.add('}')
    u.add(VIS)
    u.item(ST, 'enum', 'Expecting', prefix='#[derive(Clone, Copy)]\npub ')
    u.item(ST, 'struct', 'StatsVisitor', rules=[('type', "StatsVisitor < 'a >", 'StatsVisitor'), ('type', "& 'a mut Ctx", 'Ctx'), ('type', 'HashMap <', 'VMap <'), ('type', 'InPlaceUnificationTable < VarKey >', 'Table')]
        + [('type', '%s :' % f, 'pub %s:' % f) for f in ('expecting', 'var_keys', 'stats', 'current_partition', 'context')], prefix='pub ')
    u.add(VSPEC + 'impl StatsVisitor {')
    nd = dict(prefix='#[verifier::exec_allows_no_decreases_clause]\n')
    TB = [('desugar', 'try_break ! ( $e* ) ;', 'match $e { ControlFlow::Break(b) => { return ControlFlow::Break(b); } ControlFlow::Continue(c) => { c } };', '*'),
          ('desugar', 'self . invalid ( $e* )', 'vx_err()', '*'), ('desugar', 'debug_assert ! ( $e* ) ;', '', '*'), ('desugar', 'debug_assert_eq ! ( $e* ) ;', '', '*'),
          ('desugar', 'ControlFlow :: CONTINUE', 'ControlFlow::Continue(())', '*'), ('type', 'ControlFlow < anyhow :: Error', 'ControlFlow<Error', '*'), ('type', 'Self :: BreakTy', 'Error', '*'),
          ('desugar', 'args . visit_with ( self )', 'self.vx_visit_all(args)', '*'), ('desugar', '$t:id . visit_with ( self )', 'self.vx_visit($t)', '*'), ('desugar', 'op . super_visit_with ( self )', 'self.vx_super_core(op)', '*'),
          ('type', 'ICoreOp < ALL >', 'ICoreOp', '*'), ('type', 'IOp < ALL >', 'IOp', '*'), ('type', 'IVar < QualIdentifier >', 'IVar', '*'), ('desugar', 'op . into ( )', 'op.vx_term()', '*')]
    OLDC = 'old(self).inv()'
    u.fn(ST, 'StatsVisitor::set_current_patition', requires=OLDC,
        ensures='final(self).inv(), final(self).grows(old(self)), final(self).keeps(old(self)), final(self).current_partition is Some, final(self).expecting == old(self).expecting, final(self).var_keys@.dom().contains(var.name()), final(self).current_partition->Some_0 == final(self).var_keys@[var.name()]',
        rules=TB + [('desugar', '* self . var_keys . entry ( $s ) . or_insert_with ( || $e )', """{ let vx_s = $s; match self.var_keys.get(&vx_s) { Some(vx_k) => *vx_k, None => { let vx_k = $e; self.var_keys.insert(vx_s, vx_k); vx_k } } }"""),
          ('desugar', 'Stats :: new ( ) . into ( )', 'Stats::new()', '*'),
          ('ghost', 'self . var_keys . insert ( vx_s , vx_k ) ;', '''«let ghost vx_n = vx_s; let ghost vx_t1 = stats@;» self . var_keys . insert ( vx_s , vx_k ) ;
            «proof { lemma_new(old(self).var_keys@, vx_t0, vx_c0, vx_n, vx_k, vx_t1.val[vx_k.0], vx_t1); }»'''),
          ('ghost', 'self . stats . union ( $a , $b ) ;', '''«let ghost vx_t2 = self.stats@; proof { reveal(inv_p); }» self . stats . union ( $a , $b ) ; «proof { lemma_union(self.var_keys@, vx_t2, $a, $b, self.stats@); lemma_p_trans(old(self).var_keys@, vx_t0, self.var_keys@, vx_t2, self.var_keys@, self.stats@); }»''')],
        pre='let ghost (vx_t0, vx_c0) = (self.stats@, self.current_partition); proof { lemma_refl(self); reveal(inv_p); }')
    FRAME = 'final(self).var_keys == old(self).var_keys, final(self).current_partition == old(self).current_partition, final(self).expecting == old(self).expecting'
    u.fn(ST, 'StatsVisitor::current_partition_stats', requires=OLDC,
        ensures="""match ret { Err(_) => *final(self) == *old(self), Ok(r) => old(self).current_partition is Some && *r == old(self).cur() && final(self).stats@.cls == old(self).stats@.cls
            && final(self).stats@.val == old(self).stats@.val.insert(old(self).stats@.cls[old(self).current_partition->Some_0.0], *final(r)) }, """ + FRAME,
        pre='reveal(inv_p);', rules=[
        ('type', 'anyhow :: Result < StatsRef >', 'Result<&mut Stats, Error>'),
        ('desugar', 'let key = ( self . current_partition . as_ref ( ) ) . ok_or_else ( $e* ) ? ;', 'let key = match self.current_partition.as_ref() { Some(vx_k) => vx_k, None => { return Err(vx_err()); } };'),
        ('desugar', '. probe_value ( * key )', '. vx_probe(*key)')])
    u.fn(ST, 'StatsVisitor::with_stats', requires=OLDC + ', forall|s: &mut Stats| #[trigger] f.requires((s,))',
        ensures="""ret matches ControlFlow::Continue(q) ==> old(self).current_partition is Some && ran(f, old(self).cur(), final(self).cur(), q)
            && (adds(old(self).var_keys@, old(self).stats@, old(self).current_partition->Some_0, final(self).cur()) ==> final(self).inv() && final(self).grows(old(self))), """ + FRAME,
        rules=TB + [('type', '< T >', '<T, F: FnOnce(&mut Stats) -> T>', '*'), ('type', 'f : impl FnOnce ( & mut Stats ) -> T', 'f: F'),
          ('desugar', 'let ret = f ( & mut stats . borrow_mut ( ) ) ;', '''«let ghost vx_s0 = *stats;» let ret = f(stats); «let ghost vx_s1 = *stats;
proof { reveal(inv_p); let c = old(self).current_partition->Some_0; assert(ran(f, vx_s0, vx_s1, ret)); if adds(old(self).var_keys@, old(self).stats@, c, vx_s1) { lemma_adds(old(self).var_keys@, old(self).stats@, c, vx_s1, self.stats@); } }»''')])
    def clo(body, post, n='+'):
        return ('desugar', 'self . with_stats ( | stats | %s )' % body, '''{ «let ghost vx_b = *self;» let vx_r = self.with_stats(|stats: &mut Stats| -> (q: %s) «%sensures %s» { %s });
            «proof { reveal(inv_p); lemma_trans_if(old(self), &vx_b, self); %s }» vx_r }''' % ((post[0], 'requires ' + post[3] if len(post) > 3 else '') + post[1:3] + (post[4] if len(post) > 4 else '',)), n)
    SAME = lambda *f: ', '.join('final(stats).%s == old(stats).%s' % (x, x) for x in ('constraints', 'vars', 'mu_a', 'mu_b', 'w') if x not in f)
    GT = [('desugar', '$a:id > & $b:id . $f:id', 'vx_gt($a, &$b.$f)', '*'), ('desugar', '. max (', '. vx_max (', '*')]
    LE = 'old(stats).le(*final(stats)), final(stats).vars == old(stats).vars'
    FC = ', old(self).expecting is Formula ==> old(self).current_partition is None'
    PRE = 'proof { lemma_refl(self); }'
    W = [('ghost', '$x = self . with_stats', '$x = self . with_stats', '*')]
    u.fn(ST, 'Visitor for StatsVisitor::visit_const', requires=OLDC + FC, ensures='ret is Continue ==> final(self).visited(old(self), Term::Constant(*c))',
        rules=TB + GT + [clo('{ if vx_gt ( $a , & stats . $f:id ) { $c* } }', ('()', 'final(stats).$f@ >= $a@, ' + LE, 'if vx_gt($a, &stats.$f) { $c }'))], pre=PRE)
    u.fn(ST, 'Visitor for StatsVisitor::visit_var', requires=OLDC + FC, ensures='ret is Continue ==> final(self).visited(old(self), Term::Variable(*var))', pre=PRE,
        rules=TB + [('desugar', 'let sort = self . context . const_sort ( var . sym ( ) ) ;', 'let sort = vx_sort_is_bool(var.sym());'), ('desugar', 'sort == Some ( & ISort :: bool ( ) )', 'sort'),
          ('ghost', 'self . set_current_patition ( $e ) ;', 'self . set_current_patition ( $e ) ; «let ghost vx_1 = *self;»'),
          clo('{ stats . vars . insert ( $e ) ; }', ('()', 'old(stats).le(*final(stats)), final(stats).vars@ == old(stats).vars@.insert(var.name())', 'let _ = stats.vars.insert($e);'))])
    u.fn(ST, 'StatsVisitor::visit_constraint', requires=OLDC + ', old(self).expecting is Formula, old(self).current_partition is None',
        ensures="ret is Continue ==> final(self).inv() && final(self).grows(old(self)) && final(self).expecting is Formula && final(self).current_partition is None && accounted(final(self).stats@, t, args@)", pre=PRE, **nd,
        rules=TB + GT + [('type', 'args : & [ Term ]', 'args: &Vec<Term>'), ('desugar', 'match args { [ l , r ] =>', 'match vx_sl(args) { Sl::S2(l, r) =>'),
          clo('stats . constraints . insert ( t )', ('bool', 'old(stats).le(*final(stats)), final(stats).vars == old(stats).vars, final(stats).constraints@.contains(t)', 'stats.constraints.insert(t)')),
          clo('stats . w = $e', ('()', 'old(stats).le(*final(stats)), final(stats).vars == old(stats).vars, final(stats).w >= lhs_width + 1', 'stats.w = $e;', 'lhs_width < usize::MAX ')),
          ('ghost', 'Op :: Arith ( ArithOp :: Plus ( args ) ) => args . len ( ) ,', 'Op :: Arith ( ArithOp :: Plus ( args ) ) => «{ proof { axiom_len(args); }» args . len ( ) «}» ,'),
          ('ghost', 'if self . current_partition . is_none ( ) {', '«let ghost vx_g1 = *self;» if self . current_partition . is_none ( ) {'),
          ('ghost', 'self . expecting = Expecting :: Rhs ;', '«let ghost vx_g2 = *self; proof { lemma_trans_if(old(self), &vx_g1, &vx_g2); lemma_cur(&vx_g1, &vx_g2); lemma_sum_le(vx_g1.cur(), vx_g2.cur(), *l); }» self . expecting = Expecting :: Rhs ;'),
          ('ghost', 'if int_term ( r ) . is_none ( ) {', '«let ghost vx_g3 = *self; proof { lemma_trans_if(old(self), &vx_g2, &vx_g3); lemma_cur(&vx_g2, &vx_g3); lemma_sum_le(vx_g2.cur(), vx_g3.cur(), *l); }» if int_term ( r ) . is_none ( ) {'),
          ('ghost', 'self . current_partition = None ;', '''«let ghost vx_g4 = *self; proof { reveal(inv_p); lemma_trans_if(old(self), &vx_g3, &vx_g4); lemma_refl(self); lemma_cur(&vx_g3, &vx_g4); lemma_sum_le(vx_g3.cur(), vx_g4.cur(), *l); lemma_le(vx_g3.cur(), vx_g4.cur(), *r);
             assert(constraint_in(self.stats@.at(self.current_partition->Some_0), t, args@)); }» self . current_partition = None ;'''),
          ])
    u.fn(ST, 'Visitor for StatsVisitor::visit_core_op', requires=OLDC + FC, ensures='ret is Continue ==> final(self).visited(old(self), Term::CoreOp(*op))', **nd,
        rules=TB + [('desugar', 'if args . first ( ) . map ( | t | t . sort ( self . context ) ) != Some ( Ok ( ISort :: bool ( ) ) ) =>', 'if !vx_bool_args(args) =>')])
    u.fn(ST, 'Visitor for StatsVisitor::visit_theory_op', requires=OLDC + FC, ensures='ret is Continue ==> final(self).visited(old(self), Term::OtherOp(*op))', **nd, pre=PRE,
        rules=TB + SLICE + GT + [
          clo('{ stats . w = $e ; }', ('()', 'old(stats).le(*final(stats)), final(stats).vars == old(stats).vars, final(stats).w >= args@.len()', 'stats.w = $e;', 'true ', 'if vx_r is Continue { lemma_cur(&vx_b, self); assert forall|i: int| 0 <= i < args@.len() implies summand_in(self.cur(), #[trigger] args@[i]) by { lemma_le(vx_b.cur(), self.cur(), args@[i]); } }')),
          ('ghost', 'self . expecting = Expecting :: Coefficient ;', '«let ghost vx_g1 = *self;» self . expecting = Expecting :: Coefficient ;'),
          ('ghost', 'self . expecting = exp ;', '«proof { lemma_trans_if(old(self), &vx_g1, self); lemma_cur(&vx_g1, self); }» self . expecting = exp ;'),
          ])
        # the loop of `map(..).collect()` over all variables
    INVS = """stats@.cls == vx_t.cls, stats@.val == vx_t.val, inv_p(vx_vk, vx_t, vx_c), forall|k: VarKey| vx_t.has(k) ==> (#[trigger] vx_t.at(k)).small(), vx_it_ok(vx_all, vx_vk),
   forall|q: VarKey| #[trigger] partition_bounds@.dom().contains(q) ==> vx_t.has(q) && partition_bounds@[q] >= 1 && vx_t.at(q).bound() < pow2((partition_bounds@[q] - 1) as nat),
   forall|x: ISymbol| #[trigger] vx_out@.dom().contains(x) ==> vx_vk.dom().contains(x) && vx_out@[x] >= 1 && vx_t.at(vx_vk[x]).bound() < pow2((vx_out@[x] - 1) as nat)"""
    u.fn(ST, 'StatsVisitor::solution_size_upper_bound_bits', requires='self.inv(), forall|k: VarKey| self.stats@.has(k) ==> (#[trigger] self.stats@.at(k)).small()',
        ensures="""forall|x: ISymbol| #[trigger] self.var_keys@.dom().contains(x) ==> ret@.dom().contains(x) && ret@[x] >= 1 && self.stats@.at(self.var_keys@[x]).bound() < pow2((ret@[x] - 1) as nat)""",
        pre='let ghost (vx_vk, vx_t, vx_c) = (self.var_keys@, self.stats@, self.current_partition);',
        rules=[('desugar', 'HashMap :: new ( )', 'VMap::<VarKey, u64>::new()', '*'), ('type', 'HashMap <', 'VMap <', '*'),
          ('desugar', 'println ! ( $e* ) ;', '', '*'),
          ('desugar', 'let stats = stats . probe_value ( $k ) ; let stats = stats . borrow ( ) ;', 'let vx_st = stats.vx_peek($k);'),
          ('desugar', 'let bound = stats . solution_size_upper_bound_bits ( ) ;', 'let bound = vx_st.solution_size_upper_bound_bits();'),
          ('desugar', '* partition_bounds . entry ( $k ) . or_insert_with ( || $e )', "match partition_bounds.get(&$k) { Some(vx_b) => *vx_b, None => { let vx_b = $e; partition_bounds.insert($k, vx_b); vx_b } }"),
          ('desugar', 'let bounds = ( self . var_keys . into_iter ( ) ) . map ( | ( $s:id , $k:id ) | { $b* } ) ; bounds . collect ( )', """let mut vx_out = VMap::<ISymbol, u64>::new(); let mut vx_it = self.var_keys.vx_into_iter();
«let ghost vx_all = vx_it@; let ghost mut vx_i: int = 0;»
loop «invariant """ + INVS + """, 0 <= vx_i <= vx_all.len(), vx_it@ == vx_all.skip(vx_i), forall|j: int| 0 <= j < vx_i ==> vx_out@.dom().contains((#[trigger] vx_all[j]).0),
  ensures vx_i == vx_all.len(), forall|x: ISymbol| #[trigger] vx_out@.dom().contains(x) ==> vx_vk.dom().contains(x) && vx_out@[x] >= 1 && vx_t.at(vx_vk[x]).bound() < pow2((vx_out@[x] - 1) as nat), forall|j: int| 0 <= j < vx_i ==> vx_out@.dom().contains((#[trigger] vx_all[j]).0),
  decreases vx_all.len() - vx_i,»
{ match vx_it.next() { None => { break; } Some(($s, $k)) => { «proof { assert(vx_all.skip(vx_i)[0] == vx_all[vx_i]); assert(vx_all.skip(vx_i).skip(1) =~= vx_all.skip(vx_i + 1)); reveal(inv_p); vx_i = vx_i + 1; }» let vx_p = { $b }; vx_out.insert(vx_p.0, vx_p.1); } } }
«proof { assert forall|x: ISymbol| #[trigger] vx_vk.dom().contains(x) implies vx_out@.dom().contains(x) by { let j = choose|j: int| 0 <= j < vx_all.len() && (#[trigger] vx_all[j]).0 == x; assert(vx_out@.dom().contains(vx_all[j].0)); } }»
vx_out"""),
        ])
    u.add('}')
