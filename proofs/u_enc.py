"""Encoding of whole terms (E01, E02, E03, E04, E08): encoding.rs, the unknowns and the folds over a normalised term.

The operations on integer terms (encode_plus, encode_minus, ..) enter by the contracts unit u_ops proves for them."""
from ea_common import *
import u_bits, u_plus, u_ops, vx
TIMEOUT = 300
NOTES = 'Assumed: the contracts of the operations (proved in u_ops), the traversal by aws-smt-ir (arguments from left to right, then the operator; constants stay), try_chained (the conjunction over adjacent arguments), sorts, and fewer than 2^64 integer variables. Claimed for well-sorted terms: integer arguments of arithmetic and comparisons, equalities of integers or of Booleans, Boolean connectives, unsigned bit-vector comparison of the same width.'
class Stub:
    """the contract of a function, without its body"""
    def __init__(self, u): self.u = u
    def add(self, t): self.u.add(t)
    def src(self, r): return self.u.src(r)
    def fn(self, rel, path, requires='', ensures='', rules=(), ret='ret', **k):
        f = self.u.src(rel).fn(path)
        f.sig = vx.strip_attrs(f.sig)
        f.body = vx.tokenize('{ unimplemented!() }')
        c = ('    requires ' + requires.strip().rstrip(',') + ',\n' if requires.strip() else '') + '    ensures ' + ensures.strip().rstrip(',') + ',\n'
        self.u.add('/// contract proved in u_ops\n#[verifier::external_body]\n' + f.emit(contract=c, rules=[r for r in rules if r[0] == 'type'], ret=ret))
SPEC = r'''
// ---- source terms
pub struct Sort { pub k: Kind, pub w: u64 }
pub enum Kind { Bool, Int, BitVec, Other }
pub struct STerm { pub k: Box<SKind> }
pub enum SKind { Constant(Constant), Variable(IVar), OtherOp(Op), CoreOp(SCore), Rest(Opaque) }
pub enum ArithOp { Plus(Vec<STerm>), Neg(STerm), Minus(Vec<STerm>), Mul(Vec<STerm>), Gte(Vec<STerm>), Gt(Vec<STerm>), Lte(Vec<STerm>), Lt(Vec<STerm>), Rest(Opaque) }
pub enum BvOp { BvUle(STerm, STerm), Rest(Opaque) }
pub enum Op { Arith(ArithOp), BitVec(BvOp), Rest(Opaque) }
pub enum SCore { True, False, Not(STerm), And(Vec<STerm>), Or(Vec<STerm>), Xor(Vec<STerm>), Imp(Vec<STerm>), Eq(Vec<STerm>), Distinct(Vec<STerm>), Ite(STerm, STerm, STerm) }
/// the connectives after the arguments were encoded
pub enum RCore { True, False, Not(Reduced), And(Vec<Reduced>), Or(Vec<Reduced>), Xor(Vec<Reduced>), Imp(Vec<Reduced>), Eq(Vec<Reduced>), Distinct(Vec<Reduced>), Ite(Reduced, Reduced, Reduced) }
// ---- what they mean
pub ghost enum SV { I(int), B(bool), V(Seq<bool>) }
impl SV {
    pub open spec fn i(self) -> int { match self { SV::I(x) => x, _ => 0 } }
    pub open spec fn b(self) -> bool { self == SV::B(true) }
    pub open spec fn v(self) -> Seq<bool> { match self { SV::V(x) => x, _ => Seq::empty() } }
}
pub type Env = spec_fn(ISymbol) -> SV;
pub uninterp spec fn isym(v: IVar) -> ISymbol;
/// a bit-vector literal, least significant bit first
pub uninterp spec fn lit_bits(v: IVar) -> Option<Seq<bool>>;
impl IVar {
    #[verifier::external_body] pub fn sym(&self) -> (r: &ISymbol) ensures *r == isym(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_bitvec_literal(&self) -> (r: Option<Constant>) ensures r is Some == lit_bits(*self) is Some, r matches Some(c) ==> (c matches Constant::Binary(b) && lit_bits(*self) == Some(b@)) { unimplemented!() }
}
impl Copyable for IVar { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for ISymbol { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Variable { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for STerm { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// the declared sort of a symbol
pub uninterp spec fn vsort(s: ISymbol) -> Sort;
pub open spec fn rel(r: int, x: int, y: int) -> bool { if r == 0 { x >= y } else if r == 1 { x > y } else if r == 2 { x <= y } else if r == 3 { x < y } else { x == y } }
pub open spec fn sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
/// the first minus the others
pub open spec fn less(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.len() == 1 { s[0] } else { less(s.drop_last()) - s.last() } }
pub open spec fn total(c: int, s: Seq<int>) -> int { if c == 5 { sum(s) } else { less(s) } }
pub open spec fn chain(r: int, s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> rel(r, #[trigger] s[i], s[i + 1]) }
pub open spec fn alls(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] }
pub open spec fn anys(s: Seq<bool>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] }
pub open spec fn xors(s: Seq<bool>) -> bool decreases s.len() { if s.len() == 0 { false } else { xors(s.drop_last()) != s.last() } }
pub open spec fn imps(s: Seq<bool>) -> bool decreases s.len() { if s.len() == 0 { true } else if s.len() == 1 { s[0] } else { s[0] ==> imps(s.skip(1)) } }
pub open spec fn eqs(s: Seq<bool>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] s[i] == #[trigger] s[j] }
pub open spec fn nes(s: Seq<bool>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// the operator: comparisons 0-3, equality 4, sum 5, difference 6
pub open spec fn code(o: Op) -> int { match o { Op::Arith(ArithOp::Gte(_)) => 0, Op::Arith(ArithOp::Gt(_)) => 1, Op::Arith(ArithOp::Lte(_)) => 2, Op::Arith(ArithOp::Lt(_)) => 3, Op::Arith(ArithOp::Plus(_)) => 5, Op::Arith(ArithOp::Minus(_)) => 6, _ => 7 } }
pub open spec fn mean(t: STerm, d: Env) -> SV decreases t {
    match *t.k {
        SKind::Constant(c) => match c { Constant::Numeral(n) => SV::I(n@ as int), Constant::Binary(b) => SV::V(b@.reverse()), _ => SV::I(0) },
        SKind::Variable(v) => match lit_bits(v) { Some(b) => SV::V(b), None => d(isym(v)) },
        SKind::OtherOp(o) => match o {
            Op::Arith(ArithOp::Plus(s)) => SV::I(sum(ints(s, d))), Op::Arith(ArithOp::Minus(s)) => SV::I(less(ints(s, d))), Op::Arith(ArithOp::Neg(x)) => SV::I(-mean(x, d).i()),
            Op::Arith(ArithOp::Mul(s)) => if s@.len() == 2 { SV::I(mean(s@[0], d).i() * mean(s@[1], d).i()) } else { SV::I(0) },
            Op::Arith(ArithOp::Gte(s)) => SV::B(chain(0, ints(s, d))), Op::Arith(ArithOp::Gt(s)) => SV::B(chain(1, ints(s, d))), Op::Arith(ArithOp::Lte(s)) => SV::B(chain(2, ints(s, d))), Op::Arith(ArithOp::Lt(s)) => SV::B(chain(3, ints(s, d))),
            Op::BitVec(BvOp::BvUle(x, y)) => SV::B(uval(mean(x, d).v()) <= uval(mean(y, d).v())),
            _ => SV::I(0) },
        SKind::CoreOp(o) => match o {
            SCore::True => SV::B(true), SCore::False => SV::B(false), SCore::Not(x) => SV::B(!mean(x, d).b()),
            SCore::And(s) => SV::B(alls(bools(s, d))), SCore::Or(s) => SV::B(anys(bools(s, d))), SCore::Xor(s) => SV::B(xors(bools(s, d))), SCore::Imp(s) => SV::B(imps(bools(s, d))),
            SCore::Eq(s) => if s@.len() > 0 && sort(s@[0]) == Kind::Int { SV::B(chain(4, ints(s, d))) } else { SV::B(eqs(bools(s, d))) },
            SCore::Distinct(s) => SV::B(nes(bools(s, d))), SCore::Ite(c, x, y) => if mean(c, d).b() { mean(x, d) } else { mean(y, d) } },
        SKind::Rest(o) => SV::I(0),
    }
}
pub open spec fn ints(s: Vec<STerm>, d: Env) -> Seq<int> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { mean(s@[i], d).i() } else { 0 }) }
pub open spec fn bools(s: Vec<STerm>, d: Env) -> Seq<bool> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { mean(s@[i], d).b() } else { false }) }
/// the sort of a term
pub open spec fn sort(t: STerm) -> Kind {
    match *t.k {
        SKind::Constant(c) => match c { Constant::Numeral(n) => Kind::Int, Constant::Binary(b) => Kind::BitVec, _ => Kind::Other },
        SKind::Variable(v) => if lit_bits(v) is Some { Kind::BitVec } else { vsort(isym(v)).k },
        SKind::OtherOp(o) => match o { Op::Arith(ArithOp::Plus(_)) | Op::Arith(ArithOp::Minus(_)) | Op::Arith(ArithOp::Neg(_)) | Op::Arith(ArithOp::Mul(_)) => Kind::Int, Op::Arith(ArithOp::Rest(_)) | Op::Rest(_) | Op::BitVec(BvOp::Rest(_)) => Kind::Other, _ => Kind::Bool },
        SKind::CoreOp(o) => Kind::Bool,
        SKind::Rest(o) => Kind::Other,
    }
}
/// all arguments are well-sorted and of the sort
pub open spec fn ok_all(s: Vec<STerm>, k: Kind) -> bool decreases s { forall|i: int| 0 <= i < s@.len() ==> ok(#[trigger] s@[i]) && sort(s@[i]) == k }
/// well-sorted
pub open spec fn ok(t: STerm) -> bool decreases t {
    match *t.k {
        SKind::OtherOp(o) => match o {
            Op::Arith(ArithOp::Plus(s)) | Op::Arith(ArithOp::Minus(s)) | Op::Arith(ArithOp::Mul(s)) | Op::Arith(ArithOp::Gte(s)) | Op::Arith(ArithOp::Gt(s)) | Op::Arith(ArithOp::Lte(s)) | Op::Arith(ArithOp::Lt(s)) => ok_all(s, Kind::Int),
            Op::Arith(ArithOp::Neg(x)) => ok(x) && sort(x) == Kind::Int,
            Op::BitVec(BvOp::BvUle(x, y)) => ok(x) && ok(y) && sort(x) == Kind::BitVec && sort(y) == Kind::BitVec && forall|d: Env| (#[trigger] mean(x, d)).v().len() == mean(y, d).v().len(),
            _ => true },
        SKind::CoreOp(o) => match o {
            SCore::True | SCore::False => true, SCore::Not(x) => ok(x) && sort(x) == Kind::Bool,
            SCore::And(s) | SCore::Or(s) | SCore::Xor(s) | SCore::Imp(s) | SCore::Distinct(s) => ok_all(s, Kind::Bool),
            SCore::Eq(s) => ok_all(s, Kind::Bool) || ok_all(s, Kind::Int),
            SCore::Ite(c, x, y) => ok(c) && ok(x) && ok(y) && sort(c) == Kind::Bool && sort(x) == Kind::Bool && sort(y) == Kind::Bool },
        _ => true,
    }
}
/// all variables of the term have bits
pub open spec fn covered(t: STerm, m: Map<ISymbol, Variable>) -> bool decreases t {
    match *t.k {
        SKind::Variable(v) => lit_bits(v) is Some || m.dom().contains(isym(v)),
        SKind::OtherOp(o) => match o {
            Op::Arith(ArithOp::Plus(s)) | Op::Arith(ArithOp::Minus(s)) | Op::Arith(ArithOp::Mul(s)) | Op::Arith(ArithOp::Gte(s)) | Op::Arith(ArithOp::Gt(s)) | Op::Arith(ArithOp::Lte(s)) | Op::Arith(ArithOp::Lt(s)) => cov_all(s, m),
            Op::Arith(ArithOp::Neg(x)) => covered(x, m), Op::BitVec(BvOp::BvUle(x, y)) => covered(x, m) && covered(y, m), _ => true },
        SKind::CoreOp(o) => match o {
            SCore::True | SCore::False => true, SCore::Not(x) => covered(x, m),
            SCore::And(s) | SCore::Or(s) | SCore::Xor(s) | SCore::Imp(s) | SCore::Eq(s) | SCore::Distinct(s) => cov_all(s, m),
            SCore::Ite(c, x, y) => covered(c, m) && covered(x, m) && covered(y, m) },
        _ => true,
    }
}
pub open spec fn cov_all(s: Vec<STerm>, m: Map<ISymbol, Variable>) -> bool decreases s { forall|i: int| 0 <= i < s@.len() ==> covered(#[trigger] s@[i], m) }
/// every variable has bits of its kind, kept apart from those of the others
pub open spec fn kind_of(v: Variable) -> Kind { match v { Variable::Bool(_) => Kind::Bool, Variable::Int(_) => Kind::Int, Variable::Bv(_) => Kind::BitVec } }
impl Encoder {
    pub open spec fn spot(&self, v: Variable) -> (BoolVariable, u64) { match v { Variable::Bool(b) => (b, 1u64), Variable::Int(x) => self.bit_vars@[x], Variable::Bv(x) => self.bv_bit_vars@[x] } }
    pub open spec fn placed(&self, s: ISymbol) -> bool {
        let v = self.var_map@[s];
        kind_of(v) == vsort(s).k && range_ok(self.spot(v), self.next()) && (v matches Variable::Int(x) ==> self.bit_vars@.dom().contains(x) && self.spot(v).1 == self.var_bit_width_bounds@[s]) && (v matches Variable::Bv(x) ==> self.bv_bit_vars@.dom().contains(x) && isym(x) == s && self.spot(v).1 == vsort(s).w)
    }
    #[verifier::opaque]
    pub open spec fn ready(&self) -> bool {
        &&& forall|s: ISymbol| #[trigger] self.var_map@.dom().contains(s) ==> self.placed(s)
        &&& forall|s: ISymbol, t: ISymbol| s != t && #[trigger] self.var_map@.dom().contains(s) && #[trigger] self.var_map@.dom().contains(t) ==> apart(self.spot(self.var_map@[s]), self.spot(self.var_map@[t]))
        &&& forall|s: ISymbol| #[trigger] self.var_bit_width_bounds@.dom().contains(s) ==> self.var_bit_width_bounds@[s] >= 1
        &&& forall|v: IVar| #[trigger] self.bv_bit_vars@.dom().contains(v) ==> self.var_map@.dom().contains(isym(v)) && self.var_map@[isym(v)] == Variable::Bv(v)
    }
    pub open spec fn fine(&self) -> bool { self.good() && self.ready() }
    /// the values an assignment of the bits gives to the unknowns
    pub open spec fn env(&self, a: Asg) -> Env { |s: ISymbol| if self.var_map@.dom().contains(s) { match self.var_map@[s] { Variable::Bool(b) => SV::B(a(b.0.v as int)), Variable::Int(x) => SV::I(sval(bvals(bits_of(self.bit_vars@[x]), a))), Variable::Bv(x) => SV::V(bvals(bits_of(self.bv_bit_vars@[x]), a)) } } else { SV::I(0) } }
    /// the encoder went on: new unknowns and constraints only, which can be met
    #[verifier::opaque]
    pub open spec fn onward(&self, o: &Encoder) -> bool {
        &&& o.implied@.is_prefix_of(self.implied@) && o.next() <= self.next()
        &&& submap(o.bit_vars@, self.bit_vars@) && submap(o.bv_bit_vars@, self.bv_bit_vars@) && submap(o.var_map@, self.var_map@) && self.var_bit_width_bounds == o.var_bit_width_bounds
        &&& forall|a: Asg| sat(o.implied@, a) ==> exists|b: Asg| #[trigger] agree(a, b, o.next()) && sat(self.implied@, b)
    }
    /// the encoded term has the value of the term
    #[verifier::opaque]
    pub open spec fn stands(&self, r: Reduced, t: STerm) -> bool {
        covered(t, self.var_map@) && match sort(t) {
            Kind::Int => self.has(r) && forall|a: Asg| sat(self.implied@, a) ==> #[trigger] self.num(r, a) == mean(t, self.env(a)).i(),
            Kind::Bool => forall|a: Asg| sat(self.implied@, a) ==> #[trigger] r.val(a) == mean(t, self.env(a)).b(),
            Kind::BitVec => self.has_bv(r) && forall|a: Asg| sat(self.implied@, a) ==> #[trigger] bvals(self.bv(r), a) == mean(t, self.env(a)).v(),
            Kind::Other => true,
        }
    }
    pub open spec fn stand(&self, r: Seq<Reduced>, s: Seq<STerm>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> self.stands(#[trigger] r[i], s[i]) }
}
'''
def build(u):
    u_plus.encoder(u)
    u.add(u_ops.OPS)
    u.add(SPEC)
    s = Stub(u)
    u.add('impl Encoder {')
    u_plus.alloc(u)
    u_ops.ops(s)
    u.add('}')
