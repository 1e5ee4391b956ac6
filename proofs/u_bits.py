"""The bits of constants and unknowns, least significant first, from both ends (E03, E04, E06, E08)."""
from ea_common import *
SPEC = r'''
global size_of usize == 8;
/// the i-th bit of the representation with w bits and a sign bit
pub open spec fn cbit(x: nat, w: nat, i: int) -> bool { i != w && nbit(x, i as nat) }
pub open spec fn const_bits(x: nat, w: nat) -> Seq<bool> { Seq::new(w + 1, |i: int| cbit(x, w, i)) }
pub open spec fn var_bits(first: int, w: nat) -> Seq<Bit> { Seq::new(w, |i: int| vbit(first + i)) }
pub open spec fn vbit(v: int) -> Bit { Bit(Either::Right(BoolVariable(NonZeroU64 { v: v as u64 }))) }
pub open spec fn cseq(s: Seq<bool>) -> Seq<Bit> { s.map_values(|b: bool| Bit(Either::Left(b))) }
impl IntVarBits {
    pub open spec fn rest(&self) -> Seq<Bit> { var_bits(self.0.start as int, (if self.0.start < self.0.end { self.0.end - self.0.start } else { 0 }) as nat) }
}
impl ConstantBits {
    pub open spec fn rest(&self) -> Seq<Bit> {
        Seq::new((if self.bits.start < self.bits.end { self.bits.end - self.bits.start } else { 0 }) as nat, |i: int| Bit(Either::Left(cbit(self.x@, self.width as nat, self.bits.start + i))))
    }
}
pub proof fn lemma_nbits(x: nat, w: nat)
    ensures uval(Seq::new(w, |i: int| nbit(x, i as nat))) == x % pow2(w), decreases w,
{
    let s = Seq::new(w, |i: int| nbit(x, i as nat));
    if w == 0 { lemma2_to64(); assert(x % 1 == 0) by (nonlinear_arith); }
    else {
        let v = (w - 1) as nat;
        lemma_nbits(x, v);
        assert(s.drop_last() =~= Seq::new(v, |i: int| nbit(x, i as nat)));
        lemma_pow2_pos(v); lemma_pow2_unfold(w);
        let p = pow2(v);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(x as int, p as int, 2);
        assert(p * 2 == 2 * p);
    }
}
/// the bits of a constant are its value in two's complement
pub proof fn lemma_const_bits(x: nat, w: nat)
    requires x < pow2(w),
    ensures sval(const_bits(x, w)) == x,
{
    let s = const_bits(x, w);
    assert(s.drop_last() =~= Seq::new(w, |i: int| nbit(x, i as nat)));
    lemma_nbits(x, w);
    assert(x % pow2(w) == x) by (nonlinear_arith) requires x < pow2(w);
    assert(!s.last()); assert(0 * p2(w) == 0 && 0 * p2(w + 1) == 0);
    assert(uval(s) == uval(s.drop_last()) + b2i(s.last()) * p2((s.len() - 1) as nat));
}
'''
NEXT = '''old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().skip(1),
    old(self).rest().len() == 0 ==> r is None && final(self).rest() =~= old(self).rest()'''
BACK = '''old(self).rest().len() > 0 ==> r == Some(old(self).rest().last()) && final(self).rest() =~= old(self).rest().drop_last(),
    old(self).rest().len() == 0 ==> r is None && final(self).rest() =~= old(self).rest()'''
HINT = 'self.rest().len() <= usize::MAX ==> r.0 == self.rest().len() && r.1 == Some(r.0)'
def build(u):
    u.add(PRE + NUM + RANGE)
    bits(u)
G = 'let ghost vx_x = self.x@; let ghost vx_w = self.width as nat;'
SELF = ('type', 'Option < Self :: Item >', 'Option<Bit>')
def bits(u):
    u.item(LIB, 'struct', 'IntVarBits', prefix='pub ', rules=[('type', '( Range', '(pub Range')])
    u.item(LIB, 'struct', 'ConstantBits', prefix='pub ', rules=[('type', 'bits :', 'pub bits :'), ('type', 'width :', 'pub width :'), ('type', ', x :', ', pub x :')])
    from_bit(u)
    u.add(SPEC)
    u.add('impl IntVarBits {')
    mk = ('ghost', '| bit | Bit ( Either :: Right ( BoolVariable ( bit ) ) )', '|bit «: NonZeroU64»| «-> (q: Bit) ensures q == Bit(Either::Right(BoolVariable(bit))) {» Bit(Either::Right(BoolVariable(bit))) «}»')
    u.fn(LIB, 'Iterator for IntVarBits::next', ret='r', requires='old(self).0.start > 0', ensures=NEXT, rules=[SELF, mk])
    u.fn(LIB, 'DoubleEndedIterator for IntVarBits::next_back', ret='r', requires='old(self).0.start > 0', ensures=BACK, rules=[SELF, mk])
    u.fn(LIB, 'Iterator for IntVarBits::size_hint', ret='r', ensures=HINT)
    u.add('}\nimpl ConstantBits {')
    cb = [SELF, ('ghost', '| bit | { $b }', '|bit «: usize»| «-> (q: bool) ensures q == cbit(vx_x, vx_w, bit as int)» { $b }'),
          ('ghost', '| bit | Bit ( Either :: Left ( bit ) )', '|bit «: bool»| «-> (q: Bit) ensures q == Bit(Either::Left(bit)) {» Bit(Either::Left(bit)) «}»')]
    u.fn(LIB, 'ConstantBits::new', ret='r', ensures='sval(const_bits(x@, r.width as nat)) == x@, r.rest() =~= cseq(const_bits(x@, r.width as nat)), r.x == x, r.width < 0x1000_0000_0000_0000',
         rules=[('desugar', '0 .. $a + 1', 'Range { start: 0, end: $a + 1 }'), ('ghost', 'let width = x . bits ( ) as usize ;', 'let width = x.bits() as usize; «proof { lemma_const_bits(x@, width as nat); }»')])
    u.fn(LIB, 'Iterator for ConstantBits::next', ret='r', ensures=NEXT, rules=cb, pre=G)
    u.fn(LIB, 'DoubleEndedIterator for ConstantBits::next_back', ret='r', ensures=BACK, rules=cb, pre=G)
    u.fn(LIB, 'Iterator for ConstantBits::size_hint', ret='r', ensures=HINT)
    u.add('}')
