"""The operations of the encoder on integer terms, cached (E01, E02, E03, E04): the term returned stands for the result
of the operation under every assignment that satisfies the constraints collected so far."""
import re, os
from ea_common import *
from u_adder import adder
import u_bits, u_plus, vx
OPS = r'''
pub mod anyhow { pub type Result<T> = core::result::Result<T, super::Error>; }
/// integer terms the encoder knows the bits of; anything else is refused by the encoder
pub open spec fn known(m: Map<IntVariable, (BoolVariable, u64)>, t: Reduced) -> bool {
    match t { Reduced::Variable(Variable::Int(v)) => m.dom().contains(v), Reduced::Variable(Variable::Bv(_)) => false, Reduced::Constant(Constant::Binary(_)) => false, _ => true }
}
pub open spec fn is_num(t: Reduced) -> bool { t is Variable && t->Variable_0 is Int || t is Constant && t->Constant_0 is Numeral }
pub type Bits = Map<IntVariable, (BoolVariable, u64)>;
pub open spec fn cached(m: Bits, implied: Seq<Reduced>, n: int, op: BasicOp, t: Reduced) -> bool {
    match op {
        BasicOp::Plus(l, r) => known(m, l) && known(m, r) && known(m, t) && forall|a: Asg| sat(implied, a) ==> #[trigger] num(m, t, a) == num(m, l, a) + num(m, r, a),
        BasicOp::Minus(l, r) => known(m, l) && known(m, r) && known(m, t) && forall|a: Asg| sat(implied, a) ==> #[trigger] num(m, t, a) == num(m, l, a) - num(m, r, a),
        BasicOp::Gte(l, r) => known(m, l) && known(m, r) && t.dep(n) && forall|a: Asg| #[trigger] t.val(a) == (num(m, l, a) >= num(m, r, a)),
    }
}
impl Encoder {
    pub open spec fn good(&self) -> bool {
        self.wf() && forall|op: BasicOp| #[trigger] self.encoded@.dom().contains(op) ==> cached(self.bit_vars@, self.implied@, self.next(), op, self.encoded@[op])
    }
    pub open spec fn has_bv(&self, t: Reduced) -> bool {
        match t { Reduced::Variable(Variable::Bv(v)) => self.bv_bit_vars@.dom().contains(v), Reduced::Variable(Variable::Int(_)) => false, Reduced::Constant(Constant::Numeral(_)) => false, _ => true }
    }
    pub open spec fn bv(&self, t: Reduced) -> Seq<Bit> {
        match t { Reduced::Variable(Variable::Bv(v)) => bits_of(self.bv_bit_vars@[v]), Reduced::Constant(Constant::Binary(b)) => b@.reverse().map_values(|b: bool| Bit(Either::Left(b))), _ => Seq::empty() }
    }
    pub open spec fn has(&self, t: Reduced) -> bool { known(self.bit_vars@, t) }
    pub open spec fn num(&self, t: Reduced, a: Asg) -> int { num(self.bit_vars@, t, a) }
}
pub proof fn lemma_num_dep(e: &Encoder, t: Reduced)
    requires e.wf(), e.has(t),
    ensures forall|a: Asg, b: Asg| #[trigger] agree(a, b, e.next()) ==> e.num(t, a) == e.num(t, b),
{
    reveal(Encoder::wf);
    assert forall|a: Asg, b: Asg| #[trigger] agree(a, b, e.next()) implies e.num(t, a) == e.num(t, b) by {
        if let Reduced::Variable(Variable::Int(v)) = t { assert(bvals(bits_of(e.bit_vars@[v]), a) =~= bvals(bits_of(e.bit_vars@[v]), b)); }
    }
}
/// what is known stays known when the encoder goes on
pub proof fn lemma_keeps(o: &Encoder, e: &Encoder)
    requires o.good(), e.wf(), e.grows(o), e.encoded == o.encoded,
    ensures e.good(), forall|t: Reduced| #[trigger] o.has(t) ==> e.has(t) && forall|a: Asg| #[trigger] num(e.bit_vars@, t, a) == num(o.bit_vars@, t, a),
        forall|a: Asg| #[trigger] sat(e.implied@, a) ==> sat(o.implied@, a),
{
    reveal(Encoder::grows);
    assert forall|a: Asg| #[trigger] sat(e.implied@, a) implies sat(o.implied@, a) by {
        assert forall|i: int| 0 <= i < o.implied@.len() implies (#[trigger] o.implied@[i]).val(a) by { assert(o.implied@[i] == e.implied@[i]); } }
    assert forall|op: BasicOp| #[trigger] e.encoded@.dom().contains(op) implies cached(e.bit_vars@, e.implied@, e.next(), op, e.encoded@[op]) by {
        assert(cached(o.bit_vars@, o.implied@, o.next(), op, o.encoded@[op]));
        let t = e.encoded@[op];
        match op {
            BasicOp::Plus(l, r) => { assert forall|a: Asg| sat(e.implied@, a) implies #[trigger] num(e.bit_vars@, t, a) == num(e.bit_vars@, l, a) + num(e.bit_vars@, r, a) by { assert(o.num(t, a) == e.num(t, a)); } }
            BasicOp::Minus(l, r) => { assert forall|a: Asg| sat(e.implied@, a) implies #[trigger] num(e.bit_vars@, t, a) == num(e.bit_vars@, l, a) - num(e.bit_vars@, r, a) by { assert(o.num(t, a) == e.num(t, a)); } }
            BasicOp::Gte(l, r) => { lemma_dep(t, o.next(), e.next()); }
        }
    }
}
pub proof fn lemma_inserted(o: &Encoder, e: &Encoder, f: &Encoder, op: BasicOp, t: Reduced)
    requires e.good(), e.grows(o), *f == (Encoder { encoded: f.encoded, ..*e }), f.encoded@ == e.encoded@.insert(op, t), cached(e.bit_vars@, e.implied@, e.next(), op, t),
    ensures f.good(), f.grows(o),
{ reveal(Encoder::wf); reveal(Encoder::grows); }
pub proof fn lemma_same(e: &Encoder) ensures e.grows(e)
{ reveal(Encoder::grows); assert forall|a: Asg| sat(e.implied@, a) implies exists|b: Asg| #[trigger] agree(a, b, e.next()) && sat(e.implied@, b) by { assert(agree(a, a, e.next())); } }
/// assumed: `bits.iter().rev().copied().map_into()` are the bits from the last to the first
#[verifier::external_body]
pub fn vx_iter_b(b: &Vec<bool>) -> (r: It<Bit>) ensures r@ == b@.reverse().map_values(|b: bool| Bit(Either::Left(b))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) ensures false { unimplemented!() }
pub proof fn lemma_cseq(s: Seq<bool>) ensures forall|a: Asg| #[trigger] bvals(cseq(s), a) == s, forall|n: int| #[trigger] bits_dep(cseq(s), n)
{ assert forall|a: Asg| #[trigger] bvals(cseq(s), a) == s by { assert(bvals(cseq(s), a) =~= s); } }
// ------------------------------------------------------------- comparison
pub proof fn lemma_uval(s: Seq<bool>) ensures 0 <= uval(s) < p2(s.len()), decreases s.len()
{
    lemma_p2(0);
    if s.len() > 0 {
        let m = (s.len() - 1) as nat;
        lemma_uval(s.drop_last()); lemma_p2(m);
        let (p, b) = (p2(m), b2i(s.last()));
        assert(b * p == 0 || b * p == p) by (nonlinear_arith) requires b == 0 || b == 1;
    }
}
pub proof fn lemma_uge(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), s.len() > 0,
    ensures (uval(s) >= uval(t)) == (s.last() && !t.last() || s.last() == t.last() && uval(s.drop_last()) >= uval(t.drop_last())),
{
    let p = p2((s.len() - 1) as nat);
    lemma_uval(s.drop_last()); lemma_uval(t.drop_last());
    assert(uval(s) == uval(s.drop_last()) + b2i(s.last()) * p); assert(uval(t) == uval(t.drop_last()) + b2i(t.last()) * p);
}
pub proof fn lemma_sge(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), s.len() > 0,
    ensures (sval(s) >= sval(t)) == (!s.last() && t.last() || s.last() == t.last() && uval(s.drop_last()) >= uval(t.drop_last())),
{
    let m = (s.len() - 1) as nat; let p = p2(m);
    lemma_p2(m); lemma_uval(s.drop_last()); lemma_uval(t.drop_last());
    assert(uval(s) == uval(s.drop_last()) + b2i(s.last()) * p); assert(uval(t) == uval(t.drop_last()) + b2i(t.last()) * p);
    assert(m + 1 == s.len());
    let q = p2(s.len());
    assert(q == 2 * p);
    let (x, y) = (b2i(s.last()), b2i(t.last()));
    assert(sval(s) == uval(s) - x * q && sval(t) == uval(t) - y * q);
    assert(x * q == (if s.last() { q } else { 0 }) && y * q == (if t.last() { q } else { 0 })) by (nonlinear_arith) requires x == b2i(s.last()), y == b2i(t.last());
    assert(x * p == (if s.last() { p } else { 0 }) && y * p == (if t.last() { p } else { 0 })) by (nonlinear_arith) requires x == b2i(s.last()), y == b2i(t.last());
}
pub proof fn lemma_seq(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(),
    ensures (uval(s) == uval(t)) == (s =~= t),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = p2((s.len() - 1) as nat);
        lemma_uval(s.drop_last()); lemma_uval(t.drop_last()); lemma_seq(s.drop_last(), t.drop_last());
        assert(uval(s) == uval(s.drop_last()) + b2i(s.last()) * p); assert(uval(t) == uval(t.drop_last()) + b2i(t.last()) * p);
        if uval(s) == uval(t) { assert(s.last() == t.last()); assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); }
    }
}
pub proof fn lemma_sval_eq(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), s.len() > 0,
    ensures (sval(s) == sval(t)) == (s =~= t),
{
    lemma_sge(s, t); lemma_sge(t, s); lemma_seq(s.drop_last(), t.drop_last());
    if sval(s) == sval(t) { assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); }
}
pub proof fn lemma_not_num(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> t[i] == !#[trigger] s[i],
    ensures uval(t) == p2(s.len()) - 1 - uval(s), s.len() > 0 ==> sval(t) == -1 - sval(s),
    decreases s.len(),
{
    lemma_p2(0);
    if s.len() > 0 {
        let m = (s.len() - 1) as nat; let p = p2(m);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies t.drop_last()[i] == !#[trigger] s.drop_last()[i] by { assert(t[i] == !s[i]); }
        lemma_not_num(s.drop_last(), t.drop_last());
        lemma_p2(m); assert(m + 1 == s.len());
        let q = p2(s.len()); let (x, y) = (b2i(s.last()), b2i(t.last()));
        assert(t[s.len() - 1] == !s[s.len() - 1]);
        assert(x + y == 1);
        assert(uval(s) == uval(s.drop_last()) + x * p); assert(uval(t) == uval(t.drop_last()) + y * p);
        assert(x * p + y * p == p && x * q + y * q == q) by (nonlinear_arith) requires x + y == 1;
    }
}
pub proof fn lemma_not(s: Seq<Reduced>, t: Seq<Reduced>, n: int)
    requires s.len() == t.len(), s.len() > 0, deps(s, n), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == t_not(s[i]),
    ensures deps(t, n), forall|a: Asg| #[trigger] sval(vals(t, a)) == -1 - sval(vals(s, a)),
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).dep(n) by { assert(s[i].dep(n)); assert(t[i] == t_not(s[i])); }
    assert forall|a: Asg| #[trigger] sval(vals(t, a)) == -1 - sval(vals(s, a)) by {
        assert forall|i: int| 0 <= i < s.len() implies vals(t, a)[i] == !#[trigger] vals(s, a)[i] by { assert(t[i] == t_not(s[i])); }
        lemma_not_num(vals(s, a), vals(t, a));
    }
}
pub open spec fn firsts(s: Seq<(Reduced, Reduced)>, a: Asg) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i].0.val(a)) }
pub open spec fn seconds(s: Seq<(Reduced, Reduced)>, a: Asg) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i].1.val(a)) }
'''
OPS += r'''
pub open spec fn zip_of(x: Seq<Bit>, y: Seq<Bit>, n: nat, k: int) -> (Bit, Bit) { (ext(x, n)[k], ext(y, n)[k]) }
pub proof fn lemma_zip(x: Seq<Bit>, y: Seq<Bit>, s: Seq<(Reduced, Reduced)>)
    requires x.len() > 0, y.len() > 0, s.len() == max(x.len(), y.len()), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == (ext(x, s.len())[k].term(), ext(y, s.len())[k].term()),
    ensures forall|a: Asg| #[trigger] sval(firsts(s, a)) == sval(bvals(x, a)), forall|a: Asg| #[trigger] sval(seconds(s, a)) == sval(bvals(y, a)),
{
    assert forall|a: Asg| #[trigger] sval(firsts(s, a)) == sval(bvals(x, a)) by {
        assert forall|k: int| 0 <= k < s.len() implies firsts(s, a)[k] == ext(bvals(x, a), s.len())[k] by { assert(s[k].0 == ext(x, s.len())[k].term()); }
        assert(firsts(s, a) =~= ext(bvals(x, a), s.len())); lemma_ext(bvals(x, a), s.len()); }
    assert forall|a: Asg| #[trigger] sval(seconds(s, a)) == sval(bvals(y, a)) by {
        assert forall|k: int| 0 <= k < s.len() implies seconds(s, a)[k] == ext(bvals(y, a), s.len())[k] by { assert(s[k].1 == ext(y, s.len())[k].term()); }
        assert(seconds(s, a) =~= ext(bvals(y, a), s.len())); lemma_ext(bvals(y, a), s.len()); }
}
pub open spec fn gte_by(s: Seq<(Reduced, Reduced)>, a: Asg, rest: bool) -> bool {
    !s.last().0.val(a) && s.last().1.val(a) || s.last().0.val(a) == s.last().1.val(a) && rest
}
pub proof fn lemma_zipped(x: Seq<Bit>, y: Seq<Bit>)
    requires true,
    ensures x.len() == y.len() ==> forall|s: Seq<(Reduced, Reduced)>, a: Asg| s == zipped(x.map_values(|b: Bit| b.term()), y.map_values(|b: Bit| b.term())) ==> #[trigger] firsts(s, a) == bvals(x, a) && seconds(s, a) == bvals(y, a),
{
    if x.len() == y.len() {
        assert forall|s: Seq<(Reduced, Reduced)>, a: Asg| s == zipped(x.map_values(|b: Bit| b.term()), y.map_values(|b: Bit| b.term())) implies #[trigger] firsts(s, a) == bvals(x, a) && seconds(s, a) == bvals(y, a) by {
            assert(firsts(s, a) =~= bvals(x, a)); assert(seconds(s, a) =~= bvals(y, a)); }
    }
}
pub proof fn lemma_gte1(s: Seq<(Reduced, Reduced)>, t: Seq<(Reduced, Reduced)>, a: Asg)
    requires s.len() > 0, t == s.drop_last(),
    ensures (sval(firsts(s, a)) >= sval(seconds(s, a))) == gte_by(s, a, uval(firsts(t, a)) >= uval(seconds(t, a))),
{
    lemma_sge(firsts(s, a), seconds(s, a));
    assert(firsts(s, a).drop_last() =~= firsts(t, a)); assert(seconds(s, a).drop_last() =~= seconds(t, a));
    assert(firsts(s, a).last() == s.last().0.val(a)); assert(seconds(s, a).last() == s.last().1.val(a));
}
pub proof fn lemma_gte(s: Seq<(Reduced, Reduced)>)
    requires s.len() > 0,
    ensures forall|a: Asg| (sval(firsts(s, a)) >= sval(seconds(s, a))) == gte_by(s, a, uval(#[trigger] firsts(s.drop_last(), a)) >= uval(seconds(s.drop_last(), a))),
{
    let t = s.drop_last();
    assert forall|a: Asg| (sval(firsts(s, a)) >= sval(seconds(s, a))) == gte_by(s, a, uval(#[trigger] firsts(t, a)) >= uval(seconds(t, a))) by { lemma_gte1(s, t, a); }
}
pub proof fn lemma_eq(x: Seq<Bit>, y: Seq<Bit>, s: Seq<Reduced>)
    requires x.len() > 0, y.len() > 0, s.len() == max(x.len(), y.len()),
        forall|k: int, a: Asg| 0 <= k < s.len() ==> (#[trigger] s[k].val(a)) == (ext(x, s.len())[k].val(a) == ext(y, s.len())[k].val(a)),
    ensures forall|a: Asg| #[trigger] and_all(s, a) == (sval(bvals(x, a)) == sval(bvals(y, a))),
{
    assert forall|a: Asg| #[trigger] and_all(s, a) == (sval(bvals(x, a)) == sval(bvals(y, a))) by {
        let (xs, ys) = (ext(bvals(x, a), s.len()), ext(bvals(y, a), s.len()));
        lemma_ext(bvals(x, a), s.len()); lemma_ext(bvals(y, a), s.len());
        lemma_sval_eq(xs, ys);
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).val(a) == (xs[k] == ys[k]) by {}
        if and_all(s, a) { assert(xs =~= ys) by { assert forall|k: int| 0 <= k < s.len() implies xs[k] == ys[k] by { assert(s[k].val(a)); } } }
        if xs =~= ys { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).val(a) by {} }
    }
}
'''
def macro_rule():
    """`encode_bitwise_op!` expanded by its own definition in the source"""
    src = open(os.path.join(vx.REPO, ENC), encoding='utf-8').read()
    m = re.search(r'macro_rules! encode_bitwise_op \{\s*\((.*?)\)\s*=>\s*\{\{', src, re.S)
    if not m: raise vx.LostAnchor('macro encode_bitwise_op')
    pat = m.group(1)
    i, d = m.end(), 2
    j = i
    while d:
        if src[j] == '{': d += 1
        if src[j] == '}': d -= 1
        j += 1
    body = src[i:j - 2]
    names = re.findall(r'\$(\w+):\w+', pat)
    find = re.sub(r'\$\(,\)\?', '', pat)
    find = re.sub(r'\$(\w+):ident', r'$\1:id', find); find = re.sub(r'\$(\w+):expr', r'$\1', find)
    body = re.sub(r'#\[[^\]]*\]', '', body)
    return [('desugar', 'encode_bitwise_op ! ( %s %s )' % (find, comma), '{' + body + '}', '*') for comma in (',', '')]
def num_ops():
    r = []
    for o, f in (('>=', 'ge'), ('<=', 'le'), ('>', 'gt'), ('<', 'lt'), ('==', 'eq'), ('!=', 'ne')):
        r.append(('desugar', '( $a:id %s $b:id ) . into ( )' % o, 'Reduced::from(vx_%s($a, $b))' % f, '*'))
        r.append(('desugar', 'if $a:id %s $b:id {' % o, 'if vx_%s($a, $b) {' % f, '*'))
    for o, f in (('+', 'add'), ('-', 'sub'), ('*', 'mul')):
        r.append(('desugar', 'Constant :: Numeral ( $a:id %s $b:id ) . into ( )' % o, 'Reduced::Constant(Constant::Numeral(vx_%s($a, $b)))' % f, '*'))
    return r
START = 'proof { lemma_same(self); }'
def op_rules():
    return macro_rule() + [
        ('desugar', '{ ( || { $b ; Ok ( t ) } ) ( ) } . with_context ( $m ) ?', '{ $b; t }', '*'),
        ('desugar', '{ ( || { $b ; Ok ( t ) } ) ( ) } ?', '{ $b; t }', '*'),
        ('desugar', '( || { $b ; Ok ( t ) } ) ( )', '{ $b; Ok(t) }', '*'),
        ('desugar', 'bail ! ( $m )', 'return vx_err()', '*'),
        ('ghost', 'self . encoded . insert ( $k , $v ) ;', '«let ghost vx_k = $k; let ghost vx_e = *self; proof { lemma_keeps(old(self), self); }» self . encoded . insert ( $k , $v ) ; «proof { lemma_inserted(old(self), &vx_e, self, vx_k, encoded); }»', '*'),
        ('type', 'Term :: Variable', 'Reduced::Variable', '*'), ('type', 'Term :: Constant', 'Reduced::Constant', '*'),
        ('desugar', '$x:id . as_ref ( )', '$x', '*'), ('desugar', '. map_into ( )', '. vx_terms()', '*'),
        ('desugar', 'Constant :: Numeral ( $n:tt . into ( ) ) . into ( )', 'Reduced::Constant(Constant::Numeral(vx_num($n)))', '*'),
    ] + num_ops() + u_plus.SIGN
KEEP = 'final(self).good(), final(self).grows(old(self))'
PARAMS = 'old(self).good(), old(self).has(l), old(self).has(r), old(self).next_int_var < u64::MAX'
RES = [('type', "It < Bit > + '_", 'It<Bit>', '*'), ('desugar', 'bail ! ( $m )', 'return vx_err()', '*'),
       ('desugar', 'Either :: Left ( $x ) )', '$x)', '*'), ('desugar', 'Either :: Right ( $x ) )', '$x)', '*')]
def ops(u):
    u.fn(ENC, 'Encoder::encode_unsigned_gte_bitwise', ret='r', rules=u_plus.SIGN + [
        ('type', 'impl Iterator < Item = ( Reduced , Reduced ) >', 'It<(Reduced, Reduced)>'),
        ('desugar', '$i:id . fold ( None , | $acc:id , ( $x:id , $y:id ) | { $b } ) . unwrap_or_else ( || $d )',
         '''let mut vx_acc: Option<Reduced> = None; let mut vx_it = $i; «let ghost mut vx_k: int = 0; let ghost vx_s = vx_it@;»
            loop invariant 0 <= vx_k <= vx_s.len(), vx_it@ == vx_s.skip(vx_k), vx_acc is Some == (vx_k > 0),
                    vx_acc is Some ==> forall|a: Asg| #[trigger] vx_acc->Some_0.val(a) == (uval(firsts(vx_s.take(vx_k), a)) >= uval(seconds(vx_s.take(vx_k), a))),
                ensures vx_k == vx_s.len(),
                decreases vx_s.len() - vx_k
            { match vx_it.next() { Some(($x, $y)) => { let $acc = vx_acc; vx_acc = { $b };
                «proof { assert forall|a: Asg| #[trigger] vx_acc->Some_0.val(a) == (uval(firsts(vx_s.take(vx_k + 1), a)) >= uval(seconds(vx_s.take(vx_k + 1), a))) by {
                    let (s, t) = (firsts(vx_s.take(vx_k + 1), a), seconds(vx_s.take(vx_k + 1), a));
                    assert(s.drop_last() =~= firsts(vx_s.take(vx_k), a)); assert(t.drop_last() =~= seconds(vx_s.take(vx_k), a));
                    lemma_uge(s, t); }
                  vx_k = vx_k + 1; }» } None => { break; } } }
            «proof { assert(vx_s.take(vx_k) =~= vx_s); }» match vx_acc { Some(vx_v) => vx_v, None => $d }''')],
        ensures='forall|a: Asg| #[trigger] r.val(a) == (uval(firsts(bits@, a)) >= uval(seconds(bits@, a)))')
    # the bits of a term
    u.fn(ENC, 'Encoder::bit_vec_bits', ret='r', requires='self.wf()', pre='proof { reveal(Encoder::wf); }', ensures='self.bv_bit_vars@.dom().contains(*v), r@ == bits_of(self.bv_bit_vars@[*v])',
         rules=u_plus.IT + [('desugar', 'let ( BoolVariable ( start ) , width ) = self . bv_bit_vars [ $v ]', 'let (BoolVariable(start), width) = *self.bv_bit_vars.vx_index($v)'),
                     ('desugar', 'IntVarBits ( $a .. $b )', 'vx_iter_v(IntVarBits(Range { start: $a, end: $b }))')])
    u.fn(ENC, 'Encoder::int_const_bits', ret='r', ensures='forall|a: Asg| #[trigger] sval(bvals(r@, a)) == x@, r@.len() > 0, r@.len() < u64::MAX, forall|n: int| #[trigger] bits_dep(r@, n)',
         rules=u_plus.IT + [('desugar', 'ConstantBits :: new ( $x )', '{ let vx_b = ConstantBits::new($x); «proof { lemma_cseq(const_bits(x@, vx_b.width as nat)); }» vx_iter_c(vx_b) }')])
    u.fn(ENC, 'Encoder::variable_bits', ret='r', requires='self.wf()', pre='proof { reveal(Encoder::wf); }', rules=u_plus.IT + RES,
         ensures="""*var matches Variable::Int(v) ==> r is Ok && self.bit_vars@.dom().contains(v) && r->Ok_0@ == bits_of(self.bit_vars@[v]) && r->Ok_0@.len() > 0 && r->Ok_0@.len() < u64::MAX && bits_dep(r->Ok_0@, self.next()),
            *var matches Variable::Bv(v) ==> r is Ok && self.bv_bit_vars@.dom().contains(v) && r->Ok_0@ == bits_of(self.bv_bit_vars@[v]),
            var is Bool ==> r is Err""")
    u.fn(ENC, 'Encoder::constant_bits', ret='r', rules=u_plus.IT + RES + [('desugar', '$b:id . iter ( ) . rev ( ) . copied ( ) . map_into ( )', 'vx_iter_b($b)'), ('desugar', 'todo ! ( $m )', 'vx_panic()')],
         ensures="""*c matches Constant::Numeral(n) ==> r is Ok && r->Ok_0@.len() > 0 && r->Ok_0@.len() < u64::MAX && (forall|n: int| #[trigger] bits_dep(r->Ok_0@, n)) && forall|a: Asg| #[trigger] sval(bvals(r->Ok_0@, a)) == n@,
            *c matches Constant::Binary(b) ==> r is Ok && r->Ok_0@ == b@.reverse().map_values(|b: bool| Bit(Either::Left(b))),
            !(c is Numeral) && !(c is Binary) ==> r is Err""")
    ENS = 'final(self).good(), final(self).grows(old(self)), res matches Ok(t) ==> final(self).has(t)'
    u.fn(ENC, 'Encoder::encode_plus', ret='res', rules=op_rules() + [
        ('desugar', '( $o ) . or_else ( || $e )', '(match $o { Some(vx_v) => Some(vx_v), None => $e })', '*')],
        requires=PARAMS, pre=START, ensures=ENS + ' && forall|a: Asg| sat(final(self).implied@, a) ==> #[trigger] final(self).num(t, a) == old(self).num(l, a) + old(self).num(r, a)')
    minus_ens = (' && forall|a: Asg| sat(final(self).implied@, a) ==> #[trigger] final(self).num(t, a) == %s')
    u.fn(ENC, 'Encoder::encode_minus', ret='res', rules=[('desugar', 'fn minus ( $a ) -> Reduced { $b }', '')] + op_rules() + [
        ('desugar', 'if $a:id >= $b:id {', 'if vx_ge($a, $b) {', '*'), ('desugar', 'Self :: int_const_bits ( $x ) . vx_terms ( )', 'Self::int_const_bits($x).vx_terms()', '*')],
        requires=PARAMS, pre=START, ensures=ENS + minus_ens % 'old(self).num(l, a) - old(self).num(r, a)')
    u.fn(ENC, 'Encoder::encode_neg', ret='res', rules=op_rules(), requires=PARAMS.replace('old(self).has(l), ', '').replace('has(r)', 'has(x)'),
         ensures=ENS + minus_ens % '- old(self).num(x, a)')
    u.fn(ENC, 'Encoder::encode_gte', ret='res', rules=op_rules() + PAIRS, requires=PARAMS, pre=START + ' proof { lemma_num_dep(self, l); lemma_num_dep(self, r); }',
         ensures="""final(self).good(), final(self).grows(old(self)), final(self).implied == old(self).implied,
            res matches Ok(t) ==> t.dep(final(self).next()) && forall|a: Asg| #[trigger] t.val(a) == (old(self).num(l, a) >= old(self).num(r, a))""")
    u.fn(ENC, 'Encoder::encode_eq', ret='res', rules=op_rules() + PAIRS, requires=PARAMS, pre=START + ' proof { lemma_num_dep(self, l); lemma_num_dep(self, r); }',
         ensures="""*final(self) == *old(self),
            res matches Ok(t) ==> t.dep(final(self).next()) && forall|a: Asg| #[trigger] t.val(a) == (old(self).num(l, a) == old(self).num(r, a))""")
    u.fn(ENC, 'Encoder::encode_bvuge', ret='res', rules=op_rules(), requires='old(self).wf(), old(self).has_bv(l), old(self).has_bv(r)',
         ensures="""*final(self) == *old(self),
            res matches Ok(t) ==> old(self).bv(l).len() == old(self).bv(r).len() ==> forall|a: Asg| #[trigger] t.val(a) == (uval(bvals(old(self).bv(l), a)) >= uval(bvals(old(self).bv(r), a)))""",
         pre='proof { lemma_zipped(self.bv(l), self.bv(r)); }')
def minus(u):
    u.fn(ENC, 'Encoder::encode_minus/minus', ret='res', rules=u_plus.IT + [
        ('ghost', 'let r = r . map ( | bit | ! bit ) ;', 'let r = r.map(|bit «: Reduced»| «-> (q: Reduced) ensures q == t_not(bit) {» !bit «}»); «proof { lemma_not(vx_r, r@, encoder.next()); }»')],
        requires="""old(encoder).wf(), old(encoder).next_int_var < u64::MAX, l@.len() > 0, r@.len() > 0, l@.len() < u64::MAX, r@.len() < u64::MAX,
            deps(l@, old(encoder).next()), deps(r@, old(encoder).next())""", pre='let ghost vx_r = r@;',
        ensures="""final(encoder).wf(), final(encoder).grows(old(encoder)), final(encoder).same_but_bits(old(encoder)),
            res is Variable, res->Variable_0 is Int, final(encoder).bit_vars@.dom().contains(res->Variable_0->Int_0),
            forall|a: Asg| sat(final(encoder).implied@, a) ==> #[trigger] num(final(encoder).bit_vars@, res, a) == sval(vals(l@, a)) - sval(vals(r@, a))""")
PAIRS = [('ghost', '{ let mut bits = Self :: zip_bits ( $x:id , $y:id ) $m ; $s ; $t }', """{ «let ghost (vx_x, vx_y) = ($x@, $y@);» let mut bits = Self::zip_bits($x, $y) $m;
            «let ghost vx_b = bits@; let ghost vx_d = vx_b.drop_last(); proof { lemma_zip(vx_x, vx_y, vx_b); lemma_gte(vx_b); }» $s; «let vx_q: Reduced = {» $t «};
            proof { assert forall|a: Asg| #[trigger] vx_q.val(a) == gte_by(vx_b, a, uval(firsts(vx_d, a)) >= uval(seconds(vx_d, a))) by {} }
            vx_q» }""", '*'),
         ('ghost', 'let bits_eq = Self :: zip_bits ( $x:id , $y:id ) $m ;', '«let ghost (vx_x, vx_y) = ($x@, $y@);» let bits_eq = Self::zip_bits($x, $y) $m; «proof { lemma_eq(vx_x, vx_y, bits_eq@); }»', '*'),
         ('desugar', '. map ( | ( $x:id , $y:id ) | ( Reduced :: from ( $x2 ) , Reduced :: from ( $y2 ) ) )', '.map(|vx_p: (Bit, Bit)| «-> (q: (Reduced, Reduced)) ensures q == (vx_p.0.term(), vx_p.1.term())» { let ($x, $y) = vx_p; (Reduced::from($x2), Reduced::from($y2)) })', '*'),
         ('desugar', '. map ( | ( $x:id , $y:id ) | CoreOp :: Eq ( $e ) . into ( ) )', '.map(|vx_p: (Bit, Bit)| «-> (q: Reduced) ensures forall|a: Asg| #[trigger] q.val(a) == (vx_p.0.val(a) == vx_p.1.val(a))» { let ($x, $y) = vx_p; CoreOp::Eq($e).into() })', '*'),
         ('desugar', '. collect ( )', '. vx_collect ( )', '*'), ('desugar', '$b:id . next_back ( ) . expect ( $m )', 'vx_expect($b.next_back())', '*')]
def build(u):
    u_plus.encoder(u)
    u.add(OPS)
    adder(u)
    u.add('impl Encoder {')
    u_plus.alloc(u)
    u_plus.zip_bits(u)
    u_plus.plus(u)
    ops(u)
    u.add('}')
    minus(u)
