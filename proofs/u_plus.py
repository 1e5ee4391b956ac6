"""zip_bits and the bitwise sum: the introduced constraints force the sum and can always be met (E01, E02, E03, E08)."""
from ea_common import *
from u_adder import adder
import u_bits
ENCODER = r'''
#[verifier::external_body]
pub struct Ctx { x: () }
#[verifier::external_body]
pub struct ISymbol { x: () }
pub enum BasicOp { Plus(Reduced, Reduced), Minus(Reduced, Reduced), Gte(Reduced, Reduced) }
pub struct Error;
pub fn vx_err<T>() -> (r: Result<T, Error>) ensures r is Err { Err(Error) }
'''
STATE = r'''
pub open spec fn max(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn submap<K, V>(m: Map<K, V>, n: Map<K, V>) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> n.dom().contains(k) && m[k] == n[k] }
/// every term of the sequence holds
pub open spec fn sat(s: Seq<Reduced>, a: Asg) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val(a) }
pub open spec fn range_ok(r: (BoolVariable, u64), n: int) -> bool { r.0.0.v >= 1 && r.1 >= 1 && r.0.0.v + r.1 <= n }
pub open spec fn apart(r: (BoolVariable, u64), s: (BoolVariable, u64)) -> bool { r.0.0.v + r.1 <= s.0.0.v || s.0.0.v + s.1 <= r.0.0.v }
pub open spec fn bits_of(r: (BoolVariable, u64)) -> Seq<Bit> { var_bits(r.0.0.v as int, r.1 as nat) }
/// the number a term stands for
pub open spec fn num(m: Map<IntVariable, (BoolVariable, u64)>, t: Reduced, a: Asg) -> int {
    match t { Reduced::Variable(Variable::Int(v)) => sval(bvals(bits_of(m[v]), a)), Reduced::Constant(Constant::Numeral(n)) => n@ as int, _ => 0 }
}
impl Encoder {
    pub open spec fn next(&self) -> int { self.next_bool_var.v as int }
    /// every unknown has bits of its own, all allocated
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& self.next() >= 1
        &&& forall|v: IntVariable| #[trigger] self.bit_vars@.dom().contains(v) ==> v.0 < self.next_int_var && range_ok(self.bit_vars@[v], self.next())
        &&& forall|v: IVar| #[trigger] self.bv_bit_vars@.dom().contains(v) ==> range_ok(self.bv_bit_vars@[v], self.next())
        &&& forall|v: IntVariable, w: IntVariable| self.bit_vars@.dom().contains(v) && self.bit_vars@.dom().contains(w) && v != w ==> apart(#[trigger] self.bit_vars@[v], #[trigger] self.bit_vars@[w])
        &&& forall|v: IntVariable, w: IVar| self.bit_vars@.dom().contains(v) && self.bv_bit_vars@.dom().contains(w) ==> apart(#[trigger] self.bit_vars@[v], #[trigger] self.bv_bit_vars@[w])
        &&& forall|v: IVar, w: IVar| self.bv_bit_vars@.dom().contains(v) && self.bv_bit_vars@.dom().contains(w) && v != w ==> apart(#[trigger] self.bv_bit_vars@[v], #[trigger] self.bv_bit_vars@[w])
        &&& deps(self.implied@, self.next())
    }
    /// nothing else has changed
    pub open spec fn same_but_bits(&self, o: &Encoder) -> bool {
        self.bv_bit_vars == o.bv_bit_vars && self.var_map == o.var_map && self.encoded == o.encoded && self.var_bit_width_bounds == o.var_bit_width_bounds && self.context == o.context
    }
    /// what was there is still there, and the new constraints can be met without touching the old variables
    #[verifier::opaque]
    pub open spec fn grows(&self, o: &Encoder) -> bool {
        &&& o.implied@.is_prefix_of(self.implied@) && o.next() <= self.next()
        &&& submap(o.bit_vars@, self.bit_vars@) && self.bv_bit_vars == o.bv_bit_vars && self.var_map == o.var_map
        &&& forall|a: Asg| sat(o.implied@, a) ==> exists|b: Asg| #[trigger] agree(a, b, o.next()) && sat(self.implied@, b)
    }
}
pub proof fn lemma_first(e: &Encoder) requires e.wf(), ensures e.next() >= 1 { reveal(Encoder::wf); }
pub proof fn lemma_deps(s: Seq<Reduced>, n: int) requires deps(s, n), ensures forall|m: int| m >= n ==> #[trigger] deps(s, m)
{ assert forall|m: int| m >= n implies #[trigger] deps(s, m) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).dep(m) by { lemma_dep(s[i], n, m); } } }
pub proof fn lemma_dep(t: Reduced, n: int, m: int) requires t.dep(n), n <= m, ensures t.dep(m)
{ assert forall|a: Asg, b: Asg| #[trigger] agree(a, b, m) implies t.val(a) == t.val(b) by { assert(agree(a, b, n)); } }
pub proof fn lemma_grows(x: &Encoder, y: &Encoder, z: &Encoder)
    requires y.grows(x), z.grows(y), ensures z.grows(x)
{
    reveal(Encoder::grows);
    assert(x.implied@ =~= z.implied@.take(x.implied@.len() as int));
    assert forall|a: Asg| sat(x.implied@, a) implies exists|b: Asg| #[trigger] agree(a, b, x.next()) && sat(z.implied@, b) by {
        let b = choose|b: Asg| #[trigger] agree(a, b, x.next()) && sat(y.implied@, b);
        let c = choose|c: Asg| #[trigger] agree(b, c, y.next()) && sat(z.implied@, c);
        assert forall|i: int| i < x.next() implies #[trigger] a(i) == c(i) by { assert(a(i) == b(i)); assert(b(i) == c(i)); }
        assert(agree(a, c, x.next()));
    }
}
'''
SUM = r'''
pub open spec fn maj(x: bool, y: bool, c: bool) -> bool { (x && y) || (x && c) || (y && c) }
/// the carry into column k
pub open spec fn carry(x: Seq<bool>, y: Seq<bool>, c: bool, k: int) -> bool decreases k { if k <= 0 { c } else { maj(x[k - 1], y[k - 1], carry(x, y, c, k - 1)) } }
pub open spec fn column(x: Seq<bool>, y: Seq<bool>, c: bool, k: int) -> bool { x[k] != (y[k] != carry(x, y, c, k)) }
pub open spec fn sign(x: Seq<bool>, y: Seq<bool>, c: bool) -> bool {
    let m = x.len() as int;
    if carry(x, y, c, m) != carry(x, y, c, m - 1) { carry(x, y, c, m) } else { column(x, y, c, m - 1) }
}
/// all the bits of the sum of two numbers of the same width
pub open spec fn sum_bit(x: Seq<bool>, y: Seq<bool>, c: bool, k: int) -> bool { if k < x.len() { column(x, y, c, k) } else { sign(x, y, c) } }
pub open spec fn sum_bits(x: Seq<bool>, y: Seq<bool>, c: bool) -> Seq<bool> { Seq::new(x.len() + 1, |k: int| sum_bit(x, y, c, k)) }
pub proof fn lemma_columns(x: Seq<bool>, y: Seq<bool>, c: bool, k: nat)
    requires x.len() == y.len(), k <= x.len(),
    ensures uval(Seq::new(k, |i: int| column(x, y, c, i))) + b2i(carry(x, y, c, k as int)) * p2(k) == uval(x.take(k as int)) + uval(y.take(k as int)) + b2i(c),
    decreases k,
{
    let s = Seq::new(k, |i: int| column(x, y, c, i));
    lemma_p2(0);
    assert(b2i(c) * 1 == b2i(c));
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_columns(x, y, c, j);
        assert(s.drop_last() =~= Seq::new(j, |i: int| column(x, y, c, i)));
        assert(x.take(k as int).drop_last() =~= x.take(j as int)); assert(y.take(k as int).drop_last() =~= y.take(j as int));
        lemma_p2(j);
        let p = p2(j); let (u, v, w) = (b2i(x[j as int]), b2i(y[j as int]), b2i(carry(x, y, c, j as int)));
        let (s1, c1) = (b2i(column(x, y, c, j as int)), b2i(carry(x, y, c, k as int)));
        assert(s1 + 2 * c1 == u + v + w);
        assert(uval(s) == uval(s.drop_last()) + s1 * p);
        let (xt, yt) = (x.take(k as int), y.take(k as int));
        assert(xt.last() == x[j as int] && yt.last() == y[j as int]);
        assert(uval(xt) == uval(xt.drop_last()) + u * p); assert(uval(yt) == uval(yt.drop_last()) + v * p);
        assert(s1 * p + c1 * (2 * p) == u * p + v * p + w * p) by (nonlinear_arith) requires s1 + 2 * c1 == u + v + w;
    }
}
/// in two's complement the bits are the sum, and it never overflows
pub proof fn lemma_sum(x: Seq<bool>, y: Seq<bool>, c: bool)
    requires x.len() == y.len(), x.len() >= 1,
    ensures sval(sum_bits(x, y, c)) == sval(x) + sval(y) + b2i(c),
{
    let m = x.len(); let s = sum_bits(x, y, c);
    lemma_columns(x, y, c, m);
    assert(x.take(m as int) =~= x); assert(y.take(m as int) =~= y);
    assert(s.drop_last() =~= Seq::new(m, |i: int| column(x, y, c, i)));
    lemma_p2(m);
    let (u, v) = (b2i(x[m - 1]), b2i(y[m - 1]));
    let (sb, cm) = (b2i(sign(x, y, c)), b2i(carry(x, y, c, m as int)));
    assert(carry(x, y, c, m as int) == maj(x[m - 1], y[m - 1], carry(x, y, c, m - 1)));
    assert(sb == u + v - cm);
    assert(s.last() == sign(x, y, c));
    let p = p2(m);
    assert(cm * p - u * p - v * p == sb * p - sb * (2 * p)) by (nonlinear_arith) requires sb == u + v - cm;
    assert(u * p == b2i(x.last()) * p2(x.len()));
}
pub proof fn lemma_carry_dep(x: Seq<Reduced>, y: Seq<Reduced>, c: Reduced, k: int, n: int, a: Asg, b: Asg)
    requires deps(x, n), deps(y, n), c.dep(n), agree(a, b, n), x.len() == y.len(), k <= x.len(),
    ensures carry(vals(x, a), vals(y, a), c.val(a), k) == carry(vals(x, b), vals(y, b), c.val(b), k),
    decreases k,
{
    if k > 0 { lemma_carry_dep(x, y, c, k - 1, n, a, b); assert(x[k - 1].dep(n)); assert(y[k - 1].dep(n)); }
}
pub proof fn lemma_vals(x: Seq<Reduced>, y: Seq<Reduced>, n: int, a: Asg, b: Asg)
    requires deps(x, n), agree(a, b, n),
    ensures vals(x, a) == vals(x, b),
{ assert forall|i: int| 0 <= i < x.len() implies vals(x, a)[i] == vals(x, b)[i] by { assert(x[i].dep(n)); } assert(vals(x, a) =~= vals(x, b)); }
/// what the constraints of a sum say: the bits from `first` on are the bits of the sum
pub open spec fn is_sum(x: Seq<Reduced>, y: Seq<Reduced>, c: Reduced, first: int, a: Asg) -> bool {
    forall|k: int| 0 <= k <= x.len() ==> a(first + k) == #[trigger] sum_bit(vals(x, a), vals(y, a), c.val(a), k)
}
pub proof fn lemma_sum_solution(x: Seq<Reduced>, y: Seq<Reduced>, c: Reduced, first: int, a: Asg) -> (b: Asg)
    requires deps(x, first), deps(y, first), c.dep(first), x.len() == y.len(),
    ensures agree(a, b, first), is_sum(x, y, c, first, b),
{
    let (xs, ys, cs) = (vals(x, a), vals(y, a), c.val(a));
    let b: Asg = |i: int| if i < first || i > first + x.len() { a(i) } else { sum_bit(xs, ys, cs, i - first) };
    assert(agree(a, b, first));
    lemma_vals(x, y, first, a, b); lemma_vals(y, x, first, a, b);
    assert(c.val(a) == c.val(b));
    b
}
'''
def encoder(u):
    u.add(PRE + NUM + RANGE + ITER + ENCODER)
    u_bits.bits(u)
    u.item(ENC, 'struct', 'Encoder', prefix='pub ', rules=[('type', 'HashMap <', 'VMap <', '*'), ('type', '$n:id :', 'pub $n:', '*')])
    u.add(r'''
/// assumed: the provided methods of Iterator produce what next() and next_back() produce, one after the other
#[verifier::external_body]
pub fn vx_iter_v(b: IntVarBits) -> (r: It<Bit>) requires b.0.start > 0, ensures r@ == b.rest() { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_c(b: ConstantBits) -> (r: It<Bit>) ensures r@ == b.rest() { unimplemented!() }
''' + STATE + SUM + PLUS_LEMMA)
PLUS_LEMMA = r'''
/// what constraint k says its bit is; the last one refers to the bit before
pub open spec fn said(xs: Seq<Reduced>, ys: Seq<Reduced>, c: Reduced, first: int, k: int, a: Asg) -> bool {
    let (x, y, v, n) = (vals(xs, a), vals(ys, a), c.val(a), xs.len() as int);
    if k < n { column(x, y, v, k) } else if carry(x, y, v, n) != carry(x, y, v, n - 1) { carry(x, y, v, n) } else { a(first + n - 1) }
}
/// the constraints of one sum: what they say, that they can be met, and which number the bits are
pub proof fn lemma_plus_done(o: &Encoder, e: &Encoder, sum: IntVariable, x: Seq<Reduced>, y: Seq<Reduced>, xs: Seq<Reduced>, ys: Seq<Reduced>, c: Reduced)
    requires o.wf(), x.len() > 0, y.len() > 0, xs == ext(x, max(x.len(), y.len())), ys == ext(y, max(x.len(), y.len())),
        deps(xs, o.next()), deps(ys, o.next()), c.dep(o.next()),
        !o.bit_vars@.dom().contains(sum), e.next_int_var == o.next_int_var + 1, sum.0 == o.next_int_var,
        e.bit_vars@ == o.bit_vars@.insert(sum, (BoolVariable(o.next_bool_var), (xs.len() + 1) as u64)), xs.len() + 1 <= u64::MAX,
        e.next() == o.next() + xs.len() + 1, e.same_but_bits(o),
        o.implied@.is_prefix_of(e.implied@), e.implied@.len() == o.implied@.len() + xs.len() + 1,
        forall|k: int, a: Asg| 0 <= k <= xs.len() ==> (#[trigger] e.implied@[o.implied@.len() + k].val(a)) == (a(o.next() + k) == said(xs, ys, c, o.next(), k, a)),
    ensures e.wf(), e.grows(o),
        forall|a: Asg| sat(e.implied@, a) ==> #[trigger] num(e.bit_vars@, Reduced::Variable(Variable::Int(sum)), a) == sval(vals(x, a)) + sval(vals(y, a)) + b2i(c.val(a)),
{
    reveal(Encoder::wf); reveal(Encoder::grows);
    let first = o.next(); let l = o.implied@.len(); let n = xs.len();
    lemma_deps(o.implied@, first);
    assert forall|i: int| 0 <= i < e.implied@.len() implies (#[trigger] e.implied@[i]).dep(e.next()) by {
        if i < l { assert(e.implied@[i] == o.implied@[i]); assert(deps(o.implied@, e.next())); }
        else {
            let k = i - l; let t = e.implied@[l + k];
            assert forall|a: Asg, b: Asg| #[trigger] agree(a, b, e.next()) implies t.val(a) == t.val(b) by {
                assert(agree(a, b, first));
                lemma_vals(xs, ys, first, a, b); lemma_vals(ys, xs, first, a, b);
                assert(a(first + k) == b(first + k));
                assert(a(first + n - 1) == b(first + n - 1));
                assert(t.val(a) == (a(first + k) == said(xs, ys, c, first, k, a)));
                assert(t.val(b) == (b(first + k) == said(xs, ys, c, first, k, b)));
            }
        }
    }
    assert forall|a: Asg| sat(o.implied@, a) implies exists|b: Asg| #[trigger] agree(a, b, first) && sat(e.implied@, b) by {
        let b = lemma_sum_solution(xs, ys, c, first, a);
        assert forall|i: int| 0 <= i < e.implied@.len() implies (#[trigger] e.implied@[i]).val(b) by {
            if i < l { assert(e.implied@[i] == o.implied@[i]); assert(o.implied@[i].dep(first)); assert(o.implied@[i].val(a)); }
            else { let k = i - l; assert(e.implied@[l + k].val(b) == (b(first + k) == said(xs, ys, c, first, k, b)));
                assert(b(first + k) == sum_bit(vals(xs, b), vals(ys, b), c.val(b), k)); assert(b(first + (n - 1)) == sum_bit(vals(xs, b), vals(ys, b), c.val(b), n - 1)); }
        }
        assert(sat(e.implied@, b));
    }
    assert forall|a: Asg| sat(e.implied@, a) implies #[trigger] num(e.bit_vars@, Reduced::Variable(Variable::Int(sum)), a) == sval(vals(x, a)) + sval(vals(y, a)) + b2i(c.val(a)) by {
        let s = sum_bits(vals(xs, a), vals(ys, a), c.val(a));
        let r = e.bit_vars@[sum];
        assert forall|k: int| 0 <= k < s.len() implies bvals(bits_of(r), a)[k] == s[k] by {
            assert(e.implied@[l + k].val(a)); assert(e.implied@[l + (n - 1)].val(a));
            assert(bits_of(r)[k] == vbit(first + k));
        }
        assert(bvals(bits_of(r), a) =~= s);
        lemma_sum(vals(xs, a), vals(ys, a), c.val(a));
        assert(vals(xs, a) =~= ext(vals(x, a), n)); assert(vals(ys, a) =~= ext(vals(y, a), n));
        lemma_ext(vals(x, a), n); lemma_ext(vals(y, a), n);
    }
}
'''
IT = [('type', 'impl Iterator < Item = $t:id > + DoubleEndedIterator + ExactSizeIterator + Clone', 'It<$t>', '*'),
      ('type', 'impl Iterator < Item = $t:id > + DoubleEndedIterator + ExactSizeIterator', 'It<$t>', '*'),
      ('type', 'impl Iterator < Item = $t:id > + ExactSizeIterator + DoubleEndedIterator', 'It<$t>', '*'),
      ('type', 'impl Iterator < Item = ( T , U ) > + ExactSizeIterator + DoubleEndedIterator', 'It<(T, U)>', '*')]
FRESH_INT = '''!old(self).bit_vars@.dom().contains(r), r.0 == old(self).next_int_var,
    final(self).bit_vars@ == old(self).bit_vars@.insert(r, (BoolVariable(old(self).next_bool_var), width)),
    final(self).next() == old(self).next() + width, final(self).implied == old(self).implied, final(self).next_int_var == old(self).next_int_var + 1,
    final(self).same_but_bits(old(self)), final(self).wf()'''
def alloc(u):
    u.fn(ENC, 'Encoder::advance_next_bool_var', requires='old(self).next() >= 1',
         ensures='*final(self) == (Encoder { next_bool_var: final(self).next_bool_var, ..*old(self) }), final(self).next() == old(self).next() + by',
         rules=[('desugar', '( $a . checked_add ( by ) ) . and_then ( NonZeroU64 :: new ) . expect ( $m )',
                 'vx_expect(match $a.checked_add(by) { Some(vx_n) => NonZeroU64::new(vx_n), None => None })')])
    u.fn(ENC, 'Encoder::new_bool_var', ret='r', requires='old(self).wf()', pre='proof { reveal(Encoder::wf); lemma_deps(self.implied@, self.next()); }',
         ensures='r.0.v == old(self).next(), final(self).next() == old(self).next() + 1, final(self).wf(), *final(self) == (Encoder { next_bool_var: final(self).next_bool_var, ..*old(self) })')
    u.fn(ENC, 'Encoder::new_int_var', ret='r', requires='old(self).wf(), width >= 1, old(self).next_int_var < u64::MAX', ensures=FRESH_INT, pre='proof { reveal(Encoder::wf); lemma_deps(self.implied@, self.next()); }',
         rules=[('desugar', 'debug_assert ! ( $c , $m ) ;', '', '*')])
    u.fn(ENC, 'Encoder::int_var_bits', ret='r', requires='self.wf()', pre='proof { reveal(Encoder::wf); }', ensures='self.bit_vars@.dom().contains(var), r@ == bits_of(self.bit_vars@[var])',
         rules=IT + [('desugar', 'let ( BoolVariable ( start ) , width ) = self . bit_vars [ & $v ]', 'let (BoolVariable(start), width) = *self.bit_vars.vx_index(&$v)'),
                     ('desugar', 'IntVarBits ( $a .. $b )', 'vx_iter_v(IntVarBits(Range { start: $a, end: $b }))')])

SIGN = [('desugar', 'args ! [ $a , $b , ]', 'vx_args2($a, $b)', '*'), ('desugar', 'args ! [ $a , $b ]', 'vx_args2($a, $b)', '*'), ('desugar', '[ $a , $b ] . into ( )', 'vx_args2($a, $b)', '*')]
ZIP = """
    x@.len() > 0 ==> y@.len() > 0 ==> r@.len() == max(x@.len(), y@.len()),
    forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (ext(x@, r@.len())[k], ext(y@, r@.len())[k])"""
def zip_bits(u):
    u.fn(ENC, 'Encoder::zip_bits', ret='r', requires='x@.len() > 0, y@.len() > 0', ensures=ZIP, rules=IT + [
        ('type', '$t:id : Clone + std :: fmt :: Debug', '$t: Copyable', '*'), ('desugar', 'use itertools :: EitherOrBoth :: * ;', '', '*'),
        ('desugar', 'Both ( $x:id , $y:id ) =>', 'EitherOrBoth::Both($x, $y) =>'), ('desugar', 'Left ( $x:id ) =>', 'EitherOrBoth::Left($x) =>'), ('desugar', 'Right ( $x:id ) =>', 'EitherOrBoth::Right($x) =>'),
        ('desugar', '$x:id . peek ( ) . unwrap ( ) . clone ( )', 'vx_expect($x.peek()).clone()', '*'),
        ('ghost', 'map ( move | x | match x { $b } )', """map(move |x «: EitherOrBoth<T, U>»| «-> (q: (T, U)) ensures q == (match x { EitherOrBoth::Both(x, y) => (x, y), EitherOrBoth::Left(x) => (x, vx_sy), EitherOrBoth::Right(y) => (vx_sx, y) }) {» match x { $b } «}» )""")],
        pre='let ghost vx_sx = x@.last(); let ghost vx_sy = y@.last(); proof { assert(x@.reverse().reverse() =~= x@); assert(y@.reverse().reverse() =~= y@); }')
def plus(u):
    u.fn(ENC, 'Encoder::encode_plus_bitwise', ret='r', rules=IT + SIGN + [
        ('desugar', 'debug_assert ! ( $c ) ;', '', '*'),
        ('ghost', 'let ( mut last_carry_in , mut msb ) =', 'let (mut last_carry_in, mut msb) «: (Reduced, Reduced)» ='),
        ('desugar', '. map ( Term :: from )', '. vx_terms()'),
        ('desugar', 'Term :: Variable ( Variable :: Int ( $v:id ) . into ( ) )', '«proof { let l = vx_old.len(); assert forall|k: int, a: Asg| 0 <= k <= vx_n implies (#[trigger] self.implied@[l + k].val(a)) == (a(first + k) == said(xs, ys, vx_carry, first, k, a)) by {} lemma_plus_done(old(self), self, sum, x@, y@, xs, ys, vx_carry); }» Reduced::Variable(Variable::Int($v))'),
        ('desugar', '$x:id . next ( ) . unwrap ( )', 'vx_expect($x.next())'),
        ('desugar', 'let carry_out = $z . zip ( & mut $s:id ) . fold ( $i:id , | $c:id , ( ( $x:id , $y:id ) , $t:id ) | { $b } ) ;',
         """let mut vx_it = $z.vx_zip_mut(&mut $s); let mut vx_c = $i;
         «let ghost vx_n = vx_it@.len(); let ghost vx_items = vx_it@; let ghost mut vx_k: int = 0;
          let ghost vx_old = self.implied@; let ghost first = old(self).next(); let ghost vx_self = *self;
          let ghost (xs, ys) = (ext(x@, vx_n), ext(y@, vx_n));»
         loop
            invariant 0 <= vx_k <= vx_n, vx_it@ == vx_items.skip(vx_k), vx_n == vx_items.len(), vx_n == max(x@.len(), y@.len()), x@.len() > 0, y@.len() > 0, first >= 1, first + vx_n + 1 <= u64::MAX,
                xs == ext(x@, vx_n), ys == ext(y@, vx_n), deps(xs, first), deps(ys, first), vx_carry.dep(first),
                forall|k: int| 0 <= k < vx_n ==> #[trigger] vx_items[k] == ((xs[k], ys[k]), vbit(first + k).term()),
                *self == (Encoder { implied: self.implied, ..vx_self }), vx_old.is_prefix_of(self.implied@), self.implied@.len() == vx_old.len() + vx_k,
                forall|a: Asg| #[trigger] vx_c.val(a) == carry(vals(xs, a), vals(ys, a), vx_carry.val(a), vx_k),
                vx_k > 0 ==> forall|a: Asg| #[trigger] last_carry_in.val(a) == carry(vals(xs, a), vals(ys, a), vx_carry.val(a), vx_k - 1),
                vx_k > 0 ==> forall|a: Asg| #[trigger] msb.val(a) == a(first + vx_k - 1),
                forall|k: int, a: Asg| 0 <= k < vx_k ==> (#[trigger] self.implied@[vx_old.len() + k].val(a)) == (a(first + k) == column(vals(xs, a), vals(ys, a), vx_carry.val(a), k)),
            ensures vx_k == vx_n,
            decreases vx_n - vx_k
         { match vx_it.next() { Some((($x, $y), $t)) => { let $c = vx_c; vx_c = { $b }; «proof { vx_k = vx_k + 1; }» } None => { break; } } }
         let carry_out = vx_c;""")],
        pre='let ghost vx_carry = carry_in; proof { lemma_first(self); }',
        requires="""old(self).wf(), old(self).next_int_var < u64::MAX, x@.len() > 0, y@.len() > 0, x@.len() < u64::MAX, y@.len() < u64::MAX,
            deps(x@, old(self).next()), deps(y@, old(self).next()), carry_in.dep(old(self).next())""",
        ensures="""final(self).wf(), final(self).grows(old(self)), final(self).same_but_bits(old(self)),
            r is Variable, r->Variable_0 is Int, !old(self).bit_vars@.dom().contains(r->Variable_0->Int_0), final(self).bit_vars@.dom().contains(r->Variable_0->Int_0),
            forall|a: Asg| sat(final(self).implied@, a) ==> #[trigger] num(final(self).bit_vars@, r, a) == sval(vals(x@, a)) + sval(vals(y@, a)) + b2i(carry_in.val(a))""")
def build(u):
    encoder(u)
    adder(u)
    u.add('impl Encoder {')
    alloc(u)
    zip_bits(u)
    plus(u)
    u.add('}')
