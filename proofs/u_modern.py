"""Rewriting of the old string functions (U02) and the set-logic command (U03)."""
T = 'amzn-smt-string-fct-updater/src/transpiler.rs'
TIMEOUT = 240
FUNS = ['str.to.re', 'str.in.re', 'str.to.int', 'int.to.str', 're.loop']
SPEC = r'''
pub trait Copyable: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
#[verifier::external_body] pub struct Text { x: () }
impl Copyable for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Text { pub fn as_str(&self) -> (r: &Text) ensures *r == *self { self } pub fn to_string(self) -> (r: Text) ensures r == self { self } }
#[verifier::external_body] pub struct Numeral { x: () }
impl Copyable for Numeral { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct Opaque { x: () }
#[verifier::external_body] pub fn vx_panic<X>() -> (r: X) ensures false { unimplemented!() }
/// the names that are looked at: 1 str.to.re, 2 str.in.re, 3 str.to.int, 4 int.to.str, 5 re.loop, 6 re.nostr (0: another name)
pub uninterp spec fn name(t: Text) -> u64;
#[verifier::external_body] pub fn vx_name(t: &Text) -> (r: u64) ensures r == name(*t) { unimplemented!() }
/// the documented conversion of literals (proved in u_z3esc)
pub uninterp spec fn z3conv(t: Text) -> Text;
#[verifier::external_body] pub fn convert_z3escapes(t: &Text) -> (r: Text) ensures r == z3conv(*t) { unimplemented!() }
pub enum Constant { String(Text), Numeral(Numeral), Rest(Opaque) }
pub struct IConst(pub Box<Constant>);
pub struct ISymbol(pub Text);
pub struct IVar(pub ISymbol);
pub struct IUF { pub func: ISymbol, pub args: Vec<Term> }
pub enum Index { Numeral(Numeral), Rest(Opaque) }
pub struct Two(pub Index, pub Index);
pub enum ArithOp { Plus(Vec<Term>), Neg(Term), Minus(Vec<Term>), Mul(Vec<Term>), IntDiv(Vec<Term>), RealDiv(Vec<Term>), Divisible(Opaque, Term), Mod(Term, Term), Abs(Term), Gte(Vec<Term>), Gt(Vec<Term>), Lte(Vec<Term>), Lt(Vec<Term>), Conv(Opaque, Term) }
pub enum StringOp { ToRe(Term), InRe(Term, Term), ToInt(Term), FromInt(Term), ReLoop(Two, Term), ReNone, Rest(Opaque, Vec<Term>) }
pub enum Op { Arith(ArithOp), String(StringOp), Rest(Opaque, Vec<Term>) }
pub struct IOp(pub Box<Op>);
pub enum Term { Constant(IConst), Variable(IVar), UF(Box<IUF>), OtherOp(IOp), Rest(Opaque) }
impl Copyable for Term { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl IConst { pub fn as_ref(&self) -> (r: &Constant) ensures *r == *self.0 { &self.0 } }
impl IOp { pub fn as_ref(&self) -> (r: &Op) ensures *r == *self.0 { &self.0 } }
impl IVar { pub fn sym(&self) -> (r: &ISymbol) ensures *r == self.0 { &self.0 } }
pub open spec fn strop(o: StringOp) -> Term { Term::OtherOp(IOp(Box::new(Op::String(o)))) }
impl vstd::std_specs::convert::FromSpecImpl<IVar> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IVar) -> Term { Term::Variable(b) } }
impl From<IVar> for Term { fn from(b: IVar) -> (r: Term) { Term::Variable(b) } }
impl vstd::std_specs::convert::FromSpecImpl<IUF> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IUF) -> Term { Term::UF(Box::new(b)) } }
impl From<IUF> for Term { fn from(b: IUF) -> (r: Term) { Term::UF(Box::new(b)) } }
impl vstd::std_specs::convert::FromSpecImpl<IConst> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IConst) -> Term { Term::Constant(b) } }
impl From<IConst> for Term { fn from(b: IConst) -> (r: Term) { Term::Constant(b) } }
impl vstd::std_specs::convert::FromSpecImpl<Constant> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Constant) -> Term { Term::Constant(IConst(Box::new(b))) } }
impl From<Constant> for Term { fn from(b: Constant) -> (r: Term) { Term::Constant(IConst(Box::new(b))) } }
impl vstd::std_specs::convert::FromSpecImpl<StringOp> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: StringOp) -> Term { strop(b) } }
impl From<StringOp> for Term { fn from(b: StringOp) -> (r: Term) { Term::OtherOp(IOp(Box::new(Op::String(b)))) } }
impl vstd::std_specs::convert::FromSpecImpl<Op> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Op) -> Term { Term::OtherOp(IOp(Box::new(b))) } }
impl From<Op> for Term { fn from(b: Op) -> (r: Term) { Term::OtherOp(IOp(Box::new(b))) } }
impl vstd::std_specs::convert::FromSpecImpl<IOp> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IOp) -> Term { Term::OtherOp(b) } }
impl From<IOp> for Term { fn from(b: IOp) -> (r: Term) { Term::OtherOp(b) } }
impl vstd::std_specs::convert::FromSpecImpl<Text> for ISymbol { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: Text) -> ISymbol { ISymbol(b) } }
impl From<Text> for ISymbol { fn from(b: Text) -> (r: ISymbol) { ISymbol(b) } }
// ---- what the rewriting means
/// assumed (aws-smt-ir): the operator with every argument replaced by its translation
pub uninterp spec fn op_args(o: Op) -> Op;
pub uninterp spec fn rest_args(t: Opaque) -> Term;
pub open spec fn moderns(s: Vec<Term>) -> Seq<Term> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { modern(s@[i]) } else { arbitrary() }) }
/// the application of an old function to arguments that are translated already, in SMT-LIB 2.6
pub open spec fn rewritten(f: ISymbol, a: Seq<Term>, t: Term) -> bool {
    if name(f.0) == 1 { t == strop(StringOp::ToRe(a[0])) }
    else if name(f.0) == 2 { t == strop(StringOp::InRe(a[0], a[1])) }
    else if name(f.0) == 3 { t == strop(StringOp::ToInt(a[0])) }
    else if name(f.0) == 4 { t == strop(StringOp::FromInt(a[0])) }
    else if name(f.0) == 5 { number(a[1]) is Some && number(a[2]) is Some && t == strop(StringOp::ReLoop(Two(Index::Numeral(number(a[1])->Some_0), Index::Numeral(number(a[2])->Some_0)), a[0])) }
    else { t matches Term::UF(u) && u.func == f && u.args@ == a }
}
/// the number of arguments of the old functions
pub open spec fn arity(f: ISymbol, n: nat) -> bool { if name(f.0) == 2 { n == 2 } else if name(f.0) == 5 { n == 3 } else if 1 <= name(f.0) <= 4 { n == 1 } else { true } }
pub open spec fn number(t: Term) -> Option<Numeral> { if let Term::Constant(c) = t { if let Constant::Numeral(n) = *c.0 { Some(n) } else { None } } else { None } }
pub open spec fn modern(t: Term) -> Term decreases t {
    match t {
        Term::Constant(c) => if let Constant::String(s) = *c.0 { Term::Constant(IConst(Box::new(Constant::String(z3conv(s))))) } else { t },
        Term::Variable(v) => if name(v.0.0) == 6 { strop(StringOp::ReNone) } else { t },
        Term::UF(u) => choose|r: Term| rewritten(u.func, moderns(u.args), r),
        Term::OtherOp(o) => Term::OtherOp(IOp(Box::new(op_args(*o.0)))),
        Term::Rest(o) => rest_args(o),
    }
}
/// a term is translated when it is its translation (equality up to the representation of argument vectors)
pub open spec fn is_modern(t: Term, r: Term) -> bool { match t { Term::UF(u) => rewritten(u.func, moderns(u.args), r), _ => r == modern(t) } }
/// integer arithmetic
pub open spec fn arith(o: Op) -> bool { match o { Op::Arith(a) => match a { ArithOp::Plus(_) => true, ArithOp::Neg(_) => true, ArithOp::Minus(_) => true, ArithOp::Mul(_) => true, ArithOp::Gte(_) => true, ArithOp::Gt(_) => true, ArithOp::Lte(_) => true, ArithOp::Lt(_) => true, _ => false }, _ => false } }
/// it is used below the top of the term
pub uninterp spec fn below(t: Term) -> bool;
pub open spec fn uses(t: Term) -> bool { match t { Term::Constant(_) => false, Term::Variable(_) => false, Term::OtherOp(o) => arith(*o.0) || below(t), _ => below(t) } }
pub open spec fn same_logic(n: &ModernizeStringsBuilder, o: &ModernizeStringsBuilder) -> bool { n.logic == o.logic }
impl IUF { /// assumed (aws-smt-ir, by induction over terms): the same function on the translated arguments
    #[verifier::external_body] pub fn super_fold_with(self, m: &mut ModernizeStringsBuilder) -> (r: Result<IUF, Error>)
        ensures r is Ok, r->Ok_0.func == self.func, r->Ok_0.args@ == moderns(self.args), final(m).logic == old(m).logic, final(m).has_arith == (old(m).has_arith || below(Term::UF(Box::new(self)))) { unimplemented!() } }
impl IOp { #[verifier::external_body] pub fn super_fold_with(self, m: &mut ModernizeStringsBuilder) -> (r: Result<Op, Error>)
        ensures r is Ok, r->Ok_0 == op_args(*self.0), final(m).logic == old(m).logic, final(m).has_arith == (old(m).has_arith || below(Term::OtherOp(self))) { unimplemented!() } }
#[derive(Debug)] pub struct Error;
pub fn vx_at(s: &Vec<Term>, i: usize) -> (r: &Term) ensures 0 <= i < s@.len(), *r == s@[i as int] { if i < s.len() { &s[i] } else { vx_panic() } }
/// the slice, mapped, as an array of two
pub fn vx_two<F: Fn(&Term) -> Index>(s: &Vec<Term>, i: usize, j: usize, f: F) -> (r: Two)
    requires forall|t: &Term| f.requires((t,)), ensures j == i + 2, j <= s@.len(), f.ensures((&s@[i as int],), r.0), f.ensures((&s@[i + 1],), r.1)
{ if i <= j && j <= s.len() && j - i == 2 { Two(f(&s[i]), f(&s[i + 1])) } else { vx_panic() } }
// ---- commands
pub enum Command { SetLogic { symbol: ISymbol }, SetOption { x: Opaque }, Other(Opaque) }
/// the command with every term translated
pub uninterp spec fn other_cmd(c: Opaque) -> Opaque;
pub open spec fn modern_cmd(c: Command) -> Command { match c { Command::Other(x) => Command::Other(other_cmd(x)), _ => c } }
/// integer arithmetic in a term of the command
pub uninterp spec fn cmd_uses(c: Command) -> bool;
impl Command { /// assumed (aws-smt-ir): `set-logic` goes through `fold_set_logic`, terms through the functions above
    #[verifier::external_body] pub fn fold_with(self, m: &mut ModernizeStringsBuilder) -> (r: Result<Command, Error>)
        ensures r is Ok, r->Ok_0 == modern_cmd(self), final(m).has_arith == (old(m).has_arith || cmd_uses(self)), (self matches Command::SetLogic { symbol } ==> final(m).logic == Some(symbol.0)), !(self is SetLogic) ==> final(m).logic == old(m).logic { unimplemented!() } }
impl ModernizeStringsBuilder { pub fn default() -> (r: Self) ensures r.logic is None, !r.has_arith { ModernizeStringsBuilder { logic: None, has_arith: false } } }
pub uninterp spec fn slia() -> Text;
pub uninterp spec fn qfs() -> Text;
#[verifier::external_body] pub fn vx_slia() -> (r: Text) ensures r == slia() { unimplemented!() }
#[verifier::external_body] pub fn vx_qfs() -> (r: Text) ensures r == qfs() { unimplemented!() }
pub open spec fn has_logic(s: Seq<Command>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is SetLogic }
pub open spec fn any_arith(s: Seq<Command>) -> bool { exists|i: int| 0 <= i < s.len() && cmd_uses(#[trigger] s[i]) }
pub open spec fn all_modern(s: Seq<Command>) -> Seq<Command> { s.map_values(|c: Command| modern_cmd(c)) }
/// k is the number of `set-option` commands at the beginning
pub open spec fn options(s: Seq<Command>, k: int) -> bool { 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> #[trigger] s[i] is SetOption) && (k < s.len() ==> !(s[k] is SetOption)) }
pub open spec fn with_logic(s: Seq<Command>, r: Seq<Command>) -> bool {
    if s.len() == 0 || has_logic(s) { r == all_modern(s) }
    else { exists|k: int| #[trigger] options(s, k) && r == all_modern(s).insert(k, Command::SetLogic { symbol: ISymbol(if any_arith(s) { slia() } else { qfs() }) }) }
}
'''
def build(u):
    u.item(T, 'struct', 'ModernizeStringsBuilder', rules=[('type', 'logic : Option < String >', 'pub logic: Option<Text>'), ('type', 'has_arith : bool', 'pub has_arith: bool')], prefix='pub ')
    u.add(SPEC)
    u.add('impl ModernizeStringsBuilder {')
    R = [('type', 'Result < Term , Self :: Error >', 'Result<Term, Error>', '*'), ('type', 'IUF < ALL >', 'IUF', '*'), ('type', 'IOp < ALL >', 'IOp', '*'), ('type', 'Result < Command , Self :: Error >', 'Result<Command, Error>', '*'),
         ('desugar', '"re.nostr"', '6u64', '*')] + [('desugar', '"%s"' % f, '%du64' % (i + 1), '*') for i, f in enumerate(FUNS)]
    u.fn(T, 'IntraLogicFolder for ModernizeStringsBuilder::fold_const', ret='r', rules=R, ensures='r is Ok, r->Ok_0 == modern(Term::Constant(constant)), *final(self) == *old(self)')
    u.fn(T, 'IntraLogicFolder for ModernizeStringsBuilder::fold_var', ret='r', rules=R + [('desugar', 'match $e* . as_str ( ) {', 'match vx_name($e.as_str()) {')], ensures='r is Ok, r->Ok_0 == modern(Term::Variable(var)), *final(self) == *old(self)')
    u.fn(T, 'IntraLogicFolder for ModernizeStringsBuilder::fold_uninterpreted_func', ret='r', rules=R + [
        ('desugar', 'let t = t . super_fold_with ( self ) ? ;', '«let ghost vx_t = t;» let t = t.super_fold_with(self)?; let vx_a = &t.args;'),
        ('desugar', 'match t . func . 0 . as_str ( ) {', 'match vx_name(t.func.0.as_str()) {'),
        ('desugar', '. iter ( ) . map ( | $i:id | { $b* } ) . collect :: < Vec < _ >> ( ) . try_into ( ) . expect ( $m* ) ;', '. vx_two ( | $i: &Term | -> (q: Index) «ensures number(*$i) is Some && q == Index::Numeral(number(*$i)->Some_0)» { $b } ) ;', '*'),
        ('desugar', '. iter ( ) . map ( | $i:id | { $b* } ) . collect :: < Vec < _ > > ( ) . try_into ( ) . expect ( $m* ) ;', '. vx_two ( | $i: &Term | -> (q: Index) «ensures number(*$i) is Some && q == Index::Numeral(number(*$i)->Some_0)» { $b } ) ;', '*'),
        ('desugar', 't . args [ $a:tt .. $b:tt ] . vx_two (', 'vx_two(vx_a, $a, $b,', '*'),
        ('desugar', 'return Index :: Numeral ( $x* ) . into ( ) ;', 'return Index::Numeral($x);', '*'),
        ('desugar', 'panic ! ( $m* ) ;', 'return vx_panic();', '*'),
        ('desugar', 't . args [ $i:tt ]', 'vx_at(vx_a, $i)', '*'),
        ('desugar', '_ => t . into ( ) ,', '_ => { let vx_r: Term = t.into(); vx_r }')],
        ensures='r is Ok, arity(t.func, t.args@.len()) ==> is_modern(Term::UF(Box::new(t)), r->Ok_0), final(self).logic == old(self).logic, final(self).has_arith == (old(self).has_arith || uses(Term::UF(Box::new(t))))')
    u.fn(T, 'IntraLogicFolder for ModernizeStringsBuilder::fold_theory_op', ret='r', rules=R + [
        ('desugar', 'all :: Op', 'Op', '*'),
        ('desugar', 'op . super_fold_with ( self ) . map ( Into :: into )', 'match op.super_fold_with(self) { Ok(vx_o) => Ok(vx_o.into()), Err(vx_e) => Err(vx_e) }', '*')],
        ensures='r is Ok, r->Ok_0 == modern(Term::OtherOp(op)), final(self).logic == old(self).logic, final(self).has_arith == (old(self).has_arith || uses(Term::OtherOp(op)))')
    u.fn(T, 'IntraLogicFolder for ModernizeStringsBuilder::fold_set_logic', ret='r', rules=R,
        ensures='r is Ok, r->Ok_0 == (Command::SetLogic { symbol: logic }), final(self).logic == Some(logic.0), final(self).has_arith == old(self).has_arith')
    u.add('}')
    u.fn(T, 'modernize_string_fcts', ret='r', ensures='with_logic(commands@, r@)', rules=[
        ('type', 'impl Iterator < Item = Command >', 'Vec<Command>'),
        ('desugar', 'let mut v = commands . map ( | $c:id | $e* ) . collect :: < Result < Vec < Command > , _ > > ( ) . unwrap ( ) ;', '''let mut commands = commands; let mut v: Vec<Command> = Vec::new(); «let ghost vx_s = commands@;»
while commands.len() > 0 «invariant commands@.len() + v@.len() == vx_s.len(), commands@ == vx_s.skip(v@.len() as int), v@ == all_modern(vx_s.take(v@.len() as int)), modernize_builder.has_arith == any_arith(vx_s.take(v@.len() as int)), modernize_builder.logic is Some == has_logic(vx_s.take(v@.len() as int)), decreases commands@.len(),»
{ «let ghost vx_n = v@.len() as int; let ghost vx_m = modernize_builder;» let $c = commands.remove(0); «let ghost vx_c = $c;» let vx_x = $e; v.push(vx_x.unwrap()); «proof { lemma_next(vx_s, vx_n); assert(vx_c == vx_s[vx_n]); assert(v@ =~= all_modern(vx_s.take(vx_n + 1))); assert(commands@ =~= vx_s.skip(vx_n + 1)); }» }
«proof { assert(vx_s.take(v@.len() as int) =~= vx_s); }»'''),
        ('desugar', '"QF_SLIA"', 'vx_slia()', '*'), ('desugar', '"QF_S"', 'vx_qfs()', '*'),
        ('desugar', 'while let Some ( Command :: SetOption { .. } ) = v . get ( $i:id ) { $b* }', 'let vx_n: usize = v.len(); loop «invariant 0 <= $i <= vx_n, vx_n == v@.len(), v@ == all_modern(vx_s), forall|j: int| 0 <= j < $i ==> #[trigger] vx_s[j] is SetOption, ensures options(vx_s, $i as int), decreases v@.len() - $i,» { match v.get($i) { Some(Command::SetOption { .. }) => { «proof { assert(v@[$i as int] == modern_cmd(vx_s[$i as int])); }» $b } _ => { «proof { if $i < v@.len() { assert(v@[$i as int] == modern_cmd(vx_s[$i as int])); } }» break; } } } '),
        ])
    u.add('''pub proof fn lemma_next(s: Seq<Command>, n: int) requires 0 <= n < s.len(),
  ensures any_arith(s.take(n + 1)) == (any_arith(s.take(n)) || cmd_uses(s[n])), has_logic(s.take(n + 1)) == (has_logic(s.take(n)) || s[n] is SetLogic),
{ let (a, b) = (s.take(n), s.take(n + 1)); assert(b =~= a.push(s[n]));
  if any_arith(a) { let i = choose|i: int| 0 <= i < a.len() && cmd_uses(#[trigger] a[i]); assert(b[i] == a[i]); }
  if has_logic(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is SetLogic; assert(b[i] == a[i]); }
  assert(b[n] == s[n]);
  if any_arith(b) { let i = choose|i: int| 0 <= i < b.len() && cmd_uses(#[trigger] b[i]); if i < n { assert(a[i] == b[i]); } }
  if has_logic(b) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] is SetLogic; if i < n { assert(a[i] == b[i]); } }
}''')
