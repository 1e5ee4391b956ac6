"""Terms and commands of aws-smt-ir as the units see them, and what they mean."""
TERMS = r'''
pub trait Copyable: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
#[verifier::external_body] pub struct Opaque { x: () }
#[verifier::external_body] pub struct Func { x: () }
#[verifier::external_body] pub struct ISymbol { x: () }
impl Copyable for ISymbol { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct ISort { x: () }
impl Copyable for ISort { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub struct IConst(pub Opaque);
pub struct IVar(pub ISymbol);
impl IVar { pub fn sym(&self) -> (r: &ISymbol) ensures *r == self.0 { &self.0 } }
/// an operator or function with its arguments
pub struct App { pub f: Func, pub args: Vec<Term> }
pub enum Term { Constant(IConst), Variable(IVar), CoreOp(App), OtherOp(App), UF(App), Rest(Opaque) }
impl Copyable for Term { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copyable for Command { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub enum Command { Assert { term: Term }, DeclareConst { symbol: ISymbol, sort: ISort }, DeclareFun { symbol: ISymbol, parameters: Vec<ISort>, sort: ISort }, Rest(Opaque) }
#[derive(Debug)] pub struct Error;
impl vstd::std_specs::convert::FromSpecImpl<IVar> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: IVar) -> Term { Term::Variable(b) } }
impl From<IVar> for Term { fn from(b: IVar) -> (r: Term) { Term::Variable(b) } }
impl vstd::std_specs::convert::FromSpecImpl<ISymbol> for Term { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: ISymbol) -> Term { Term::Variable(IVar(b)) } }
impl From<ISymbol> for Term { fn from(b: ISymbol) -> (r: Term) { Term::Variable(IVar(b)) } }
impl vstd::std_specs::convert::FromSpecImpl<ISymbol> for IVar { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: ISymbol) -> IVar { IVar(b) } }
impl From<ISymbol> for IVar { fn from(b: ISymbol) -> (r: IVar) { IVar(b) } }
// ---- terms as trees
pub ghost enum Tree { Const(IConst), Var(ISymbol), App(int, Func, Seq<Tree>), Rest(Opaque) }
pub open spec fn trees(s: Vec<Term>) -> Seq<Tree> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { tree(s@[i]) } else { arbitrary() }) }
pub open spec fn tree(t: Term) -> Tree decreases t {
    match t { Term::Constant(c) => Tree::Const(c), Term::Variable(v) => Tree::Var(v.0), Term::CoreOp(a) => Tree::App(0, a.f, trees(a.args)), Term::OtherOp(a) => Tree::App(1, a.f, trees(a.args)),
        Term::UF(a) => Tree::App(2, a.f, trees(a.args)), Term::Rest(o) => Tree::Rest(o) } }
pub ghost enum Cmd { Assert(Tree), DeclareConst(ISymbol, ISort), DeclareFun(ISymbol, Seq<ISort>, ISort), Rest(Opaque) }
pub open spec fn cmd(c: Command) -> Cmd { match c { Command::Assert { term } => Cmd::Assert(tree(term)), Command::DeclareConst { symbol, sort } => Cmd::DeclareConst(symbol, sort), Command::DeclareFun { symbol, parameters, sort } => Cmd::DeclareFun(symbol, parameters@, sort), Command::Rest(o) => Cmd::Rest(o) } }
pub open spec fn cmds(s: Seq<Command>) -> Seq<Cmd> { s.map_values(|c: Command| cmd(c)) }
/// no let, match or quantifier
pub open spec fn plain(t: Tree) -> bool decreases t { match t { Tree::App(k, f, a) => forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]), Tree::Rest(_) => false, _ => true } }
pub open spec fn is_app(t: Tree) -> bool { t is App }
/// all function applications, in evaluation order
pub open spec fn apps(t: Tree) -> Seq<Tree> decreases t, 1nat, 0int { match t { Tree::App(k, f, a) => apps_upto(t, a, a.len() as int).push(t), _ => Seq::empty() } }
pub open spec fn apps_upto(t: Tree, a: Seq<Tree>, n: int) -> Seq<Tree> decreases t, 0nat, n when t is App && a == t->App_2 && n <= a.len() { if n <= 0 { Seq::empty() } else { apps_upto(t, a, n - 1) + apps(a[n - 1]) } }
// ---- meaning
#[verifier::external_body] pub struct Val { x: () }
#[verifier::external_body] pub struct Model { x: () }
/// an assignment: values of the variables, meaning of the functions
pub ghost struct Env { pub vars: spec_fn(ISymbol) -> Val, pub m: Model }
pub open spec fn look(e: Env, v: ISymbol) -> Val { (e.vars)(v) }
pub uninterp spec fn fun(m: Model, k: int, f: Func, a: Seq<Val>) -> Val;
pub open spec fn apply(e: Env, k: int, f: Func, a: Seq<Val>) -> Val { fun(e.m, k, f, a) }
pub uninterp spec fn cval(c: IConst) -> Val;
pub uninterp spec fn rval(e: Env, o: Opaque) -> Val;
pub open spec fn vals(e: Env, t: Tree, a: Seq<Tree>) -> Seq<Val> decreases t, 0nat when t is App && a == t->App_2 { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { val(e, a[i]) } else { arbitrary() }) }
pub open spec fn val(e: Env, t: Tree) -> Val decreases t, 1nat { match t { Tree::Const(c) => cval(c), Tree::Var(v) => look(e, v), Tree::App(k, f, a) => apply(e, k, f, vals(e, t, a)), Tree::Rest(o) => rval(e, o) } }
/// true
pub uninterp spec fn tt() -> Val;
pub uninterp spec fn eqf() -> Func;
/// what the equality of two values is
pub open spec fn two(a: Val, b: Val) -> Seq<Val> { seq![a, b] }
pub open spec fn eq_means(e: Env) -> bool { forall|a: Val, b: Val| #![trigger two(a, b)] (apply(e, 0, eqf(), two(a, b)) == tt()) == (a == b) }
pub open spec fn sat(e: Env, s: Seq<Cmd>) -> bool { forall|i: int| 0 <= i < s.len() ==> holds(e, #[trigger] s[i]) }
pub open spec fn holds(e: Env, c: Cmd) -> bool { match c { Cmd::Assert(t) => val(e, t) == tt(), _ => true } }
/// arguments with the same values have the same value together
pub proof fn lemma_vals(e: Env, k: int, f: Func, a: Seq<Tree>, b: Seq<Tree>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> val(e, #[trigger] a[i]) == val(e, b[i]) ensures val(e, Tree::App(k, f, a)) == val(e, Tree::App(k, f, b))
{ let (s, t) = (Tree::App(k, f, a), Tree::App(k, f, b)); assert(vals(e, s, a) =~= vals(e, t, b)); }
'''
