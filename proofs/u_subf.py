"""The list of subformulas (T08) and the original shape of a query (T05)."""
from term_common import *
F = 'amzn-smt-string-transformer/src/subformula_parser.rs'
TIMEOUT = 240
NOTES = 'Assumed: the traversal by aws-smt-ir (a term is folded by fold_term, super_fold_with folds the arguments of an application in order and hands constants and variables to fold_const and fold_var, assertions and declarations go to their functions, other commands contain no terms), maps, sets and cloning. Nothing is claimed for terms with let, match or quantifiers.'
SPEC = r'''
use std::collections::{HashMap, HashSet};
pub type Defs = Map<ISymbol, Term>;
pub uninterp spec fn mp<V>(m: HashMap<ISymbol, V>) -> Map<ISymbol, V>;
pub uninterp spec fn cset(s: HashSet<Command>) -> Set<Cmd>;
#[verifier::external_body] pub fn vx_get<'a, V>(m: &'a HashMap<ISymbol, V>, s: &ISymbol) -> (r: Option<&'a V>) ensures r matches Some(v) ==> mp(*m).contains_key(*s) && *v == mp(*m)[*s], r is None ==> !mp(*m).contains_key(*s) { unimplemented!() }
#[verifier::external_body] pub fn vx_has<V>(m: &HashMap<ISymbol, V>, s: &ISymbol) -> (r: bool) ensures r == mp(*m).contains_key(*s) { unimplemented!() }
#[verifier::external_body] pub fn vx_put<V>(m: &mut HashMap<ISymbol, V>, k: ISymbol, v: V) ensures mp(*final(m)) == mp(*old(m)).insert(k, v) { unimplemented!() }
#[verifier::external_body] pub fn vx_new<V>() -> (r: HashMap<ISymbol, V>) ensures mp(r) == Map::<ISymbol, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_clear<V>(m: &mut HashMap<ISymbol, V>) ensures mp(*final(m)) == Map::<ISymbol, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_set() -> (r: HashSet<Command>) ensures cset(r) == Set::<Cmd>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_add(s: &mut HashSet<Command>, c: Command) ensures cset(*final(s)) == cset(*old(s)).insert(cmd(c)) { unimplemented!() }
#[verifier::external_body] pub fn vx_in(s: &HashSet<Command>, c: &Command) -> (r: bool) ensures r == cset(*s).contains(cmd(*c)) { unimplemented!() }
#[verifier::external_body] pub struct IdentType { x: () }
#[verifier::external_body] pub fn vx_type(s: &ISort) -> (r: IdentType) { unimplemented!() }
/// the name starts with new_var
pub uninterp spec fn isnew(s: ISymbol) -> bool;
#[verifier::external_body] pub fn vx_isnew(s: &ISymbol) -> (r: bool) ensures r == isnew(*s) { unimplemented!() }
/// the two sides of an equality of two terms
#[verifier::external_body] pub fn vx_pair(a: &App) -> (r: Option<(&Term, &Term)>) ensures r matches Some(p) ==> a.f == eqf() && trees(a.args) =~= seq![tree(*p.0), tree(*p.1)], r is None ==> !(a.f == eqf() && a.args@.len() == 2) { unimplemented!() }
pub fn vx_isop(t: &Term) -> (r: bool) ensures r == is_app(tree(*t)) { match t { Term::CoreOp(_) | Term::OtherOp(_) | Term::UF(_) => true, _ => false } }
// ---- substituting definitions
pub open spec fn cons(e: Env, d: Defs) -> bool { forall|v: ISymbol| #[trigger] d.contains_key(v) ==> look(e, v) == val(e, tree(d[v])) }
pub open spec fn plains(d: Defs) -> bool { forall|v: ISymbol| #[trigger] d.contains_key(v) ==> plain(tree(d[v])) }
pub open spec fn same_val(d: Defs, s: Tree, t: Tree) -> bool { forall|e: Env| #[trigger] cons(e, d) ==> val(e, s) == val(e, t) }
/// none of these variables occurs
pub open spec fn clean(t: Tree, d: Defs) -> bool decreases t { match t { Tree::App(k, f, a) => forall|i: int| 0 <= i < a.len() ==> clean(#[trigger] a[i], d), Tree::Var(v) => !d.contains_key(v), _ => true } }
/// what folding a term gives
pub open spec fn folded(n: &StringSubformulaCountBuilder, o: &StringSubformulaCountBuilder, t: Tree, r: Tree) -> bool {
    n.defs() == o.defs() && n.remap_string_vars == o.remap_string_vars && n.remap_useless_commands == o.remap_useless_commands
    && (plain(t) && plains(o.defs()) ==> plain(r) && same_val(o.defs(), t, r) && clean(r, o.defs()) && (o.defs() == Map::<ISymbol, Term>::empty() ==> r == t && n.list() == o.list() + apps(r)))
}
pub open spec fn tl(s: Seq<Term>) -> Seq<Tree> { s.map_values(|t: Term| tree(t)) }
impl StringSubformulaCountBuilder {
    pub open spec fn defs(&self) -> Defs { mp(self.string_fct_calls) }
    pub open spec fn list(&self) -> Seq<Tree> { tl(self.sub_terms@) }
    pub open spec fn drop(&self) -> Set<Cmd> { cset(self.remap_useless_commands) }
    // assumed (aws-smt-ir): how a term is traversed
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_args(&mut self, args: Vec<Term>, vx_k: Ghost<int>, vx_f: Ghost<Func>) -> (r: Vec<Term>)
        ensures final(self).defs() == old(self).defs(), final(self).remap_string_vars == old(self).remap_string_vars, final(self).remap_useless_commands == old(self).remap_useless_commands, r@.len() == args@.len(),
            (forall|i: int| 0 <= i < args@.len() ==> plain(tree(#[trigger] args@[i]))) && plains(old(self).defs()) ==> (forall|i: int| 0 <= i < args@.len() ==> folds_to(old(self).defs(), tree(args@[i]), tree(#[trigger] r@[i])))
                && (old(self).defs() == Map::<ISymbol, Term>::empty() ==> final(self).list() == old(self).list() + apps_upto(Tree::App(vx_k@, vx_f@, trees(r)), trees(r), r@.len() as int))
    {
        let mut r: Vec<Term> = Vec::new(); let mut i: usize = 0;
        let ghost l0 = self.list(); let ghost d = self.defs(); let ghost mut acc: Seq<Tree> = Seq::empty();
        while i < args.len()
            invariant i <= args@.len(), r@.len() == i, self.defs() == d, self.remap_string_vars == old(self).remap_string_vars, self.remap_useless_commands == old(self).remap_useless_commands,
                (forall|i: int| 0 <= i < args@.len() ==> plain(tree(#[trigger] args@[i]))) && plains(d) ==> (forall|j: int| 0 <= j < i ==> folds_to(d, tree(args@[j]), tree(#[trigger] r@[j]))) && (d == Map::<ISymbol, Term>::empty() ==> self.list() == l0 + flat(tl(r@))),
        {
            let ghost r0 = tl(r@); let ghost l1 = self.list();
            let x = self.fold_term(args[i].clone());
            let y = match x { Ok(y) => y, Err(_) => vx_never() };
            r.push(y);
            proof { lemma_flat(r0, tree(y)); assert(tl(r@) =~= r0.push(tree(y))); assert((l0 + flat(r0)) + apps(tree(y)) =~= l0 + (flat(r0) + apps(tree(y)))); }
            i += 1;
        }
        proof { assert(tl(r@) =~= trees(r)); lemma_upto(Tree::App(vx_k@, vx_f@, trees(r)), trees(r), r@.len() as int); assert(trees(r).take(r@.len() as int) =~= trees(r)); }
        r
    }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_super(&mut self, t: Term) -> (r: Result<Term, Error>)
        ensures r is Ok, final(self).defs() == old(self).defs(), final(self).remap_string_vars == old(self).remap_string_vars, final(self).remap_useless_commands == old(self).remap_useless_commands,
            plain(tree(t)) && plains(old(self).defs()) ==> folds_to(old(self).defs(), tree(t), tree(r->Ok_0)) && (old(self).defs() == Map::<ISymbol, Term>::empty() ==> final(self).list() + (if t is Variable { Seq::<Tree>::empty() } else if is_app(tree(r->Ok_0)) { seq![tree(r->Ok_0)] } else { Seq::empty() }) == old(self).list() + apps(tree(r->Ok_0))),
            is_app(tree(t)) ==> is_app(tree(r->Ok_0))
    {
        let ghost t0 = tree(t); let ghost d = self.defs(); let ghost l0 = self.list();
        match t {
            Term::Constant(c) => { let r = Term::Constant(c); proof { assert(self.list() + Seq::<Tree>::empty() =~= l0 + apps(tree(r))); } Ok(r) },
            Term::Variable(v) => { let r = self.fold_var(v); proof { assert(self.list() + Seq::<Tree>::empty() =~= self.list()); } r },
            Term::CoreOp(a) => { let App { f, args } = a; let ghost g = trees(args); let ghost a0 = args; let args = self.vx_args(args, Ghost(0), Ghost(f)); let r = Term::CoreOp(App { f, args }); proof { lemma_pl(d, a0, args); lemma_app(d, 0, f, g, trees(args)); if plain(t0) && plains(d) && d == Map::<ISymbol, Term>::empty() { assert(self.list() + seq![tree(r)] =~= l0 + apps(tree(r))); } } Ok(r) },
            Term::OtherOp(a) => { let App { f, args } = a; let ghost g = trees(args); let ghost a0 = args; let args = self.vx_args(args, Ghost(1), Ghost(f)); let r = Term::OtherOp(App { f, args }); proof { lemma_pl(d, a0, args); lemma_app(d, 1, f, g, trees(args)); if plain(t0) && plains(d) && d == Map::<ISymbol, Term>::empty() { assert(self.list() + seq![tree(r)] =~= l0 + apps(tree(r))); } } Ok(r) },
            Term::UF(a) => { let App { f, args } = a; let ghost g = trees(args); let ghost a0 = args; let args = self.vx_args(args, Ghost(2), Ghost(f)); let r = Term::UF(App { f, args }); proof { lemma_pl(d, a0, args); lemma_app(d, 2, f, g, trees(args)); if plain(t0) && plains(d) && d == Map::<ISymbol, Term>::empty() { assert(self.list() + seq![tree(r)] =~= l0 + apps(tree(r))); } } Ok(r) },
            Term::Rest(o) => vx_rest(self, o),
        }
    }
}
#[verifier::external_body] pub fn vx_never<X>() -> (r: X) requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_rest(b: &mut StringSubformulaCountBuilder, o: Opaque) -> (r: Result<Term, Error>) ensures r is Ok, final(b).defs() == old(b).defs(), final(b).remap_string_vars == old(b).remap_string_vars, final(b).remap_useless_commands == old(b).remap_useless_commands { unimplemented!() }
pub open spec fn folds_to(d: Defs, t: Tree, r: Tree) -> bool { plain(r) && same_val(d, t, r) && clean(r, d) && (d == Map::<ISymbol, Term>::empty() ==> r == t) }
pub open spec fn flat(s: Seq<Tree>) -> Seq<Tree> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + apps(s.last()) } }
pub proof fn lemma_flat(s: Seq<Tree>, t: Tree) ensures flat(s.push(t)) == flat(s) + apps(t) { assert(s.push(t).drop_last() =~= s); }
pub proof fn lemma_upto(t: Tree, a: Seq<Tree>, n: int) requires t is App, a == t->App_2, 0 <= n <= a.len() ensures apps_upto(t, a, n) == flat(a.take(n)) decreases n
{ if n > 0 { lemma_upto(t, a, n - 1); assert(a.take(n).drop_last() =~= a.take(n - 1)); } }
pub proof fn lemma_pl(d: Defs, a: Vec<Term>, b: Vec<Term>)
    requires a@.len() == b@.len(), (forall|i: int| 0 <= i < a@.len() ==> plain(tree(#[trigger] a@[i]))) && plains(d) ==> (forall|i: int| 0 <= i < a@.len() ==> folds_to(d, tree(a@[i]), tree(#[trigger] b@[i])))
    ensures (forall|i: int| 0 <= i < a@.len() ==> plain(tree(#[trigger] a@[i]))) == (forall|i: int| 0 <= i < a@.len() ==> plain(#[trigger] trees(a)[i])),
        (forall|i: int| 0 <= i < a@.len() ==> plain(#[trigger] trees(a)[i])) && plains(d) ==> forall|i: int| 0 <= i < a@.len() ==> folds_to(d, trees(a)[i], #[trigger] trees(b)[i])
{
    if forall|i: int| 0 <= i < a@.len() ==> plain(#[trigger] trees(a)[i]) { assert forall|i: int| 0 <= i < a@.len() implies plain(tree(#[trigger] a@[i])) by { assert(plain(trees(a)[i])); } }
    if plains(d) && forall|i: int| 0 <= i < a@.len() ==> plain(tree(#[trigger] a@[i])) { assert forall|i: int| 0 <= i < a@.len() implies folds_to(d, trees(a)[i], #[trigger] trees(b)[i]) by { assert(folds_to(d, tree(a@[i]), tree(b@[i]))); } }
}
pub proof fn lemma_app(d: Defs, k: int, f: Func, a: Seq<Tree>, b: Seq<Tree>)
    requires a.len() == b.len(), (forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i])) && plains(d) ==> forall|i: int| 0 <= i < a.len() ==> folds_to(d, a[i], #[trigger] b[i])
    ensures plain(Tree::App(k, f, a)) && plains(d) ==> folds_to(d, Tree::App(k, f, a), Tree::App(k, f, b))
{
    let (s, t) = (Tree::App(k, f, a), Tree::App(k, f, b));
    if plain(s) && plains(d) {
        assert forall|i: int| 0 <= i < a.len() implies plain(#[trigger] a[i]) by { assert(s->App_2 == a); }
        assert forall|i: int| 0 <= i < a.len() implies folds_to(d, a[i], #[trigger] b[i]) by {}
        assert forall|e: Env| #[trigger] cons(e, d) implies val(e, s) == val(e, t) by { assert forall|i: int| 0 <= i < a.len() implies val(e, #[trigger] a[i]) == val(e, b[i]) by { assert(folds_to(d, a[i], b[i])); } lemma_vals(e, k, f, a, b); }
        assert(plain(t)); assert(clean(t, d));
        if d == Map::<ISymbol, Term>::empty() { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { assert(folds_to(d, a[i], b[i])); } assert(a =~= b); }
    }
}
'''
SPEC2 = r'''
// ---- commands
pub uninterp spec fn no_terms(o: Opaque) -> bool;
pub open spec fn simple(c: Cmd) -> bool { match c { Cmd::Assert(t) => plain(t), Cmd::Rest(o) => no_terms(o), _ => true } }
pub open spec fn eq_tree(a: Tree, b: Tree) -> Tree { Tree::App(0, eqf(), seq![a, b]) }
/// (assert (= new_varN <application>))
pub open spec fn defines(c: Cmd, v: ISymbol) -> bool { c matches Cmd::Assert(Tree::App(k, f, a)) && k == 0 && f == eqf() && a.len() == 2 && a[0] == Tree::Var(v) && is_app(a[1]) && isnew(v) }
pub open spec fn declares_new(c: Cmd) -> bool { match c { Cmd::DeclareConst(s, _) => isnew(s), Cmd::DeclareFun(s, _, _) => isnew(s), _ => false } }
/// holds wherever the new variables have their defined values
pub open spec fn trivial(d: Defs, c: Cmd) -> bool { c is Assert && forall|e: Env| #[trigger] cons(e, d) && eq_means(e) ==> holds(e, c) }
pub open spec fn moved(d: Defs, c: Cmd, r: Cmd) -> bool { match c { Cmd::Assert(t) => r matches Cmd::Assert(x) && plain(x) && same_val(d, t, x) && clean(x, d), _ => r == c } }
pub open spec fn grew(o: Defs, n: Defs, c: Cmd) -> bool { (forall|v: ISymbol| #[trigger] o.contains_key(v) ==> n.contains_key(v) && n[v] == o[v]) && (forall|v: ISymbol| #[trigger] n.contains_key(v) ==> o.contains_key(v) || defines(c, v) && c->Assert_0->App_2[1] == tree(n[v])) && (forall|v: ISymbol| #[trigger] defines(c, v) ==> n.contains_key(v)) }
pub open spec fn listed(c: Cmd) -> Seq<Tree> { match c { Cmd::Assert(t) => apps(t), _ => Seq::empty() } }
/// what visiting a command does
pub open spec fn stepped(n: &StringSubformulaCountBuilder, o: &StringSubformulaCountBuilder, c: Cmd, r: Cmd) -> bool {
    n.remap_string_vars == o.remap_string_vars && (if o.remap_string_vars { grew(o.defs(), n.defs(), c) } else { n.defs() == o.defs() })
    && (simple(c) && plains(o.defs()) ==> plains(n.defs()) && moved(n.defs(), c, r)
        && (n.defs() == Map::<ISymbol, Term>::empty() ==> r == c && n.list() == o.list() + listed(c))
        && (n.drop() == o.drop() || o.remap_string_vars && n.drop() == o.drop().insert(r) && (declares_new(r) || trivial(n.defs(), r)))
        && (o.remap_string_vars && declares_new(c) ==> n.drop().contains(r))
        && (n.defs() != o.defs() ==> n.drop().contains(r)))
}
#[verifier::external_body] pub fn vx_restc(b: &mut StringSubformulaCountBuilder, o: Opaque) -> (r: Result<Command, Error>) ensures r is Ok, final(b).defs() == old(b).defs(), final(b).remap_string_vars == old(b).remap_string_vars, final(b).drop() == old(b).drop(), r->Ok_0 is Rest, no_terms(o) ==> final(b).list() == old(b).list() && r->Ok_0->Rest_0 == o { unimplemented!() }
impl StringSubformulaCountBuilder {
    /// a command is visited by the function for its kind (aws-smt-ir)
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_cmd(&mut self, c: Command) -> (r: Result<Command, Error>) ensures r is Ok, stepped(final(self), old(self), cmd(c), cmd(r->Ok_0))
    {
        match c {
            Command::Assert { term } => self.fold_assert(term),
            Command::DeclareConst { symbol, sort } => { let r = self.fold_declare_const(symbol, sort); r },
            Command::DeclareFun { symbol, parameters, sort } => self.fold_declare_fun(symbol, parameters, sort),
            Command::Rest(o) => { let r = vx_restc(self, o); assert(self.list() =~= self.list() + Seq::<Tree>::empty()); r },
        }
    }
}
pub proof fn lemma_clean(t: Tree, a: Defs, b: Defs) requires clean(t, b), forall|v: ISymbol| #[trigger] a.contains_key(v) ==> b.contains_key(v) ensures clean(t, a) decreases t
{ if let Tree::App(k, f, s) = t { assert forall|i: int| 0 <= i < s.len() implies clean(#[trigger] s[i], a) by { lemma_clean(s[i], a, b); } } }
/// an equation of a new variable and its definition
pub proof fn lemma_def(t: Tree, v: ISymbol, f: Term, d: Defs) requires t == eq_tree(Tree::Var(v), tree(f)), d.contains_key(v), d[v] == f
    ensures forall|e: Env| #[trigger] cons(e, d) && eq_means(e) ==> val(e, t) == tt(), plain(t) ==> plain(tree(f))
{
    assert forall|e: Env| #[trigger] cons(e, d) && eq_means(e) implies val(e, t) == tt() by {
        let a = seq![Tree::Var(v), tree(f)]; let x = val(e, tree(f));
        assert(val(e, a[0]) == x); assert(val(e, a[1]) == x);
        assert(vals(e, t, a) =~= two(x, x));
    }
    if plain(t) { assert(t->App_2[1] == tree(f)); assert(plain(t->App_2[1])); }
}
'''
SPEC3 = r'''
// ---- all commands
pub open spec fn all_simple(s: Seq<Cmd>) -> bool { forall|i: int| 0 <= i < s.len() ==> simple(#[trigger] s[i]) }
pub open spec fn one(v: ISymbol, d: Defs) -> Defs { Map::<ISymbol, Term>::empty().insert(v, d[v]) }
pub open spec fn free_of(c: Cmd, v: ISymbol) -> bool { forall|f: Term| clean(c->Assert_0, #[trigger] Map::<ISymbol, Term>::empty().insert(v, f)) }
pub open spec fn listing(s: Seq<Cmd>) -> Seq<Tree> decreases s.len() { if s.len() == 0 { Seq::empty() } else { listing(s.drop_last()) + listed(s.last()) } }
pub open spec fn shaped(d: Defs, c: Cmd, r: Cmd) -> bool { match c { Cmd::Assert(t) => r matches Cmd::Assert(x) && plain(x) && same_val(d, t, x), _ => r == c } }
/// the commands after substituting (mid), the ones to be dropped, and the definitions found
pub open spec fn visited(c: Seq<Cmd>, mid: Seq<Cmd>, drop: Set<Cmd>, d: Defs) -> bool {
    mid.len() == c.len() && plains(d) && (forall|i: int| 0 <= i < c.len() ==> shaped(d, #[trigger] c[i], mid[i]))
    && (forall|x: Cmd| #[trigger] drop.contains(x) ==> declares_new(x) || trivial(d, x))
    && (forall|v: ISymbol| #[trigger] d.contains_key(v) ==> exists|i: int| 0 <= i < c.len() && defines(#[trigger] c[i], v) && c[i]->Assert_0->App_2[1] == tree(d[v]) && drop.contains(mid[i]))
    && (forall|i: int, j: int, v: ISymbol| 0 <= i <= j < c.len() && #[trigger] defines(c[i], v) && c[j] is Assert ==> free_of(#[trigger] mid[j], v))
    && (forall|i: int| 0 <= i < c.len() && declares_new(#[trigger] c[i]) ==> drop.contains(mid[i]))
}
pub open spec fn keep(s: Seq<Cmd>, drop: Set<Cmd>) -> Seq<Cmd> decreases s.len() { if s.len() == 0 { Seq::empty() } else if drop.contains(s.last()) { keep(s.drop_last(), drop) } else { keep(s.drop_last(), drop).push(s.last()) } }
pub proof fn lemma_shaped(a: Defs, b: Defs) requires forall|v: ISymbol| #[trigger] a.contains_key(v) ==> b.contains_key(v) && b[v] == a[v]
    ensures forall|e: Env| #[trigger] cons(e, b) ==> cons(e, a), forall|c: Cmd, r: Cmd| #[trigger] shaped(a, c, r) ==> shaped(b, c, r), forall|c: Cmd| #[trigger] trivial(a, c) ==> trivial(b, c)
{ assert forall|e: Env| #[trigger] cons(e, b) implies cons(e, a) by {} }
pub proof fn lemma_free(c: Cmd, d: Defs, v: ISymbol) requires c is Assert, clean(c->Assert_0, d), d.contains_key(v) ensures free_of(c, v)
{ assert forall|f: Term| clean(c->Assert_0, #[trigger] Map::<ISymbol, Term>::empty().insert(v, f)) by { lemma_clean(c->Assert_0, Map::<ISymbol, Term>::empty().insert(v, f), d); } }
/// for c in commands: c.fold_with(builder), all must succeed
#[verifier::exec_allows_no_decreases_clause]
pub fn vx_all(b: &mut StringSubformulaCountBuilder, commands: Vec<Command>) -> (r: Vec<Command>)
    requires old(b).defs() == Map::<ISymbol, Term>::empty(), old(b).drop() == Set::<Cmd>::empty(), old(b).list() == Seq::<Tree>::empty(),
    ensures all_simple(cmds(commands@)) && old(b).remap_string_vars ==> visited(cmds(commands@), cmds(r@), final(b).drop(), final(b).defs()),
        all_simple(cmds(commands@)) && !old(b).remap_string_vars ==> cmds(r@) == cmds(commands@) && final(b).list() == listing(cmds(commands@)),
{
    let mut r: Vec<Command> = Vec::new(); let mut i: usize = 0;
    let ghost all = cmds(commands@); let ghost re = b.remap_string_vars;
    let ghost ok = all_simple(all);
    proof { assert(all.take(0) =~= Seq::<Cmd>::empty()); assert(cmds(r@) =~= Seq::<Cmd>::empty()); }
    while i < commands.len()
        invariant i <= commands@.len(), r@.len() == i, all == cmds(commands@), b.remap_string_vars == re, ok == all_simple(all), !re ==> b.defs() == Map::<ISymbol, Term>::empty(),
            ok && re ==> visited(all.take(i as int), cmds(r@), b.drop(), b.defs()) && (forall|j: int, v: ISymbol| 0 <= j < i && #[trigger] defines(all[j], v) ==> b.defs().contains_key(v)),
            ok && !re ==> cmds(r@) == all.take(i as int) && b.list() == listing(all.take(i as int)),
    {
        let ghost b0 = *b; let ghost r0 = r@; let ghost p = all.take(i as int); let ghost q = all.take(i + 1);
        match b.vx_cmd(commands[i as usize].clone()) { Ok(x) => { r.push(x); } Err(_) => { vx_never::<()>(); } }
        proof {
            let c = cmd(commands@[i as int]); let x = r@[i as int];
            assert(q =~= p.push(c)); assert(q.drop_last() =~= p); assert(cmds(r@) =~= cmds(r0).push(cmd(x))); assert(all[i as int] == c);
            assert(stepped(b, &b0, c, cmd(x)));
            if ok { assert(simple(c)); if !re { assert(plains(b0.defs())); } }
            if ok && re {
                lemma_shaped(b0.defs(), b.defs());
                let mid = cmds(r@);
                assert forall|k: int| 0 <= k < q.len() implies shaped(b.defs(), #[trigger] q[k], mid[k]) by { if k < i { assert(shaped(b0.defs(), p[k], cmds(r0)[k])); } }
                assert forall|y: Cmd| #[trigger] b.drop().contains(y) implies declares_new(y) || trivial(b.defs(), y) by { if b0.drop().contains(y) {} }
                assert forall|v: ISymbol| #[trigger] b.defs().contains_key(v) implies exists|k: int| 0 <= k < q.len() && defines(#[trigger] q[k], v) && q[k]->Assert_0->App_2[1] == tree(b.defs()[v]) && b.drop().contains(mid[k]) by {
                    if b0.defs().contains_key(v) { let k = choose|k: int| 0 <= k < p.len() && defines(#[trigger] p[k], v) && p[k]->Assert_0->App_2[1] == tree(b0.defs()[v]) && b0.drop().contains(cmds(r0)[k]); assert(defines(q[k], v)); }
                    else { assert(b.defs() != b0.defs()); assert(defines(q[i as int], v)); }
                }
                assert forall|k: int, j: int, v: ISymbol| 0 <= k <= j < q.len() && #[trigger] defines(q[k], v) && q[j] is Assert implies free_of(#[trigger] mid[j], v) by {
                    if j < i { assert(defines(p[k], v)); assert(free_of(cmds(r0)[j], v)); } else { if k < i { assert(defines(all[k], v)); } lemma_free(mid[j], b.defs(), v); }
                }
                assert forall|k: int| 0 <= k < q.len() && declares_new(#[trigger] q[k]) implies b.drop().contains(mid[k]) by { if k < i { assert(declares_new(p[k])); } }
                assert forall|j: int, v: ISymbol| 0 <= j < i + 1 && #[trigger] defines(all[j], v) implies b.defs().contains_key(v) by {}
            }
        }
        i += 1;
    }
    proof { assert(all.take(i as int) =~= all); }
    r
}
// ---- the original shape (T05)
pub open spec fn rebuilt(c: Seq<Cmd>, out: Seq<Cmd>, mid: Seq<Cmd>, drop: Set<Cmd>, d: Defs) -> bool { visited(c, mid, drop, d) && out == keep(mid, drop) }
pub proof fn lemma_keep(s: Seq<Cmd>, drop: Set<Cmd>) ensures forall|i: int| 0 <= i < s.len() && !drop.contains(#[trigger] s[i]) ==> keep(s, drop).contains(s[i]), forall|x: Cmd| #[trigger] keep(s, drop).contains(x) ==> s.contains(x) && !drop.contains(x) decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); lemma_keep(p, drop);
        assert forall|i: int| 0 <= i < s.len() && !drop.contains(#[trigger] s[i]) implies keep(s, drop).contains(s[i]) by {
            if i < p.len() { assert(p[i] == s[i]); if !drop.contains(s.last()) { let k = keep(p, drop).index_of(s[i]); assert(keep(s, drop)[k] == s[i]); } } else { assert(keep(s, drop).last() == s[i]); }
        }
        assert forall|x: Cmd| #[trigger] keep(s, drop).contains(x) implies s.contains(x) && !drop.contains(x) by {
            if keep(p, drop).contains(x) { let i = p.index_of(x); assert(s[i] == x); }
            else { let i = keep(s, drop).index_of(x); if i < keep(p, drop).len() { assert(keep(p, drop)[i] == x); } assert(x == s.last()); assert(s[s.len() - 1] == x); }
        }
    }
}
/// what satisfies a query satisfies its original shape; what satisfies the original shape and gives the new variables their defined values satisfies the query
pub proof fn theorem_rebuilt(c: Seq<Cmd>, out: Seq<Cmd>, mid: Seq<Cmd>, drop: Set<Cmd>, d: Defs, e: Env) requires rebuilt(c, out, mid, drop, d), eq_means(e)
    ensures sat(e, c) ==> cons(e, d) && sat(e, out), cons(e, d) && sat(e, out) ==> sat(e, c)
{
    lemma_keep(mid, drop);
    if sat(e, c) {
        assert forall|v: ISymbol| #[trigger] d.contains_key(v) implies look(e, v) == val(e, tree(d[v])) by {
            let i = choose|i: int| 0 <= i < c.len() && defines(#[trigger] c[i], v) && c[i]->Assert_0->App_2[1] == tree(d[v]) && drop.contains(mid[i]);
            assert(holds(e, c[i])); let t = c[i]->Assert_0; let a = t->App_2; let f = tree(d[v]);
            assert(vals(e, t, a) =~= two(look(e, v), val(e, f)));
        }
        assert(cons(e, d));
        assert forall|k: int| 0 <= k < out.len() implies holds(e, #[trigger] out[k]) by { assert(keep(mid, drop).contains(out[k])); assert(mid.contains(out[k])); let i = mid.index_of(out[k]); assert(shaped(d, c[i], mid[i])); assert(holds(e, c[i])); }
    }
    if cons(e, d) && sat(e, out) {
        assert forall|i: int| 0 <= i < c.len() implies holds(e, #[trigger] c[i]) by {
            assert(shaped(d, c[i], mid[i]));
            if drop.contains(mid[i]) { assert(declares_new(mid[i]) || trivial(d, mid[i])); }
            else { assert(keep(mid, drop).contains(mid[i])); let k = out.index_of(mid[i]); assert(holds(e, out[k])); }
            assert(holds(e, mid[i]));
        }
    }
}

/// Display of a term
pub uninterp spec fn shown(t: Tree) -> String;
#[verifier::external_body] pub fn vx_show(t: &Term) -> (r: String) ensures r == shown(tree(*t)) { unimplemented!() }
'''
NORM = r'''
// ---- names by order of appearance (T08)
/// format!("v{}", n)
pub uninterp spec fn vname(n: int) -> ISymbol;
#[verifier::external_body] pub fn vx_name(n: usize) -> (r: ISymbol) ensures r == vname(n as int) { unimplemented!() }
#[verifier::external_body] pub proof fn axiom_vname(a: int, b: int) ensures vname(a) == vname(b) ==> a == b {}
#[verifier::external_body] pub fn vx_count(m: &HashMap<ISymbol, ISymbol>) -> (r: usize) ensures mp(*m).dom().finite() ==> r == mp(*m).dom().len() { unimplemented!() }
/// the variables in order of appearance, after o
pub open spec fn ord(t: Tree, o: Seq<ISymbol>) -> Seq<ISymbol> decreases t, 1nat, 0int { match t { Tree::Var(v) => if o.contains(v) { o } else { o.push(v) }, Tree::App(k, f, a) => ord_upto(t, a, a.len() as int, o), _ => o } }
pub open spec fn ord_upto(t: Tree, a: Seq<Tree>, n: int, o: Seq<ISymbol>) -> Seq<ISymbol> decreases t, 0nat, n when t is App && a == t->App_2 && n <= a.len() { if n <= 0 { o } else { ord(a[n - 1], ord_upto(t, a, n - 1, o)) } }
pub open spec fn rens(t: Tree, a: Seq<Tree>, f: spec_fn(ISymbol) -> ISymbol) -> Seq<Tree> decreases t, 0nat when t is App && a == t->App_2 { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { ren(a[i], f) } else { arbitrary() }) }
/// renamed
pub open spec fn ren(t: Tree, f: spec_fn(ISymbol) -> ISymbol) -> Tree decreases t, 1nat { match t { Tree::Var(v) => Tree::Var(f(v)), Tree::App(k, g, a) => Tree::App(k, g, rens(t, a, f)), _ => t } }
pub open spec fn occurs(t: Tree, v: ISymbol) -> bool decreases t { match t { Tree::Var(w) => v == w, Tree::App(k, g, a) => exists|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], v), _ => false } }
pub open spec fn nm(o: Seq<ISymbol>) -> spec_fn(ISymbol) -> ISymbol { |v: ISymbol| vname(o.index_of(v)) }
pub open spec fn norm(t: Tree) -> Tree { ren(t, nm(ord(t, Seq::empty()))) }
pub open spec fn named(m: Map<ISymbol, ISymbol>, o: Seq<ISymbol>) -> bool { o.no_duplicates() && m.dom() =~= o.to_set() && forall|i: int| 0 <= i < o.len() ==> m[#[trigger] o[i]] == vname(i) }
pub open spec fn before(o: Seq<ISymbol>, p: Seq<ISymbol>) -> bool { o.len() <= p.len() && p.no_duplicates() && o == p.take(o.len() as int) }
pub proof fn lemma_before(o: Seq<ISymbol>, p: Seq<ISymbol>) requires before(o, p) ensures forall|v: ISymbol| #[trigger] o.contains(v) ==> p.contains(v) && nm(o)(v) == nm(p)(v)
{ assert forall|v: ISymbol| #[trigger] o.contains(v) implies p.contains(v) && nm(o)(v) == nm(p)(v) by { let i = o.index_of(v); assert(p[i] == v); let j = p.index_of(v); assert(i == j); } }
pub proof fn lemma_trans(o: Seq<ISymbol>, p: Seq<ISymbol>, q: Seq<ISymbol>) requires before(o, p), before(p, q) ensures before(o, q) { assert(o =~= q.take(o.len() as int)); }
pub proof fn lemma_ord(t: Tree, o: Seq<ISymbol>) requires o.no_duplicates() ensures before(o, ord(t, o)), forall|v: ISymbol| #[trigger] occurs(t, v) ==> ord(t, o).contains(v) decreases t, 1nat, 0int
{
    match t {
        Tree::Var(v) => { if o.contains(v) { assert(o =~= o.take(o.len() as int)); } else { assert(o =~= o.push(v).take(o.len() as int)); assert(o.push(v).last() == v); } },
        Tree::App(k, f, a) => { lemma_ord_upto(t, a, a.len() as int, o); assert forall|v: ISymbol| #[trigger] occurs(t, v) implies ord(t, o).contains(v) by { let i = choose|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], v); } },
        _ => { assert(o =~= o.take(o.len() as int)); } }
}
pub proof fn lemma_ord_upto(t: Tree, a: Seq<Tree>, n: int, o: Seq<ISymbol>) requires o.no_duplicates(), t is App, a == t->App_2, 0 <= n <= a.len() ensures before(o, ord_upto(t, a, n, o)), forall|i: int, v: ISymbol| 0 <= i < n && #[trigger] occurs(a[i], v) ==> ord_upto(t, a, n, o).contains(v) decreases t, 0nat, n
{
    if n <= 0 { assert(o =~= o.take(o.len() as int)); }
    else { let p = ord_upto(t, a, n - 1, o); lemma_ord_upto(t, a, n - 1, o); lemma_ord(a[n - 1], p); lemma_trans(o, p, ord(a[n - 1], p)); lemma_before(p, ord(a[n - 1], p));
        assert forall|i: int, v: ISymbol| 0 <= i < n && #[trigger] occurs(a[i], v) implies ord_upto(t, a, n, o).contains(v) by { if i < n - 1 { assert(p.contains(v)); } } }
}
pub proof fn lemma_ren(t: Tree, f: spec_fn(ISymbol) -> ISymbol, g: spec_fn(ISymbol) -> ISymbol) requires forall|v: ISymbol| #[trigger] occurs(t, v) ==> f(v) == g(v) ensures ren(t, f) == ren(t, g) decreases t
{
    match t { Tree::Var(v) => { assert(occurs(t, v)); }, Tree::App(k, h, a) => {
        assert forall|i: int| 0 <= i < a.len() implies ren(#[trigger] a[i], f) == ren(a[i], g) by { assert forall|v: ISymbol| #[trigger] occurs(a[i], v) implies f(v) == g(v) by { assert(occurs(t, v)); } lemma_ren(a[i], f, g); }
        assert(rens(t, a, f) =~= rens(t, a, g)); }, _ => {} }
}
/// renaming in one order or a longer one
pub proof fn lemma_longer(t: Tree, o: Seq<ISymbol>, p: Seq<ISymbol>) requires before(ord(t, o), p), o.no_duplicates() ensures ren(t, nm(ord(t, o))) == ren(t, nm(p))
{ lemma_ord(t, o); lemma_before(ord(t, o), p); assert forall|v: ISymbol| #[trigger] occurs(t, v) implies nm(ord(t, o))(v) == nm(p)(v) by { assert(ord(t, o).contains(v)); } lemma_ren(t, nm(ord(t, o)), nm(p)); }
pub open spec fn one_to_one(t: Tree, f: spec_fn(ISymbol) -> ISymbol) -> bool { forall|v: ISymbol, w: ISymbol| #[trigger] occurs(t, v) && #[trigger] occurs(t, w) && f(v) == f(w) ==> v == w }
pub open spec fn inj_on(o: Seq<ISymbol>, f: spec_fn(ISymbol) -> ISymbol) -> bool { forall|v: ISymbol, w: ISymbol| #[trigger] o.contains(v) && #[trigger] o.contains(w) && f(v) == f(w) ==> v == w }
pub proof fn lemma_inj(o: Seq<ISymbol>, p: Seq<ISymbol>, f: spec_fn(ISymbol) -> ISymbol) requires inj_on(p, f), before(o, p) ensures inj_on(o, f) { lemma_before(o, p); }
/// the order of a renamed term is the renamed order
pub proof fn lemma_ord_ren(t: Tree, o: Seq<ISymbol>, f: spec_fn(ISymbol) -> ISymbol) requires o.no_duplicates(), inj_on(ord(t, o), f) ensures ord(ren(t, f), o.map_values(f)) == ord(t, o).map_values(f) decreases t, 1nat, 0int
{
    match t {
        Tree::Var(v) => {
            if o.contains(v) { let i = o.index_of(v); assert(o.map_values(f)[i] == f(v)); }
            else {
                assert(o.push(v).last() == v); assert(o.push(v).contains(v));
                if o.map_values(f).contains(f(v)) { let i = o.map_values(f).index_of(f(v)); assert(o.push(v)[i] == o[i]); assert(o.push(v).contains(o[i])); assert(o[i] == v); assert(false); }
                assert(o.push(v).map_values(f) =~= o.map_values(f).push(f(v)));
            }
        },
        Tree::App(k, g, a) => { lemma_ord_ren_upto(t, a, a.len() as int, o, f); },
        _ => {} }
}
pub proof fn lemma_ord_ren_upto(t: Tree, a: Seq<Tree>, n: int, o: Seq<ISymbol>, f: spec_fn(ISymbol) -> ISymbol) requires t is App, a == t->App_2, 0 <= n <= a.len(), o.no_duplicates(), inj_on(ord_upto(t, a, n, o), f)
    ensures ord_upto(ren(t, f), rens(t, a, f), n, o.map_values(f)) == ord_upto(t, a, n, o).map_values(f) decreases t, 0nat, n
{
    if n > 0 { let p = ord_upto(t, a, n - 1, o); lemma_ord_upto(t, a, n - 1, o); lemma_ord(a[n - 1], p); lemma_inj(p, ord(a[n - 1], p), f); lemma_ord_ren_upto(t, a, n - 1, o, f); lemma_ord_ren(a[n - 1], p, f); assert(rens(t, a, f)[n - 1] == ren(a[n - 1], f)); }
}
pub proof fn lemma_comp(t: Tree, f: spec_fn(ISymbol) -> ISymbol, g: spec_fn(ISymbol) -> ISymbol) ensures ren(ren(t, f), g) == ren(t, |v: ISymbol| g(f(v))) decreases t
{
    if let Tree::App(k, h, a) = t {
        assert forall|i: int| 0 <= i < a.len() implies ren(ren(#[trigger] a[i], f), g) == ren(a[i], |v: ISymbol| g(f(v))) by { lemma_comp(a[i], f, g); }
        assert(rens(ren(t, f), rens(t, a, f), g) =~= rens(t, a, |v: ISymbol| g(f(v))));
    }
}
/// every variable in the order occurs
pub proof fn lemma_occ(t: Tree, o: Seq<ISymbol>, v: ISymbol) requires ord(t, o).contains(v) ensures o.contains(v) || occurs(t, v) decreases t, 1nat, 0int
{ match t { Tree::Var(w) => { if !o.contains(w) { let i = o.push(w).index_of(v); if i < o.len() { assert(o[i] == v); } } }, Tree::App(k, f, a) => { lemma_occ_upto(t, a, a.len() as int, o, v); }, _ => {} } }
pub proof fn lemma_occ_upto(t: Tree, a: Seq<Tree>, n: int, o: Seq<ISymbol>, v: ISymbol) requires t is App, a == t->App_2, 0 <= n <= a.len(), ord_upto(t, a, n, o).contains(v) ensures o.contains(v) || occurs(t, v) decreases t, 0nat, n
{ if n > 0 { lemma_occ(a[n - 1], ord_upto(t, a, n - 1, o), v); if ord_upto(t, a, n - 1, o).contains(v) { lemma_occ_upto(t, a, n - 1, o, v); } else { assert(occurs(a[n - 1], v)); } } }
/// subformulas equal up to a one-to-one renaming have the same entry
pub proof fn theorem_same_entry(t: Tree, f: spec_fn(ISymbol) -> ISymbol) requires one_to_one(t, f) ensures norm(ren(t, f)) == norm(t)
{
    let e = Seq::<ISymbol>::empty(); let o = ord(t, e); lemma_ord(t, e);
    assert forall|v: ISymbol, w: ISymbol| #[trigger] o.contains(v) && #[trigger] o.contains(w) && f(v) == f(w) implies v == w by { lemma_occ(t, e, v); lemma_occ(t, e, w); }
    lemma_ord_ren(t, e, f); assert(e.map_values(f) =~= e);
    let p = o.map_values(f); let g = nm(p); lemma_comp(t, f, g);
    assert forall|v: ISymbol| #[trigger] occurs(t, v) implies g(f(v)) == nm(o)(v) by { let i = o.index_of(v); assert(p[i] == f(v)); let j = p.index_of(f(v)); assert(o.contains(o[j])); assert(f(o[j]) == f(v)); assert(o[j] == v); assert(i == j); }
    lemma_ren(t, |v: ISymbol| g(f(v)), nm(o));
}
pub proof fn lemma_back(s: Tree, t: Tree, o: Seq<ISymbol>, p: Seq<ISymbol>, f: spec_fn(ISymbol) -> ISymbol)
    requires ren(s, nm(o)) == ren(t, nm(p)), forall|v: ISymbol| #[trigger] occurs(s, v) ==> o.contains(v), forall|v: ISymbol| #[trigger] occurs(t, v) ==> p.contains(v), p.no_duplicates(), forall|v: ISymbol| f(v) == p[o.index_of(v)]
    ensures ren(s, f) == t, forall|v: ISymbol| #[trigger] occurs(s, v) ==> 0 <= o.index_of(v) < p.len() decreases s
{
    match s {
        Tree::Var(v) => { if let Tree::Var(w) = t { assert(occurs(s, v)); assert(occurs(t, w)); axiom_vname(o.index_of(v), p.index_of(w)); } },
        Tree::App(k, h, a) => {
            if let Tree::App(k2, h2, b) = t {
                let (x, y) = (rens(s, a, nm(o)), rens(t, b, nm(p))); assert(x == y); assert(x.len() == y.len());
                assert forall|i: int| 0 <= i < a.len() implies ren(#[trigger] a[i], f) == b[i] && (forall|v: ISymbol| #[trigger] occurs(a[i], v) ==> 0 <= o.index_of(v) < p.len()) by {
                    assert(x[i] == y[i]);
                    assert forall|v: ISymbol| #[trigger] occurs(a[i], v) implies o.contains(v) by { assert(occurs(s, v)); }
                    assert forall|v: ISymbol| #[trigger] occurs(b[i], v) implies p.contains(v) by { assert(occurs(t, v)); }
                    lemma_back(a[i], b[i], o, p, f);
                }
                assert(rens(s, a, f) =~= b);
                assert forall|v: ISymbol| #[trigger] occurs(s, v) implies 0 <= o.index_of(v) < p.len() by { let i = choose|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], v); assert(ren(a[i], f) == b[i]); }
            }
        },
        _ => { assert forall|v: ISymbol| #[trigger] occurs(s, v) implies 0 <= o.index_of(v) < p.len() by {} } }
}
/// the renaming that takes the variables in order to those in another order
pub open spec fn across(o: Seq<ISymbol>, p: Seq<ISymbol>) -> spec_fn(ISymbol) -> ISymbol { |v: ISymbol| p[o.index_of(v)] }
/// subformulas with the same entry are equal up to a one-to-one renaming
pub proof fn theorem_one_renaming(s: Tree, t: Tree) requires norm(s) == norm(t) ensures ({ let f = across(ord(s, Seq::empty()), ord(t, Seq::empty())); one_to_one(s, f) && ren(s, f) == t })
{
    let e = Seq::<ISymbol>::empty(); let (o, p) = (ord(s, e), ord(t, e)); lemma_ord(s, e); lemma_ord(t, e); let f = across(o, p);
    lemma_back(s, t, o, p, f);
    assert forall|v: ISymbol, w: ISymbol| #[trigger] occurs(s, v) && #[trigger] occurs(s, w) && f(v) == f(w) implies v == w by { assert(o.contains(v)); assert(o.contains(w)); assert(o.index_of(v) == o.index_of(w)); assert(o[o.index_of(v)] == v); assert(o[o.index_of(w)] == w); }
}
/// what normalising a term does
pub open spec fn normed(n: Map<ISymbol, ISymbol>, m: Map<ISymbol, ISymbol>, t: Tree, r: Tree) -> bool { plain(t) ==> forall|o: Seq<ISymbol>| #[trigger] named(m, o) ==> named(n, ord(t, o)) && r == ren(t, nm(ord(t, o))) }
impl VariableNameNormalizer {
    pub open spec fn map(&self) -> Map<ISymbol, ISymbol> { mp(self.cur_vars) }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_args(&mut self, args: Vec<Term>, vx_k: Ghost<int>, vx_f: Ghost<Func>) -> (r: Vec<Term>)
        ensures normed(final(self).map(), old(self).map(), Tree::App(vx_k@, vx_f@, trees(args)), Tree::App(vx_k@, vx_f@, trees(r)))
    {
        let mut r: Vec<Term> = Vec::new(); let mut i: usize = 0;
        let ghost m0 = self.map(); let ghost a = trees(args); let ghost t = Tree::App(vx_k@, vx_f@, a);
        while i < args.len()
            invariant i <= args@.len(), r@.len() == i, a == trees(args), t == Tree::App(vx_k@, vx_f@, a),
                plain(t) ==> forall|o: Seq<ISymbol>| #[trigger] named(m0, o) ==> named(self.map(), ord_upto(t, a, i as int, o)) && forall|j: int| 0 <= j < i ==> tree(#[trigger] r@[j]) == ren(a[j], nm(ord_upto(t, a, i as int, o))),
        {
            let ghost r0 = r@; let ghost m1 = self.map();
            let x = self.fold_term(args[i].clone());
            let y = match x { Ok(y) => y, Err(_) => vx_never() };
            r.push(y);
            proof {
                if plain(t) { assert(plain(t->App_2[i as int]));
                assert forall|o: Seq<ISymbol>| #[trigger] named(m0, o) implies named(self.map(), ord_upto(t, a, i + 1, o)) && forall|j: int| 0 <= j < i + 1 ==> tree(#[trigger] r@[j]) == ren(a[j], nm(ord_upto(t, a, i + 1, o))) by {
                    let p = ord_upto(t, a, i as int, o); let q = ord_upto(t, a, i + 1, o); assert(named(m1, p)); assert(q == ord(a[i as int], p)); assert(normed(self.map(), m1, a[i as int], tree(y)));
                    lemma_ord_upto(t, a, i as int, o); lemma_ord(a[i as int], p); lemma_before(p, q);
                    assert forall|j: int| 0 <= j < i + 1 implies tree(#[trigger] r@[j]) == ren(a[j], nm(q)) by {
                        if j < i { assert(tree(r0[j]) == ren(a[j], nm(p)));
                            assert forall|v: ISymbol| #[trigger] occurs(a[j], v) implies nm(p)(v) == nm(q)(v) by { assert(p.contains(v)); }
                            lemma_ren(a[j], nm(p), nm(q)); }
                    }
                } }
            }
            i += 1;
        }
        proof { if plain(t) { assert forall|o: Seq<ISymbol>| #[trigger] named(m0, o) implies Tree::App(vx_k@, vx_f@, trees(r)) == ren(t, nm(ord(t, o))) by { let q = ord(t, o); assert(trees(r) =~= rens(t, a, nm(q))); } } }
        r
    }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_super(&mut self, t: Term) -> (r: Result<Term, Error>) ensures r is Ok, normed(final(self).map(), old(self).map(), tree(t), tree(r->Ok_0))
    {
        match t {
            Term::Constant(c) => Ok(Term::Constant(c)),
            Term::Variable(v) => self.fold_var(v),
            Term::CoreOp(a) => { let App { f, args } = a; let args = self.vx_args(args, Ghost(0), Ghost(f)); Ok(Term::CoreOp(App { f, args })) },
            Term::OtherOp(a) => { let App { f, args } = a; let args = self.vx_args(args, Ghost(1), Ghost(f)); Ok(Term::OtherOp(App { f, args })) },
            Term::UF(a) => { let App { f, args } = a; let args = self.vx_args(args, Ghost(2), Ghost(f)); Ok(Term::UF(App { f, args })) },
            Term::Rest(o) => vx_nrest(self, o),
        }
    }
}
#[verifier::external_body] pub fn vx_nrest(b: &mut VariableNameNormalizer, o: Opaque) -> (r: Result<Term, Error>) ensures r is Ok { unimplemented!() }
pub proof fn lemma_named(m: Map<ISymbol, ISymbol>, o: Seq<ISymbol>, v: ISymbol) requires named(m, o)
    ensures m.dom().finite(), m.dom().len() == o.len(), m.contains_key(v) == o.contains(v), o.contains(v) ==> m[v] == nm(o)(v), !o.contains(v) ==> named(m.insert(v, vname(o.len() as int)), o.push(v)) && nm(o.push(v))(v) == vname(o.len() as int)
{
    o.unique_seq_to_set(); assert(m.dom() == o.to_set()); assert(m.contains_key(v) == o.to_set().contains(v));
    if o.contains(v) { let i = o.index_of(v); assert(m[o[i]] == vname(i)); }
    else {
        let n = m.insert(v, vname(o.len() as int)); let p = o.push(v);
        assert(p.last() == v); assert(p.index_of(v) == o.len());
        assert forall|w: ISymbol| #[trigger] n.dom().contains(w) == p.to_set().contains(w) by { if o.contains(w) { let i = o.index_of(w); assert(p[i] == w); assert(o.to_set().contains(w)); } else if p.contains(w) { let i = p.index_of(w); if i < o.len() { assert(o[i] == w); } } }
        assert forall|i: int| 0 <= i < p.len() implies n[#[trigger] p[i]] == vname(i) by { if i < o.len() { assert(m[o[i]] == vname(i)); assert(o.contains(o[i])); } }
    }
}
pub proof fn lemma_apps(t: Tree, x: Tree) requires plain(t), apps(t).contains(x) ensures plain(x) decreases t, 1nat, 0int
{ if let Tree::App(k, f, a) = t { let u = apps_upto(t, a, a.len() as int); let i = apps(t).index_of(x); if i < u.len() { assert(u[i] == x); lemma_apps_upto(t, a, a.len() as int, x); } } }
pub proof fn lemma_apps_upto(t: Tree, a: Seq<Tree>, n: int, x: Tree) requires plain(t), t is App, a == t->App_2, 0 <= n <= a.len(), apps_upto(t, a, n).contains(x) ensures plain(x) decreases t, 0nat, n
{ if n > 0 { let u = apps_upto(t, a, n - 1); assert(plain(t->App_2[n - 1])); let i = apps_upto(t, a, n).index_of(x); if i < u.len() { assert(u[i] == x); lemma_apps_upto(t, a, n - 1, x); } else { assert(apps(a[n - 1])[i - u.len()] == x); lemma_apps(a[n - 1], x); } } }
pub proof fn lemma_listing(s: Seq<Cmd>, i: int) requires all_simple(s), 0 <= i < listing(s).len() ensures plain(listing(s)[i]) decreases s.len()
{ if s.len() > 0 { let p = s.drop_last(); assert(all_simple(p)) by { assert forall|k: int| 0 <= k < p.len() implies simple(#[trigger] p[k]) by { assert(p[k] == s[k]); } } assert(simple(s[s.len() - 1]));
    if i < listing(p).len() { lemma_listing(p, i); } else if let Cmd::Assert(t) = s.last() { assert(apps(t)[i - listing(p).len()] == listing(s)[i]); assert(apps(t).contains(listing(s)[i])); lemma_apps(t, listing(s)[i]); } } }
'''
T = [('type', 'Self :: Error', 'Error', '*'), ('desugar', '$x:id . clone ( ) . fold_with ( self )', 'self.fold_term($x.clone())', '*'), ('desugar', '$x:id . fold_with ( self )', 'self.fold_term($x)', '*'), ('desugar', '$x:id . super_fold_with ( self )', 'self.vx_super($x)', '*'),
     ('desugar', 'self . string_fct_calls . get ( $x )', 'vx_get(&self.string_fct_calls, $x)', '*'), ('desugar', 'self . string_fct_calls . contains_key ( $x )', 'vx_has(&self.string_fct_calls, $x)', '*'),
     ('desugar', 'self . string_fct_calls . insert ( $k , $v )', 'vx_put(&mut self.string_fct_calls, $k, $v)', '*'), ('desugar', 'self . var_type_map . insert ( $k , $v )', 'vx_put(&mut self.var_type_map, $k, $v)', '*'),
     ('desugar', '$s:id . get_type ( )', 'vx_type(&$s)', '*'), ('desugar', 'self . remap_useless_commands . insert ( $x )', 'vx_add(&mut self.remap_useless_commands, $x)', '*'),
     ('desugar', '$s:id . 0 . starts_with ( "new_var" )', 'vx_isnew(&$s)', '*'), ('desugar', '$s:id . sym_str ( ) . starts_with ( "new_var" )', 'vx_isnew($s.sym())', '*'),
     ('desugar', '$t:id . op ( ) . is_some ( )', 'vx_isop(&$t)', '*'),
     ('desugar', 'if let CoreOp :: Eq ( $a:id ) = $o:id . as_ref ( ) { if let [ Term :: Variable ( $v:id ) , $f:id @ ( $p* ) ] = $a:id . as_slice ( ) $b:tt }', 'if let Some((Term::Variable($v), $f)) = vx_pair(&$o) { if matches!($f, $p) $b }', '*'),
     ('desugar', 'f . clone ( )', '(*f).clone()', '*')]
B = 'IntraLogicFolder for StringSubformulaCountBuilder::'
def build(u):
    u.add(TERMS)
    u.add(SPEC)
    u.add(SPEC2)
    u.add(SPEC3)
    u.add(NORM)
    u.item(F, 'struct', 'StringSubformulaCountBuilder', prefix='pub ', rules=[('type', '$x:id : HashMap', 'pub $x : HashMap', '*'), ('type', 'sub_terms : Vec', 'pub sub_terms: Vec'), ('type', 'remap_string_vars : bool', 'pub remap_string_vars: bool'), ('type', 'remap_useless_commands : HashSet', 'pub remap_useless_commands: HashSet')])
    u.add('impl StringSubformulaCountBuilder {')
    u.fn(F, 'StringSubformulaCountBuilder::new', ret='r', rules=[('desugar', 'HashMap :: new ( )', 'vx_new()', '*'), ('desugar', 'HashSet :: new ( )', 'vx_set()')], ensures='r.defs() == Map::<ISymbol, Term>::empty(), r.list() == Seq::<Tree>::empty(), r.drop() == Set::<Cmd>::empty(), r.remap_string_vars == remap_string_vars')
    NT = '#[verifier::exec_allows_no_decreases_clause]\n'
    u.fn(F, B + 'fold_var', ret='r', rules=T, prefix=NT, ensures='r is Ok, folded(final(self), old(self), Tree::Var(v.0), tree(r->Ok_0))')
    u.fn(F, B + 'fold_term', ret='r', rules=T + [('ghost', 'self . sub_terms . push ( t . clone ( ) ) ;', '«let ghost l1 = self.list();» self . sub_terms . push ( t . clone ( ) ) ; «proof { assert(self.list() =~= l1 + seq![tree(t)]); }»', '*')], prefix=NT, ensures='r is Ok, folded(final(self), old(self), tree(t), tree(r->Ok_0))')
    u.fn(F, B + 'fold_assert', ret='r', rules=T + [('ghost', 'let mut term_to_ret', '«let ghost t0 = tree(term); let ghost d0 = self.defs(); let ghost p0 = plain(t0) && plains(d0);» let mut term_to_ret', '*'),
        ('ghost', 'useless_command = true ;', '''useless_command = true ; «proof {
            assert(t0 == eq_tree(Tree::Var(v.0), tree(*f))); assert(self.defs() =~= d0.insert(v.0, *f)); lemma_def(t0, v.0, *f, self.defs());
            assert(grew(d0, self.defs(), Cmd::Assert(t0))); if p0 { assert(plains(self.defs())); } }»''', '*'),
        ('ghost', 'let output = Command', '''«proof {
            assert(useless_command ==> grew(d0, self.defs(), Cmd::Assert(t0)));
            assert(self.remap_string_vars && !useless_command ==> grew(d0, self.defs(), Cmd::Assert(t0)));
            if p0 { assert(plains(self.defs())); assert(same_val(self.defs(), t0, tree(output))); } }» let output = Command''', '*')], prefix=NT, ensures='r is Ok, stepped(final(self), old(self), Cmd::Assert(tree(term)), cmd(r->Ok_0))')
    u.fn(F, B + 'fold_declare_const', ret='r', rules=T, ensures='r is Ok, stepped(final(self), old(self), Cmd::DeclareConst(symbol, sort), cmd(r->Ok_0))')
    u.fn(F, B + 'fold_declare_fun', ret='r', rules=T, ensures='r is Ok, stepped(final(self), old(self), Cmd::DeclareFun(symbol, parameters@, sort), cmd(r->Ok_0))')
    u.fn(F, 'StringSubformulaCountBuilder::remap_useless_commands', ret='r', ensures='*r == self.remap_useless_commands')
    u.add('}')
    RT = [('desugar', 'output . retain ( | $c:id | { $e* } ) ;', """{ let mut vx_o: Vec<Command> = Vec::new(); let mut vx_i: usize = 0;
            while vx_i < output.len() «invariant vx_i <= output@.len(), cmds(vx_o@) == keep(cmds(output@).take(vx_i as int), string_subforumla_builder.drop()), decreases output@.len() - vx_i» {
                «let ghost vx_b = vx_o@;» let $c = &output[vx_i]; if $e { vx_o.push($c.clone()); }
                «proof { let s = cmds(output@); let p = s.take(vx_i as int); let q = s.take(vx_i + 1); assert(q.drop_last() =~= p); assert(q.last() == s[vx_i as int]); if vx_o@.len() > vx_b.len() { assert(cmds(vx_o@) =~= cmds(vx_b).push(cmd(output@[vx_i as int]))); } }»
                vx_i += 1; }
            «proof { assert(cmds(output@).take(vx_i as int) =~= cmds(output@)); }» output = vx_o; }""", '*'),
          ('desugar', '$b:id . remap_useless_commands ( ) . contains ( $c )', 'vx_in($b.remap_useless_commands(), $c)', '*'),
          ('desugar', 'commands . into_iter ( ) . map ( | $c:id | $c:id . fold_with ( & mut $b:id ) ) . collect :: < Result < Vec < Command > , _ > > ( ) . unwrap ( )', 'vx_all(&mut $b, commands)', '*'),
          ('desugar', 'commands . map ( | $c:id | $c:id . fold_with ( & mut $b:id ) ) . collect :: < Result < Vec < Command > , _ > > ( ) . unwrap ( )', 'vx_all(&mut $b, commands)', '*')]
    u.fn(F, 'reconstruct_orig_query_shape', ret='r', rules=RT + [('ghost', 'let mut output = $e ;', '«let ghost c0 = cmds(commands@);» let mut output = $e ; «let ghost mid = cmds(output@);»', '*'),
        ('ghost', 'output = vx_o ; }', 'output = vx_o ; } «proof { if all_simple(c0) { assert(rebuilt(c0, cmds(output@), mid, string_subforumla_builder.drop(), string_subforumla_builder.defs())); } }»', '*')], ensures='all_simple(cmds(commands@)) ==> exists|mid: Seq<Cmd>, drop: Set<Cmd>, d: Defs| #[trigger] rebuilt(cmds(commands@), cmds(r@), mid, drop, d)')
    u.item(F, 'struct', 'VariableNameNormalizer', prefix='pub ', rules=[('type', 'cur_vars :', 'pub cur_vars:')])
    u.add('impl VariableNameNormalizer {')
    N = 'IntraLogicFolder for VariableNameNormalizer::'
    NR = [('type', 'Self :: Error', 'Error', '*'), ('desugar', '$x:id . super_fold_with ( self )', 'self.vx_super($x)', '*'), ('desugar', '$m:id . get ( $x )', 'vx_get($m, $x)', '*'), ('desugar', '$m:id . insert ( $k , $v )', 'vx_put($m, $k, $v)', '*'),
          ('desugar', 'format ! ( "v{}" , $m:id . len ( ) ) . into ( )', 'vx_name(vx_count($m))', '*')]
    u.fn(F, N + 'fold_term', ret='r', rules=NR, prefix=NT, ensures='r is Ok, normed(final(self).map(), old(self).map(), tree(term), tree(r->Ok_0))')
    u.fn(F, N + 'fold_var', ret='r', rules=NR + [('ghost', 'let cur_vars', '«let ghost m0 = self.map();» let cur_vars', '*'), ('ghost', 'Ok ( Term :: Variable', '«proof { assert forall|o: Seq<ISymbol>| #[trigger] named(m0, o) implies named(self.map(), ord(Tree::Var(var.0), o)) && Tree::Var(new) == ren(Tree::Var(var.0), nm(ord(Tree::Var(var.0), o))) by { lemma_named(m0, o, var.0); } }» Ok ( Term :: Variable', '*')], ensures='r is Ok, normed(final(self).map(), old(self).map(), Tree::Var(var.0), tree(r->Ok_0))')
    u.add('}')
    FR = [('type', 'commands : impl Iterator < Item = Command >', 'commands: Vec<Command>')] + RT + [('desugar', 'HashMap :: new ( )', 'vx_new()', '*'), ('desugar', '$n:id . cur_vars . clear ( )', 'vx_clear(&mut $n.cur_vars)', '*'),
          ('desugar', '$t:id . fold_with ( & mut $n:id )', '$n.fold_term($t.clone())', '*'), ('desugar', 'match e { }', 'vx_never()', '*'),
          ('desugar', '$b:id . sub_terms . iter ( ) . map ( | $t:id | $body:tt ) . collect :: < Vec < Term > > ( )', """{ let mut vx_o: Vec<Term> = Vec::new(); let mut vx_i: usize = 0;
            while vx_i < $b.sub_terms.len() «invariant vx_i <= $b.sub_terms@.len(), vx_o@.len() == vx_i, forall|j: int| 0 <= j < vx_i && plain(tree($b.sub_terms@[j])) ==> tree(#[trigger] vx_o@[j]) == norm(tree($b.sub_terms@[j])), decreases $b.sub_terms@.len() - vx_i» {
                let $t = &$b.sub_terms[vx_i]; «proof { assert(named(Map::empty(), Seq::empty())); }» let vx_x = $body; vx_o.push(vx_x); vx_i += 1; }
            «proof { if all_simple(c0) && !remap_string_vars { assert forall|j: int| 0 <= j < vx_o@.len() implies tree(#[trigger] vx_o@[j]) == norm(listing(c0)[j]) by { lemma_listing(c0, j); assert($b.list()[j] == tree($b.sub_terms@[j])); } } }» vx_o }""", '*'),
          ('ghost', 'let mut output = $e ;', '«let ghost c0 = cmds(commands@);» let mut output = $e ;', '*')]
    u.fn(F, 'find_string_subforumlas', ret='r', rules=FR, ensures='all_simple(cmds(commands@)) && !remap_string_vars ==> r@.len() == listing(cmds(commands@)).len() && forall|i: int| 0 <= i < r@.len() ==> tree(#[trigger] r@[i]) == norm(listing(cmds(commands@))[i])')
    u.item(F, 'struct', 'SubFormulaJson', prefix='pub ')
    u.add('impl SubFormulaJson {')
    u.fn(F, 'SubFormulaJson::new', ret='r', rules=[('desugar', '$t:id . to_string ( )', 'vx_show($t)', '*'),
          ('desugar', 'terms . iter ( ) . map ( | $t:id | $e* ) . collect :: < Vec < String > > ( )', """{ let mut vx_o: Vec<String> = Vec::new(); let mut vx_i: usize = 0;
            while vx_i < terms.len() «invariant vx_i <= terms@.len(), vx_o@.len() == vx_i, forall|j: int| 0 <= j < vx_i ==> #[trigger] vx_o@[j] == shown(tree(terms@[j])), decreases terms@.len() - vx_i» {
                let $t = &terms[vx_i]; let vx_x = $e; vx_o.push(vx_x); vx_i += 1; } vx_o }""", '*')],
        ensures='r.sub_formula_list@.len() == terms@.len(), forall|j: int| 0 <= j < terms@.len() ==> #[trigger] r.sub_formula_list@[j] == shown(tree(terms@[j]))')
    u.add('}')
