"""Naming the string functions of a query (T05): transpiler_visitors.rs."""
from term_common import *
F = 'amzn-smt-string-transformer/src/transpiler_visitors.rs'
TIMEOUT = 300
NOTES = 'Assumed: the traversal by aws-smt-ir (as in u_subf), maps, sets, formatting of the names a<n> and new_var<n> (different for different n, and from one another), the call graph (unit u_graph). Nothing is claimed for terms with let, match or quantifiers, nor for the names of symbols declared twice.'
SPEC = r'''
use std::collections::{HashMap, HashSet, BTreeSet};
// ---- names
pub uninterp spec fn aname(n: int) -> ISymbol;
pub uninterp spec fn nv(n: int) -> ISymbol;
#[verifier::external_body] pub fn vx_aname(n: usize) -> (r: ISymbol) ensures r == aname(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_nv(n: usize) -> (r: ISymbol) ensures r == nv(n as int) { unimplemented!() }
#[verifier::external_body] pub proof fn axiom_names() ensures forall|a: int, b: int| #[trigger] aname(a) == #[trigger] aname(b) ==> a == b, forall|a: int, b: int| #[trigger] nv(a) == #[trigger] nv(b) ==> a == b, forall|a: int, b: int| #[trigger] aname(a) != #[trigger] nv(b) {}
pub uninterp spec fn fsym(f: Func) -> ISymbol;
pub uninterp spec fn mkuf(s: ISymbol) -> Func;
#[verifier::external_body] pub proof fn axiom_uf() ensures forall|s: ISymbol| fsym(#[trigger] mkuf(s)) == s, forall|f: Func| mkuf(#[trigger] fsym(f)) == f {}
/// an uninterpreted function with its arguments
pub struct UApp { pub func: ISymbol, pub args: Vec<Term> }
#[verifier::external_body] pub fn vx_fsym(f: Func) -> (r: ISymbol) ensures r == fsym(f) { unimplemented!() }
#[verifier::external_body] pub fn vx_mkuf(u: UApp) -> (r: Term) ensures tree(r) == Tree::App(2, mkuf(u.func), trees(u.args)) { unimplemented!() }
// ---- maps and sets
pub uninterp spec fn mp<V>(m: HashMap<ISymbol, V>) -> Map<ISymbol, V>;
pub uninterp spec fn tm(m: HashMap<Term, ISymbol>) -> Map<Tree, ISymbol>;
pub uninterp spec fn ss<K>(s: BTreeSet<K>) -> Set<K>;
#[verifier::external_body] pub fn vx_get<'a, V>(m: &'a HashMap<ISymbol, V>, s: &ISymbol) -> (r: Option<&'a V>) ensures r matches Some(v) ==> mp(*m).contains_key(*s) && *v == mp(*m)[*s], r is None ==> !mp(*m).contains_key(*s) { unimplemented!() }
#[verifier::external_body] pub fn vx_put<V>(m: &mut HashMap<ISymbol, V>, k: ISymbol, v: V) ensures mp(*final(m)) == mp(*old(m)).insert(k, v) { unimplemented!() }
#[verifier::external_body] pub fn vx_tget(m: &HashMap<Term, ISymbol>, t: &Term) -> (r: Option<ISymbol>) ensures r matches Some(v) ==> tm(*m).contains_key(tree(*t)) && v == tm(*m)[tree(*t)], r is None ==> !tm(*m).contains_key(tree(*t)) { unimplemented!() }
#[verifier::external_body] pub fn vx_tput(m: &mut HashMap<Term, ISymbol>, k: Term, v: ISymbol) ensures tm(*final(m)) == tm(*old(m)).insert(tree(k), v) { unimplemented!() }
#[verifier::external_body] pub fn vx_tlen(m: &HashMap<Term, ISymbol>) -> (r: usize) ensures tm(*m).dom().finite() ==> r == tm(*m).dom().len() { unimplemented!() }
#[verifier::external_body] pub fn vx_set<K>() -> (r: BTreeSet<K>) ensures ss(r) == Set::<K>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_sadd<K>(s: &mut BTreeSet<K>, k: K) ensures ss(*final(s)) == ss(*old(s)).insert(k) { unimplemented!() }
#[verifier::external_body] pub fn vx_shas<K>(s: &BTreeSet<K>, k: &K) -> (r: bool) ensures r == ss(*s).contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn vx_sclone(s: &String) -> (r: String) ensures r == *s { unimplemented!() }
// ---- string functions
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StringFct { x: () }
#[verifier::external_body] pub struct IdentType { x: () }
pub uninterp spec fn eqsf() -> StringFct;
pub uninterp spec fn noop() -> StringFct;
pub uninterp spec fn rtype(s: StringFct) -> IdentType;
pub uninterp spec fn stype(s: ISort) -> IdentType;
pub uninterp spec fn string_type() -> IdentType;
pub uninterp spec fn sort_of(s: IdentType) -> ISort;
#[verifier::external_body] pub fn vx_iseq(s: StringFct) -> (r: bool) ensures r == (s == eqsf()) { unimplemented!() }
#[verifier::external_body] pub fn vx_noop() -> (r: StringFct) ensures r == noop() { unimplemented!() }
#[verifier::external_body] pub fn vx_rtype(s: StringFct) -> (r: IdentType) ensures r == rtype(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_isstr(s: &ISort) -> (r: bool) ensures r == (stype(*s) == string_type()) { unimplemented!() }
#[verifier::external_body] pub fn vx_sort(s: &IdentType) -> (r: ISort) ensures r == sort_of(*s) { unimplemented!() }
/// the string function a function symbol stands for
pub uninterp spec fn sfct(k: int, f: Func) -> Option<StringFct>;
pub open spec fn fct(t: Tree) -> Option<StringFct> { match t { Tree::App(k, f, _) => sfct(k, f), _ => None } }
#[verifier::external_body] pub fn vx_fct(t: &Term) -> (r: Option<StringFct>) ensures r == fct(tree(*t)) { unimplemented!() }
pub open spec fn argl(t: Tree) -> Seq<Tree> { match t { Tree::App(_, _, a) => a, _ => Seq::empty() } }
#[verifier::external_body] pub fn vx_op(t: &Term) -> (r: Option<&App>) ensures r is Some == is_app(tree(*t)), r matches Some(a) ==> argl(tree(*t)) == trees(a.args) { unimplemented!() }
/// the text of a string literal
pub uninterp spec fn cstr(c: IConst) -> Option<String>;
#[verifier::external_body] pub fn vx_str(c: &IConst) -> (r: Option<&String>) ensures r is Some == cstr(*c) is Some, r matches Some(s) ==> cstr(*c) == Some(*s) { unimplemented!() }
pub open spec fn is_lit(t: Tree, s: String) -> bool { t matches Tree::Const(c) && cstr(c) == Some(s) }
pub open spec fn lit(t: Tree) -> bool { t matches Tree::Const(c) && cstr(c) is Some }
/// the literals among the arguments
pub open spec fn lits_upto(a: Seq<Tree>, n: int) -> Set<String> decreases n { if n <= 0 { Set::empty() } else if lit(a[n - 1]) { lits_upto(a, n - 1).insert(cstr(a[n - 1]->Const_0)->0) } else { lits_upto(a, n - 1) } }
pub open spec fn lits(t: Tree) -> Set<String> { lits_upto(argl(t), argl(t).len() as int) }
/// the variables of vs among the arguments
pub open spec fn vars_upto(a: Seq<Tree>, n: int, vs: Set<ISymbol>) -> Set<ISymbol> decreases n { if n <= 0 { Set::empty() } else if a[n - 1] is Var && vs.contains(a[n - 1]->Var_0) { vars_upto(a, n - 1, vs).insert(a[n - 1]->Var_0) } else { vars_upto(a, n - 1, vs) } }
pub open spec fn var_args(t: Tree, vs: Set<ISymbol>) -> Set<ISymbol> { vars_upto(argl(t), argl(t).len() as int, vs) }
pub proof fn lemma_vin(a: Seq<Tree>, n: int, vs: Set<ISymbol>, v: ISymbol) requires 0 <= n <= a.len() ensures vars_upto(a, n, vs).contains(v) == (vs.contains(v) && exists|i: int| 0 <= i < n && #[trigger] a[i] == Tree::Var(v)) decreases n
{
    if n > 0 { lemma_vin(a, n - 1, vs, v); if a[n - 1] == Tree::Var(v) {} else if vs.contains(v) && exists|i: int| 0 <= i < n && #[trigger] a[i] == Tree::Var(v) { let i = choose|i: int| 0 <= i < n && #[trigger] a[i] == Tree::Var(v); assert(0 <= i < n - 1); } }
}
// ---- the call graph (u_graph)
#[verifier::external_body] pub struct CallGraph { x: () }
pub struct CallnodeData { pub f: StringFct, pub l: BTreeSet<String> }
impl CallnodeData { pub fn new(f: StringFct, l: BTreeSet<String>) -> (r: Self) ensures r.f == f, r.l == l { CallnodeData { f, l } } }
pub ghost struct Graph { pub calls: Map<ISymbol, (StringFct, Set<String>)>, pub edges: Set<(ISymbol, ISymbol)>, pub sibs: Set<(Set<ISymbol>, Set<String>)> }
impl CallGraph {
    pub uninterp spec fn g(&self) -> Graph;
    #[verifier::external_body] pub fn add_call(&mut self, v: ISymbol, c: CallnodeData) -> (r: usize) ensures final(self).g() == (Graph { calls: old(self).g().calls.insert(v, (c.f, ss(c.l))), ..old(self).g() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_constraint_var(&mut self, v: ISymbol, c: CallnodeData) -> (r: usize) ensures final(self).g() == (Graph { calls: old(self).g().calls.insert(v, (c.f, ss(c.l))), ..old(self).g() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_parent_child(&mut self, p: &ISymbol, c: &ISymbol) -> (r: Result<(), Error>) ensures r is Ok <==> old(self).g().calls.contains_key(*p) && old(self).g().calls.contains_key(*c), r is Err ==> final(self).g() == old(self).g(),
        r is Ok ==> final(self).g() == (Graph { edges: old(self).g().edges.insert((*p, *c)), ..old(self).g() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_direct_siblings(&mut self, s: BTreeSet<ISymbol>, l: BTreeSet<String>) -> (r: Result<(), Error>) ensures r is Ok <==> (forall|v: ISymbol| #[trigger] ss(s).contains(v) ==> old(self).g().calls.contains_key(v)), 
        final(self).g() == (Graph { sibs: final(self).g().sibs, ..old(self).g() }), forall|p: (Set<ISymbol>, Set<String>)| #[trigger] old(self).g().sibs.contains(p) ==> final(self).g().sibs.contains(p), r is Ok ==> final(self).g().sibs.contains((ss(s), ss(l))) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_eq(a: Term, b: Term) -> (r: Term) ensures tree(r) == eq_tree(tree(a), tree(b)) { unimplemented!() }
pub fn vx_never<X>() -> (r: X) requires false { vx_panic() }
#[verifier::external_body] pub fn vx_panic<X>() -> (r: X) requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_chars(s: &mut HashSet<ISymbol>, a: &Vec<Term>, f: StringFct, m: &HashMap<ISymbol, ISymbol>) { unimplemented!() }
// ---- renaming and definitions
pub type Alpha = Map<ISymbol, ISymbol>;
pub open spec fn rf(k: int, al: Alpha, f: Func) -> Func { if k == 2 && al.contains_key(fsym(f)) { mkuf(al[fsym(f)]) } else { f } }
/// the same values under the new names
pub open spec fn alike(e: Env, e2: Env, al: Alpha) -> bool { (forall|s: ISymbol| #[trigger] al.contains_key(s) ==> look(e, s) == look(e2, al[s])) && (forall|k: int, f: Func, a: Seq<Val>| #[trigger] apply(e, k, f, a) == apply(e2, k, rf(k, al, f), a)) }
/// the new variables have their defined values
pub open spec fn defined(e2: Env, ds: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ds.len() ==> look(e2, #[trigger] nv(i)) == val(e2, ds[i]) }
pub open spec fn known(v: ISymbol, m: int, n: int) -> bool { (exists|i: int| 0 <= i < m && v == #[trigger] aname(i)) || (exists|i: int| 0 <= i < n && v == #[trigger] nv(i)) }
/// only variables with new names
pub open spec fn inscope(t: Tree, m: int, n: int) -> bool decreases t { match t { Tree::Var(v) => known(v, m, n), Tree::App(_, _, a) => forall|i: int| 0 <= i < a.len() ==> inscope(#[trigger] a[i], m, n), _ => true } }
/// all variables are declared
pub open spec fn scoped(t: Tree, al: Alpha) -> bool decreases t { match t { Tree::Var(v) => al.contains_key(v), Tree::App(_, _, a) => forall|i: int| 0 <= i < a.len() ==> scoped(#[trigger] a[i], al), _ => true } }
/// an equality that is not (known to be) over strings
pub open spec fn other_eq(t: Tree) -> bool { fct(t) == Some(eqsf()) && exists|i: int| 0 <= i < argl(t).len() && !lit(#[trigger] argl(t)[i]) }
/// some argument is neither a string literal nor one of the string variables
pub open spec fn odd(a: Seq<Tree>, n: int, vs: Set<ISymbol>) -> bool { exists|i: int| 0 <= i < n && !lit(#[trigger] a[i]) && !(a[i] matches Tree::Var(v) && vs.contains(v)) }
/// no string function
pub open spec fn flat(t: Tree) -> bool decreases t { match t { Tree::App(k, f, a) => (sfct(k, f) is None || other_eq(t)) && forall|i: int| 0 <= i < a.len() ==> flat(#[trigger] a[i]), _ => true } }
pub open spec fn flat_args(t: Tree) -> bool { forall|i: int| 0 <= i < argl(t).len() ==> flat(#[trigger] argl(t)[i]) && plain(argl(t)[i]) }
pub open spec fn eq_tree(a: Tree, b: Tree) -> Tree { Tree::App(0, eqf(), seq![a, b]) }
pub open spec fn named(m: Map<Tree, ISymbol>, o: Seq<Tree>) -> bool { o.no_duplicates() && m.dom() =~= o.to_set() && forall|i: int| 0 <= i < o.len() ==> m[#[trigger] o[i]] == nv(i) }
pub proof fn lemma_named(m: Map<Tree, ISymbol>, o: Seq<Tree>, v: Tree) requires named(m, o)
    ensures m.dom().finite(), m.dom().len() == o.len(), m.contains_key(v) == o.contains(v), o.contains(v) ==> m[v] == nv(o.index_of(v)), !o.contains(v) ==> named(m.insert(v, nv(o.len() as int)), o.push(v))
{
    o.unique_seq_to_set(); assert(m.dom() == o.to_set()); assert(m.contains_key(v) == o.to_set().contains(v));
    if o.contains(v) { let i = o.index_of(v); assert(m[o[i]] == nv(i)); }
    else {
        let n = m.insert(v, nv(o.len() as int)); let p = o.push(v); assert(p.last() == v);
        assert forall|w: Tree| #[trigger] n.dom().contains(w) == p.to_set().contains(w) by { if o.contains(w) { let i = o.index_of(w); assert(p[i] == w); assert(o.to_set().contains(w)); } else if p.contains(w) { let i = p.index_of(w); if i < o.len() { assert(o[i] == w); } } }
        assert forall|i: int| 0 <= i < p.len() implies n[#[trigger] p[i]] == nv(i) by { if i < o.len() { assert(m[o[i]] == nv(i)); assert(o.contains(o[i])); } }
    }
}
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && a =~= b.take(a.len() as int) }
/// the graph knows the call, its literals and its arguments
pub open spec fn linked(g: Graph, v: ISymbol, t: Tree, vs: Set<ISymbol>) -> bool {
    g.calls.contains_key(v) && fct(t) == Some(g.calls[v].0) && g.calls[v].1 =~= lits(t) && (forall|w: ISymbol| #[trigger] var_args(t, vs).contains(w) ==> g.edges.contains((v, w))) && g.sibs.contains((var_args(t, vs), lits(t)))
}
impl IdentifyStringsBuilder {
    /// the definitions of new_var0, new_var1, ..
    pub open spec fn ds(&self) -> Seq<Tree> { self.assert_list@.map_values(|c: Command| cmd(c)->Assert_0->App_2[1]) }
    pub open spec fn al(&self) -> Alpha { mp(self.alpha_renaming_map) }
    pub open spec fn vs(&self) -> Set<ISymbol> { ss(self.string_var_list) }
    pub open spec fn g(&self) -> Graph { self.callgraph.g() }
    pub open spec fn wf0(&self) -> bool {
        (forall|i: int| 0 <= i < self.assert_list@.len() ==> cmd(#[trigger] self.assert_list@[i]) == Cmd::Assert(eq_tree(Tree::Var(nv(i)), self.ds()[i])))
        && named(tm(self.const_map), self.ds())
        && (forall|i: int| 0 <= i < self.ds().len() ==> is_app(#[trigger] self.ds()[i]) && fct(self.ds()[i]) is Some && plain(self.ds()[i]) && flat_args(self.ds()[i]) && inscope(self.ds()[i], self.num_renamed as int, i)
            && mp(self.string_var_defn_map).contains_key(nv(i)) && tree(mp(self.string_var_defn_map)[nv(i)]) == self.ds()[i] && cmds(self.decl_const_list@).contains(Cmd::DeclareConst(nv(i), sort_of(rtype(fct(self.ds()[i])->0)))))
        && (forall|v: ISymbol| #[trigger] mp(self.string_var_defn_map).contains_key(v) ==> exists|i: int| 0 <= i < self.ds().len() && v == #[trigger] nv(i))
        && (forall|s: ISymbol| #[trigger] self.al().contains_key(s) ==> exists|i: int| 0 <= i < self.num_renamed && self.al()[s] == #[trigger] aname(i))
        && (forall|s: ISymbol, t: ISymbol| #[trigger] self.al().contains_key(s) && #[trigger] self.al().contains_key(t) && self.al()[s] == self.al()[t] ==> s == t)
        && (forall|v: ISymbol| #[trigger] self.vs().contains(v) ==> known(v, self.num_renamed as int, self.ds().len() as int) && self.g().calls.contains_key(v))
    }
    pub open spec fn wfg(&self) -> bool { forall|i: int| 0 <= i < self.ds().len() ==> linked(self.g(), nv(i), #[trigger] self.ds()[i], self.vs()) }
    pub open spec fn wf(&self) -> bool { self.wf0() && self.wfg() }
    pub open spec fn grew(&self, o: &Self) -> bool { self.num_renamed == o.num_renamed && self.al() == o.al() && prefix(o.ds(), self.ds()) && prefix(cmds(o.decl_const_list@), cmds(self.decl_const_list@)) && self.alpha_renaming_map == o.alpha_renaming_map }
    pub open spec fn fits(&self, r: Tree) -> bool { plain(r) && flat(r) && inscope(r, self.num_renamed as int, self.ds().len() as int) }
    pub open spec fn same_val(&self, t: Tree, r: Tree) -> bool { forall|e: Env, e2: Env| #[trigger] alike(e, e2, self.al()) && #[trigger] defined(e2, self.ds()) ==> val(e, t) == val(e2, r) }
    pub open spec fn ok_args(&self, a: Seq<Tree>, r: Seq<Tree>) -> bool { a.len() == r.len() && forall|i: int| 0 <= i < a.len() ==> self.fits(#[trigger] r[i]) && self.same_val(a[i], r[i]) }
}
/// what folding a term does
pub open spec fn folded(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder, t: Tree, r: Tree) -> bool { o.wf() && plain(t) && scoped(t, o.al()) ==> n.wf() && n.grew(o) && n.fits(r) && n.same_val(t, r) }
pub proof fn lemma_scope(t: Tree, m: int, n: int, m2: int, n2: int) requires inscope(t, m, n), m <= m2, n <= n2 ensures inscope(t, m2, n2) decreases t
{ if let Tree::App(k, f, a) = t { assert forall|i: int| 0 <= i < a.len() implies inscope(#[trigger] a[i], m2, n2) by { lemma_scope(a[i], m, n, m2, n2); } } }
pub proof fn lemma_grew(a: &IdentifyStringsBuilder, b: &IdentifyStringsBuilder, c: &IdentifyStringsBuilder) requires b.grew(a), c.grew(b)
    ensures c.grew(a)
{ assert(a.ds() =~= c.ds().take(a.ds().len() as int)); assert(cmds(a.decl_const_list@) =~= cmds(c.decl_const_list@).take(cmds(a.decl_const_list@).len() as int)); }
pub proof fn lemma_later(a: &IdentifyStringsBuilder, b: &IdentifyStringsBuilder, t: Tree, r: Tree) requires b.grew(a) ensures a.fits(r) ==> b.fits(r), a.same_val(t, r) ==> b.same_val(t, r)
{
    if a.fits(r) { lemma_scope(r, a.num_renamed as int, a.ds().len() as int, b.num_renamed as int, b.ds().len() as int); }
    if a.same_val(t, r) { assert forall|e: Env, e2: Env| #[trigger] alike(e, e2, b.al()) && #[trigger] defined(e2, b.ds()) implies val(e, t) == val(e2, r) by {
        assert forall|i: int| 0 <= i < a.ds().len() implies look(e2, #[trigger] nv(i)) == val(e2, a.ds()[i]) by { assert(a.ds()[i] == b.ds()[i]); }
        assert(defined(e2, a.ds())); } }
}
pub proof fn lemma_apply(e: Env, e2: Env, k: int, f: Func, g: Func, a: Seq<Tree>, b: Seq<Tree>, al: Alpha)
    requires alike(e, e2, al), g == rf(k, al, f), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> val(e, #[trigger] a[i]) == val(e2, b[i]) ensures val(e, Tree::App(k, f, a)) == val(e2, Tree::App(k, g, b))
{ let (s, t) = (Tree::App(k, f, a), Tree::App(k, g, b)); assert(vals(e, s, a) =~= vals(e2, t, b)); assert(apply(e, k, f, vals(e, s, a)) == apply(e2, k, g, vals(e, s, a))); }
/// an application after its arguments
pub proof fn lemma_node(n: &IdentifyStringsBuilder, k: int, f: Func, g: Func, a: Seq<Tree>, b: Seq<Tree>) requires n.ok_args(a, b), g == rf(k, n.al(), f)
    ensures ({ let r = Tree::App(k, g, b); n.same_val(Tree::App(k, f, a), r) && plain(r) && flat_args(r) && inscope(r, n.num_renamed as int, n.ds().len() as int) })
{
    let r = Tree::App(k, g, b);
    assert forall|e: Env, e2: Env| #[trigger] alike(e, e2, n.al()) && #[trigger] defined(e2, n.ds()) implies val(e, Tree::App(k, f, a)) == val(e2, r) by {
        assert forall|i: int| 0 <= i < a.len() implies val(e, #[trigger] a[i]) == val(e2, b[i]) by { assert(n.fits(b[i]) && n.same_val(a[i], b[i])); }
        lemma_apply(e, e2, k, f, g, a, b, n.al()); }
    assert forall|i: int| 0 <= i < b.len() implies plain(#[trigger] b[i]) && flat(b[i]) && inscope(b[i], n.num_renamed as int, n.ds().len() as int) by { assert(n.fits(b[i])); }
}
/// folded, except that the term itself may still be a string function
pub open spec fn half(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder, t: Tree, r: Tree) -> bool { o.wf() && plain(t) && scoped(t, o.al()) ==> n.wf() && n.grew(o) && plain(r) && flat_args(r) && inscope(r, n.num_renamed as int, n.ds().len() as int) && n.same_val(t, r) }
impl IdentifyStringsBuilder {
    // assumed (aws-smt-ir): how a term is traversed
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_args(&mut self, args: Vec<Term>) -> (r: Vec<Term>)
        ensures old(self).wf() && (forall|i: int| 0 <= i < args@.len() ==> plain(#[trigger] trees(args)[i]) && scoped(trees(args)[i], old(self).al())) ==> final(self).wf() && final(self).grew(old(self)) && final(self).ok_args(trees(args), trees(r))
    {
        let mut r: Vec<Term> = Vec::new(); let mut i: usize = 0;
        let ghost o = *self; let ghost a = trees(args); let ghost ok = o.wf() && (forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]) && scoped(a[i], o.al()));
        proof { assert(self.grew(&o)); }
        while i < args.len()
            invariant i <= args@.len(), r@.len() == i, a == trees(args), ok == (o.wf() && (forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]) && scoped(a[i], o.al()))),
                ok ==> self.wf() && self.grew(&o) && forall|j: int| 0 <= j < i ==> self.fits(tree(#[trigger] r@[j])) && self.same_val(a[j], tree(r@[j])),
        {
            let ghost s1 = *self; let ghost r1 = r@;
            let x = self.fold_term(args[i].clone());
            let y = match x { Ok(y) => y, Err(_) => vx_never() };
            r.push(y);
            proof { if ok {
                assert(plain(a[i as int])); assert(tree(args@[i as int]) == a[i as int]); assert(folded(self, &s1, a[i as int], tree(y))); lemma_grew(&o, &s1, self);
                assert forall|j: int| 0 <= j < i + 1 implies self.fits(tree(#[trigger] r@[j])) && self.same_val(a[j], tree(r@[j])) by { if j < i { assert(s1.fits(tree(r1[j])) && s1.same_val(a[j], tree(r1[j]))); lemma_later(&s1, self, a[j], tree(r@[j])); } }
            } }
            i += 1;
        }
        proof { if ok { assert forall|j: int| 0 <= j < a.len() implies self.fits(#[trigger] trees(r)[j]) && self.same_val(a[j], trees(r)[j]) by { assert(self.fits(tree(r@[j]))); } } }
        r
    }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_ufargs(&mut self, u: UApp) -> (r: Result<UApp, Error>) ensures r is Ok, r->Ok_0.func == u.func,
        old(self).wf() && (forall|i: int| 0 <= i < u.args@.len() ==> plain(#[trigger] trees(u.args)[i]) && scoped(trees(u.args)[i], old(self).al())) ==> final(self).wf() && final(self).grew(old(self)) && final(self).ok_args(trees(u.args), trees(r->Ok_0.args))
    { let args = self.vx_args(u.args); Ok(UApp { func: u.func, args }) }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn vx_super(&mut self, t: Term) -> (r: Result<Term, Error>) ensures r is Ok, half(final(self), old(self), tree(t), tree(r->Ok_0))
    {
        let ghost o = *self; let ghost t0 = tree(t); let ghost ok = o.wf() && plain(t0) && scoped(t0, o.al());
        match t {
            Term::Constant(c) => self.fold_const(c),
            Term::Variable(v) => self.fold_var(v),
            Term::CoreOp(a) => { let App { f, args } = a; let ghost g = trees(args); proof { lemma_split(t0, 0, f, g, o.al()); } let args = self.vx_args(args); proof { if ok { lemma_node(self, 0, f, f, g, trees(args)); } } Ok(Term::CoreOp(App { f, args })) },
            Term::OtherOp(a) => { let App { f, args } = a; let ghost g = trees(args); proof { lemma_split(t0, 1, f, g, o.al()); } let args = self.vx_args(args); proof { if ok { lemma_node(self, 1, f, f, g, trees(args)); } } Ok(Term::OtherOp(App { f, args })) },
            Term::UF(a) => { let App { f, args } = a; proof { axiom_uf(); } self.fold_uninterpreted_func(UApp { func: vx_fsym(f), args }) },
            Term::Rest(o) => vx_rest(self, o),
        }
    }
}
pub proof fn lemma_split(t: Tree, k: int, f: Func, a: Seq<Tree>, al: Alpha) requires t == Tree::App(k, f, a) ensures plain(t) && scoped(t, al) ==> forall|i: int| 0 <= i < a.len() ==> plain(#[trigger] a[i]) && scoped(a[i], al)
{ if plain(t) && scoped(t, al) { assert forall|i: int| 0 <= i < a.len() implies plain(#[trigger] a[i]) && scoped(a[i], al) by { assert(plain(t->App_2[i])); assert(scoped(t->App_2[i], al)); } } }
/// the arguments of a definition are not among the variables that come later
pub proof fn lemma_linked(g: Graph, h: Graph, v: ISymbol, t: Tree, vs: Set<ISymbol>, x: ISymbol, m: int, n: int)
    requires linked(g, v, t, vs), inscope(t, m, n), is_app(t), !known(x, m, n), h.calls.contains_key(v), h.calls[v].0 == g.calls[v].0, h.calls[v].1 =~= g.calls[v].1, forall|p: (ISymbol, ISymbol)| #[trigger] g.edges.contains(p) ==> h.edges.contains(p), forall|p: (Set<ISymbol>, Set<String>)| #[trigger] g.sibs.contains(p) ==> h.sibs.contains(p)
    ensures linked(h, v, t, vs), linked(h, v, t, vs.insert(x))
{
    assert forall|w: ISymbol| var_args(t, vs.insert(x)).contains(w) == var_args(t, vs).contains(w) by { let a = argl(t); lemma_vin(a, a.len() as int, vs, w); lemma_vin(a, a.len() as int, vs.insert(x), w); if w == x && exists|i: int| 0 <= i < a.len() && #[trigger] a[i] == Tree::Var(x) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == Tree::Var(x); assert(t->App_2[i] == Tree::Var(x)); assert(inscope(t->App_2[i], m, n)); } }
    assert(var_args(t, vs.insert(x)) =~= var_args(t, vs));
}
pub proof fn lemma_prefix<A>(a: Seq<A>) ensures prefix(a, a) { assert(a =~= a.take(a.len() as int)); }
/// nothing that matters changed but the graph, which knows more
pub proof fn lemma_same(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder)
    requires only_graph(n, o), o.wf(), forall|v: ISymbol| #[trigger] o.g().calls.contains_key(v) ==> n.g().calls.contains_key(v) && n.g().calls[v].0 == o.g().calls[v].0 && n.g().calls[v].1 =~= o.g().calls[v].1,
        forall|p: (ISymbol, ISymbol)| #[trigger] o.g().edges.contains(p) ==> n.g().edges.contains(p), forall|p: (Set<ISymbol>, Set<String>)| #[trigger] o.g().sibs.contains(p) ==> n.g().sibs.contains(p)
    ensures n.wf(), n.grew(o), n.ds() == o.ds(), n.al() == o.al()
{
    assert(n.ds() =~= o.ds()); assert(n.al() == o.al()); assert(n.vs() == o.vs()); lemma_prefix(o.ds()); lemma_prefix(cmds(o.decl_const_list@));
    assert forall|i: int| 0 <= i < n.ds().len() implies linked(n.g(), nv(i), #[trigger] n.ds()[i], n.vs()) by { assert(linked(o.g(), nv(i), o.ds()[i], o.vs())); }
}
pub open spec fn ready(o: &IdentifyStringsBuilder, t: Tree, sfc: StringFct) -> bool { o.wf() && is_app(t) && plain(t) && flat_args(t) && inscope(t, o.num_renamed as int, o.ds().len() as int) && fct(t) == Some(sfc) }
/// a definition was added
pub proof fn lemma_defined(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder, t: Tree, sfc: StringFct)
    requires ready(o, t, sfc), !tm(o.const_map).contains_key(t), n.num_renamed == o.num_renamed, n.alpha_renaming_map == o.alpha_renaming_map,
        ({ let v = nv(o.ds().len() as int); n.vs() == o.vs().insert(v) && tm(n.const_map) == tm(o.const_map).insert(t, v)
            && n.assert_list@.len() == o.assert_list@.len() + 1 && n.assert_list@.take(o.assert_list@.len() as int) =~= o.assert_list@ && cmd(n.assert_list@.last()) == Cmd::Assert(eq_tree(Tree::Var(v), t))
            && n.decl_const_list@.len() == o.decl_const_list@.len() + 1 && n.decl_const_list@.take(o.decl_const_list@.len() as int) =~= o.decl_const_list@ && cmd(n.decl_const_list@.last()) == Cmd::DeclareConst(v, sort_of(rtype(sfc)))
            && (exists|x: Term| tree(x) == t && mp(n.string_var_defn_map) == #[trigger] mp(o.string_var_defn_map).insert(v, x))
            && n.g().calls == o.g().calls.insert(v, (sfc, lits(t))) && (forall|w: ISymbol| #[trigger] var_args(t, n.vs()).contains(w) ==> n.g().edges.contains((v, w))) && n.g().sibs.contains((var_args(t, n.vs()), lits(t))) }),
        forall|p: (ISymbol, ISymbol)| #[trigger] o.g().edges.contains(p) ==> n.g().edges.contains(p), forall|p: (Set<ISymbol>, Set<String>)| #[trigger] o.g().sibs.contains(p) ==> n.g().sibs.contains(p)
    ensures n.wf(), n.grew(o), n.ds() == o.ds().push(t)
{
    assert(n.al() == o.al()); axiom_names(); let k = o.ds().len() as int; let v = nv(k); let m = o.num_renamed as int;
    assert forall|i: int| 0 <= i < n.ds().len() implies #[trigger] n.ds()[i] == o.ds().push(t)[i] by { if i < k { assert(n.assert_list@[i] == n.assert_list@.take(k)[i]); } else { assert(eq_tree(Tree::Var(v), t)->App_2[1] == t); } }
    assert(n.ds() =~= o.ds().push(t)); assert(o.ds() =~= n.ds().take(k));
    let (c, d) = (cmds(o.decl_const_list@), cmds(n.decl_const_list@));
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == d[i] by { assert(n.decl_const_list@[i] == n.decl_const_list@.take(c.len() as int)[i]); }
    assert(c =~= d.take(c.len() as int)); assert(d[c.len() as int] == Cmd::DeclareConst(v, sort_of(rtype(sfc))));
    lemma_named(tm(o.const_map), o.ds(), t);
    assert forall|i: int| 0 <= i < n.assert_list@.len() implies cmd(#[trigger] n.assert_list@[i]) == Cmd::Assert(eq_tree(Tree::Var(nv(i)), n.ds()[i])) by { if i < k { assert(n.assert_list@[i] == n.assert_list@.take(k)[i]); assert(cmd(o.assert_list@[i]) == Cmd::Assert(eq_tree(Tree::Var(nv(i)), o.ds()[i]))); } }
    assert forall|i: int| 0 <= i < n.ds().len() implies cmds(n.decl_const_list@).contains(Cmd::DeclareConst(nv(i), sort_of(rtype(fct(#[trigger] n.ds()[i])->0)))) by {
        if i < k { let x = Cmd::DeclareConst(nv(i), sort_of(rtype(fct(o.ds()[i])->0))); assert(c.contains(x)); let j = c.index_of(x); assert(d[j] == c[j]); } }
    assert(!known(v, m, k));
    assert forall|i: int| 0 <= i < n.ds().len() implies is_app(#[trigger] n.ds()[i]) && fct(n.ds()[i]) is Some && plain(n.ds()[i]) && flat_args(n.ds()[i]) && inscope(n.ds()[i], m, i)
        && mp(n.string_var_defn_map).contains_key(nv(i)) && tree(mp(n.string_var_defn_map)[nv(i)]) == n.ds()[i] by { if i < k { assert(n.ds()[i] == o.ds()[i]); assert(nv(i) != v); } }
    assert forall|w: ISymbol| #[trigger] mp(n.string_var_defn_map).contains_key(w) implies exists|i: int| 0 <= i < n.ds().len() && w == #[trigger] nv(i) by { if w == v { assert(w == nv(k)); } else { assert(mp(o.string_var_defn_map).contains_key(w)); let i = choose|i: int| 0 <= i < k && w == #[trigger] nv(i); assert(w == nv(i)); } }
    assert forall|w: ISymbol| #[trigger] n.vs().contains(w) implies known(w, m, k + 1) && n.g().calls.contains_key(w) by { if w != v { assert(o.vs().contains(w)); assert(known(w, m, k)); } else { assert(w == nv(k)); } }
    assert forall|i: int| 0 <= i < n.ds().len() implies linked(n.g(), nv(i), #[trigger] n.ds()[i], n.vs()) by {
        if i < k { let d = o.ds()[i]; assert(n.ds()[i] == d); assert(linked(o.g(), nv(i), d, o.vs())); assert(nv(i) != v); lemma_scope(d, m, i, m, k); lemma_linked(o.g(), n.g(), nv(i), d, o.vs(), v, m, k); } }
}
/// a term was replaced by its variable
pub proof fn lemma_call(n: &IdentifyStringsBuilder, m: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder, t: Tree, v: ISymbol) requires n.grew(m), exists|i: int| 0 <= i < n.ds().len() && v == #[trigger] nv(i) && n.ds()[i] == t
    ensures n.fits(Tree::Var(v)), m.grew(o) ==> n.grew(o), forall|s: Tree| #[trigger] m.same_val(s, t) ==> n.same_val(s, Tree::Var(v))
{
    let i = choose|i: int| 0 <= i < n.ds().len() && v == #[trigger] nv(i) && n.ds()[i] == t;
    assert(known(v, n.num_renamed as int, n.ds().len() as int)); if m.grew(o) { lemma_grew(o, m, n); }
    assert forall|s: Tree| #[trigger] m.same_val(s, t) implies n.same_val(s, Tree::Var(v)) by { lemma_later(m, n, s, t);
        assert forall|e: Env, e2: Env| #[trigger] alike(e, e2, n.al()) && #[trigger] defined(e2, n.ds()) implies val(e, s) == val(e2, Tree::Var(v)) by { assert(look(e2, nv(i)) == val(e2, n.ds()[i])); } }
}
/// a variable was declared
pub proof fn lemma_declared(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder, s: ISymbol, c: Cmd)
    requires o.wf(), !o.al().contains_key(s), n.num_renamed == o.num_renamed + 1, ({ let a = aname(o.num_renamed as int); n.al() == o.al().insert(s, a) && (n.vs() == o.vs() && n.g() == o.g() || n.vs() == o.vs().insert(a) && n.g().edges == o.g().edges && n.g().sibs == o.g().sibs && n.g().calls.contains_key(a) && forall|w: ISymbol| w != a ==> #[trigger] n.g().calls.contains_key(w) == o.g().calls.contains_key(w) && n.g().calls[w] == o.g().calls[w]) }),
        n.const_map == o.const_map, n.assert_list == o.assert_list, n.string_var_defn_map == o.string_var_defn_map, n.decl_const_list@.len() == o.decl_const_list@.len() + 1, n.decl_const_list@.take(o.decl_const_list@.len() as int) =~= o.decl_const_list@, cmd(n.decl_const_list@.last()) == c
    ensures n.wf(), n.ds() == o.ds(), cmds(n.decl_const_list@) == cmds(o.decl_const_list@).push(c)
{
    axiom_names(); let k = o.ds().len() as int; let m = o.num_renamed as int; let a = aname(m);
    assert(n.ds() =~= o.ds());
    let (x, y) = (cmds(o.decl_const_list@), cmds(n.decl_const_list@));
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i] by { assert(n.decl_const_list@[i] == n.decl_const_list@.take(x.len() as int)[i]); }
    assert(y =~= x.push(c));
    assert forall|i: int| 0 <= i < n.ds().len() implies cmds(n.decl_const_list@).contains(Cmd::DeclareConst(nv(i), sort_of(rtype(fct(#[trigger] n.ds()[i])->0)))) && inscope(n.ds()[i], m + 1, i) by {
        let z = Cmd::DeclareConst(nv(i), sort_of(rtype(fct(o.ds()[i])->0))); assert(x.contains(z)); let j = x.index_of(z); assert(y[j] == x[j]); lemma_scope(o.ds()[i], m, i, m + 1, i); }
    assert forall|t: ISymbol| #[trigger] n.al().contains_key(t) implies exists|i: int| 0 <= i < m + 1 && n.al()[t] == #[trigger] aname(i) by { if t == s { assert(n.al()[t] == aname(m)); } else { assert(o.al().contains_key(t)); let i = choose|i: int| 0 <= i < m && o.al()[t] == #[trigger] aname(i); assert(n.al()[t] == aname(i)); } }
    assert forall|t: ISymbol, u: ISymbol| #[trigger] n.al().contains_key(t) && #[trigger] n.al().contains_key(u) && n.al()[t] == n.al()[u] implies t == u by {
        if t != s { assert(o.al().contains_key(t)); } if u != s { assert(o.al().contains_key(u)); } }
    assert(!known(a, m, k));
    assert forall|w: ISymbol| #[trigger] n.vs().contains(w) implies known(w, m + 1, k) && n.g().calls.contains_key(w) by { if w == a { assert(w == aname(m)); } else { assert(o.vs().contains(w)); assert(known(w, m, k)); } if w == a && o.vs().contains(a) { assert(known(a, m, k)); } }
    assert forall|i: int| 0 <= i < n.ds().len() implies linked(n.g(), nv(i), #[trigger] n.ds()[i], n.vs()) by { let d = o.ds()[i]; assert(linked(o.g(), nv(i), d, o.vs())); assert(nv(i) != a); assert(n.g().calls.contains_key(nv(i)) == o.g().calls.contains_key(nv(i))); lemma_scope(d, m, i, m, k); lemma_linked(o.g(), n.g(), nv(i), d, o.vs(), a, m, k); }
}
// ---- every model of the query has values for the new variables, and the new assertions say just that
pub open spec fn with_nv(e: Env, ds: Seq<Tree>, k: int) -> Env decreases k { if k <= 0 { e } else { let p = with_nv(e, ds, k - 1); let x = val(p, ds[k - 1]); Env { vars: |s: ISymbol| if s == nv(k - 1) { x } else { (p.vars)(s) }, m: e.m } } }
pub proof fn lemma_with(e: Env, ds: Seq<Tree>, k: int, s: ISymbol) requires 0 <= k ensures with_nv(e, ds, k).m == e.m, (forall|i: int| 0 <= i < k ==> s != nv(i)) ==> look(with_nv(e, ds, k), s) == look(e, s) decreases k
{ if k > 0 { lemma_with(e, ds, k - 1, s); } }
pub proof fn lemma_keeps(e: Env, ds: Seq<Tree>, j: int, k: int, m: int, t: Tree) requires 0 <= j <= k, inscope(t, m, j), plain(t) ensures val(with_nv(e, ds, k), t) == val(with_nv(e, ds, j), t) decreases k - j, t
{
    axiom_names(); let (a, b) = (with_nv(e, ds, k), with_nv(e, ds, j));
    if j < k {
        lemma_scope(t, m, j, m, k - 1); lemma_keeps(e, ds, j, k - 1, m, t); lemma_with(e, ds, k, nv(0)); lemma_with(e, ds, k - 1, nv(0)); lemma_last(e, ds, k, m, t);
    }
}
pub proof fn lemma_last(e: Env, ds: Seq<Tree>, k: int, m: int, t: Tree) requires 0 < k, inscope(t, m, k - 1), plain(t) ensures val(with_nv(e, ds, k), t) == val(with_nv(e, ds, k - 1), t) decreases t
{
    axiom_names(); let (a, b) = (with_nv(e, ds, k), with_nv(e, ds, k - 1)); lemma_with(e, ds, k, nv(0)); lemma_with(e, ds, k - 1, nv(0));
    match t { Tree::Var(v) => { assert(v != nv(k - 1)); }, Tree::App(f, g, x) => { assert forall|i: int| 0 <= i < x.len() implies val(a, #[trigger] x[i]) == val(b, x[i]) by { lemma_last(e, ds, k, m, x[i]); } assert(vals(a, t, x) =~= vals(b, t, x)); }, _ => {} }
}
/// a model of the renamed query extends to the new variables
pub proof fn lemma_extends(n: &IdentifyStringsBuilder, e: Env, e1: Env) requires n.wf(), alike(e, e1, n.al()) ensures alike(e, with_nv(e1, n.ds(), n.ds().len() as int), n.al()), defined(with_nv(e1, n.ds(), n.ds().len() as int), n.ds())
{
    axiom_names(); let ds = n.ds(); let k = ds.len() as int; let e2 = with_nv(e1, ds, k); lemma_with(e1, ds, k, nv(0));
    assert forall|s: ISymbol| #[trigger] n.al().contains_key(s) implies look(e, s) == look(e2, n.al()[s]) by { lemma_with(e1, ds, k, n.al()[s]); }
    assert forall|f: int, g: Func, a: Seq<Val>| #[trigger] apply(e, f, g, a) == apply(e2, f, rf(f, n.al(), g), a) by { assert(apply(e, f, g, a) == apply(e1, f, rf(f, n.al(), g), a)); }
    assert forall|i: int| 0 <= i < k implies look(e2, #[trigger] nv(i)) == val(e2, ds[i]) by { lemma_at(e1, ds, i, k); lemma_keeps(e1, ds, i, k, n.num_renamed as int, ds[i]); }
}
pub proof fn lemma_at(e: Env, ds: Seq<Tree>, i: int, k: int) requires 0 <= i < k ensures look(with_nv(e, ds, k), nv(i)) == val(with_nv(e, ds, i), ds[i]) decreases k
{ axiom_names(); if i < k - 1 { lemma_at(e, ds, i, k - 1); } }
/// the new assertions hold where the new variables have their defined values
pub proof fn lemma_asserted(n: &IdentifyStringsBuilder, e: Env) requires n.wf(), eq_means(e) ensures sat(e, cmds(n.assert_list@)) == defined(e, n.ds())
{
    let s = cmds(n.assert_list@); let ds = n.ds();
    assert forall|i: int| 0 <= i < s.len() implies holds(e, #[trigger] s[i]) == (look(e, nv(i)) == val(e, ds[i])) by {
        let (a, b) = (Tree::Var(nv(i)), ds[i]); assert(cmd(n.assert_list@[i]) == Cmd::Assert(eq_tree(a, b))); let t = eq_tree(a, b);
        assert(vals(e, t, seq![a, b]) =~= two(val(e, a), val(e, b))); assert(val(e, t) == apply(e, 0, eqf(), two(val(e, a), val(e, b)))); }
    if sat(e, s) { assert forall|i: int| 0 <= i < ds.len() implies look(e, #[trigger] nv(i)) == val(e, ds[i]) by { assert(holds(e, s[i])); } }
    if defined(e, ds) { assert forall|i: int| 0 <= i < s.len() implies holds(e, #[trigger] s[i]) by { assert(look(e, nv(i)) == val(e, ds[i])); } }
}
/// after a call was entered
pub open spec fn only_graph(n: &IdentifyStringsBuilder, o: &IdentifyStringsBuilder) -> bool { n.string_var_list == o.string_var_list && n.const_map == o.const_map && n.decl_const_list == o.decl_const_list && n.assert_list == o.assert_list && n.string_var_defn_map == o.string_var_defn_map && n.alpha_renaming_map == o.alpha_renaming_map && n.num_renamed == o.num_renamed }
pub open spec fn more(g: Graph, h: Graph) -> bool { h.calls == g.calls && (forall|p: (ISymbol, ISymbol)| #[trigger] g.edges.contains(p) ==> h.edges.contains(p)) && (forall|p: (Set<ISymbol>, Set<String>)| #[trigger] g.sibs.contains(p) ==> h.sibs.contains(p)) }
#[verifier::external_body] pub fn vx_rest(b: &mut IdentifyStringsBuilder, o: Opaque) -> (r: Result<Term, Error>) ensures r is Ok { unimplemented!() }
'''
T = [('type', 'Self :: Error', 'Error', '*'),
     ('desugar', '$x:id . super_fold_with ( self )', 'self.vx_super($x)', '*'),
     ('desugar', 'format ! ( "a{}" , $e* ) ;', 'vx_aname($e);', '*'),
     ('desugar', 'ISymbol :: from ( format ! ( "new_var{}" , $e* ) )', 'vx_nv($e)', '*'),
     ('desugar', 'ISymbol :: from ( $x:id )', '$x', '*'),
     ('desugar', 'self . alpha_renaming_map . get ( $x* )', 'vx_get(&self.alpha_renaming_map, $x)', '*'),
     ('desugar', 'self . alpha_renaming_map . insert ( $k , $v )', 'vx_put(&mut self.alpha_renaming_map, $k, $v)', '*'),
     ('desugar', 'self . string_var_defn_map . insert ( $k , $v )', 'vx_put(&mut self.string_var_defn_map, $k, $v)', '*'),
     ('desugar', 'self . const_map . len ( )', 'vx_tlen(&self.const_map)', '*'),
     ('desugar', 'self . string_var_list . insert ( $x )', 'vx_sadd(&mut self.string_var_list, $x)', '*'),
     ('desugar', 'self . string_var_list . contains ( $x )', 'vx_shas(&self.string_var_list, $x)', '*'),
     ('desugar', 'self . string_consts . insert ( $x )', 'vx_sadd(&mut self.string_consts, $x)', '*'),
     ('desugar', 'string_const_args . insert ( $x )', 'vx_sadd(&mut string_const_args, $x)', '*'),
     ('desugar', 'string_lits . insert ( $x )', 'vx_sadd(&mut string_lits, $x)', '*'),
     ('desugar', 'ident_args . insert ( $x )', 'vx_sadd(&mut ident_args, $x)', '*'),
     ('desugar', 'BTreeSet :: < String > :: new ( )', 'vx_set()', '*'), ('desugar', 'BTreeSet :: new ( )', 'vx_set()', '*'),
     ('desugar', '$x:id . get_type ( ) == IdentType :: StringType', 'vx_isstr(&$x)', '*'), ('desugar', '$x:id . get_type ( ) != IdentType :: StringType', '!vx_isstr(&$x)', '*'),
     ('desugar', 'StringFct :: NO_OP', 'vx_noop()', '*'),
     ('desugar', '$s:id == StringFct :: StrEquality', 'vx_iseq($s)', '*'), ('desugar', '$s:id != StringFct :: StrEquality', '!vx_iseq($s)', '*'),
     ('desugar', '$s:id . string_fct_return_type ( )', 'vx_rtype($s)', '*'),
     ('desugar', 'ISymbol :: from ( format ! ( "a{}" , $e* ) )', 'vx_aname($e)', '*'),
     ('desugar', 'if let Constant :: String ( $s:id ) = $c:id . as_ref ( )', 'if let Some($s) = vx_str(&$c)', '*'),
     ('desugar', '$s:id . to_string ( )', 'vx_sclone($s)', '*'), ('desugar', 's . clone ( )', 'vx_sclone(s)', '*'),
     ('desugar', '$x:id |= $e* ;', '$x = $x || $e;', '*'),
     ('desugar', '$t:id . op ( ) . and_then ( | $o:id | $o:id . func ( ) . string_fct ( ) )', 'vx_fct(&$t)', '*'),
     ('desugar', '$t:id . op ( )', 'vx_op($t)', '*'),
     ('desugar', '. ok ( ) ;', ';', '*')]
B = 'IntraLogicFolder for IdentifyStringsBuilder::'
NT = '#[verifier::exec_allows_no_decreases_clause]\n'
def build(u):
    u.add(TERMS)
    u.add(SPEC)
    u.item(F, 'struct', 'IdentifyStringsBuilder', prefix='pub ', rules=[('type', '{ pub string_var_list', '{ pub string_var_list'), ('type', ', const_map', ', pub const_map'), ('type', ', string_consts', ', pub string_consts'), ('type', ', num_renamed', ', pub num_renamed')])
    u.add('impl IdentifyStringsBuilder {')
    u.fn(F, 'IdentifyStringsBuilder::new_var_decl_const', ret='r', rules=[('desugar', 'Sort :: Simple { identifier : Identifier :: Simple { symbol : Symbol ( $t:id . to_string ( ) ) , } , } . into ( )', 'vx_sort(&$t)', '*')], ensures='cmd(r) == Cmd::DeclareConst(new_var_name, sort_of(new_var_type))')
    u.fn(F, 'IdentifyStringsBuilder::inspect_parameters', requires='is_app(tree(*t))', rules=T + [
        ('desugar', 'self . char_level_substring_vars . extend ( char_level_substrings_required ( op . args ( ) . cloned ( ) . collect :: < Vec < Term > > ( ) . as_slice ( ) , sfc , & self . alpha_renaming_map , ) ) ;', 'vx_chars(&mut self.char_level_substring_vars, &op.args, sfc, &self.alpha_renaming_map);', '*'),
        ('ghost', 'let mut ident_args', '«let ghost a = argl(tree(*t)); let ghost vs = self.vs(); let ghost g0 = self.g();» let mut ident_args', '*'),
        ('desugar', 'for $x:id in $o:id . args ( ) { $b* }', 'let mut vx_i: usize = 0; while vx_i < $o.args.len() «invariant vx_i <= $o.args@.len(), argl(tree(*t)) == trees($o.args), a == trees($o.args), only_graph(self, old(self)), vs == self.vs(), more(g0, self.g()), g0 == old(self).g(), ss(ident_args) == vars_upto(a, vx_i as int, vs), ss(string_lits) == lits_upto(a, vx_i as int), g0.calls.contains_key(var_sym) && (forall|v: ISymbol| #[trigger] vs.contains(v) ==> g0.calls.contains_key(v)) ==> forall|w: ISymbol| #[trigger] vars_upto(a, vx_i as int, vs).contains(w) ==> self.g().edges.contains((var_sym, w)), decreases $o.args@.len() - vx_i» { let $x = &$o.args[vx_i]; «proof { assert(a[vx_i as int] == tree($o.args@[vx_i as int])); }» vx_i += 1; $b }', '*'),
        ('ghost', 'self . callgraph . add_direct_siblings', '«proof { assert forall|v: ISymbol| #[trigger] vars_upto(a, a.len() as int, vs).contains(v) implies vs.contains(v) by { lemma_vin(a, a.len() as int, vs, v); } }» self . callgraph . add_direct_siblings', '*')],
        ensures="""only_graph(final(self), old(self)), more(old(self).g(), final(self).g()), old(self).g().calls.contains_key(var_sym) && (forall|v: ISymbol| #[trigger] old(self).vs().contains(v) ==> old(self).g().calls.contains_key(v)) ==>
            (forall|w: ISymbol| #[trigger] var_args(tree(*t), old(self).vs()).contains(w) ==> final(self).g().edges.contains((var_sym, w))) && final(self).g().sibs.contains((var_args(tree(*t), old(self).vs()), lits(tree(*t))))""")
    READY = 'ready(old(self), tree(*t), sfc)'
    u.fn(F, 'IdentifyStringsBuilder::process_string_fct', ret='r', requires='is_app(tree(*t))', rules=T + [
        ('desugar', 'match self . const_map . entry ( $t:id . clone ( ) ) { Entry :: Occupied ( $o:id ) => $e* , Entry :: Vacant ( $v:id ) => $b:tt }', 'match vx_tget(&self.const_map, $t) { Some($o) => $e, None => $b }', '*'),
        ('desugar', 'o . get ( ) . clone ( )', 'o', '*'), ('desugar', 'v . insert ( $x* ) ;', 'vx_tput(&mut self.const_map, t.clone(), $x);', '*'),
        ('ghost', 'self . inspect_parameters', '«let ghost mid = *self; proof { assert(mid.g().edges == o.g().edges); assert(mid.g().sibs == o.g().sibs); }» self . inspect_parameters', '*'),
        ('ghost', 'Some ( var_sym )', '«proof { if ready(&o, tree(*t), sfc) { lemma_named(tm(o.const_map), o.ds(), tree(*t)); if tm(o.const_map).contains_key(tree(*t)) { let i = o.ds().index_of(tree(*t)); assert(linked(o.g(), nv(i), o.ds()[i], o.vs())); lemma_same(self, &o); assert(self.ds()[i] == tree(*t)); } else { lemma_defined(self, &o, tree(*t), sfc); } } }» Some ( var_sym )', '*'),
        ('ghost', 'let mut string_const_args', '«let ghost a = argl(tree(*t)); let ghost o = *self;» let mut string_const_args', '*'),
        ('desugar', 'for $x:id in $o:id . args ( ) { $b* }', 'let mut vx_i: usize = 0; while vx_i < $o.args.len() «invariant vx_i <= $o.args@.len(), argl(tree(*t)) == trees($o.args), a == trees($o.args), *self == o, ss(string_const_args) == lits_upto(a, vx_i as int), non_string_arguments == odd(a, vx_i as int, o.vs()), decreases $o.args@.len() - vx_i» { let $x = &$o.args[vx_i]; «proof { let n = vx_i as int; assert(a[n] == tree($o.args@[n])); assert(odd(a, n, o.vs()) ==> odd(a, n + 1, o.vs())); if odd(a, n + 1, o.vs()) && (lit(a[n]) || (a[n] matches Tree::Var(v) && o.vs().contains(v))) { let i = choose|i: int| 0 <= i < n + 1 && !lit(#[trigger] a[i]) && !(a[i] matches Tree::Var(v) && o.vs().contains(v)); assert(i < n); } if !lit(a[n]) && !(a[n] matches Tree::Var(v) && o.vs().contains(v)) { assert(odd(a, n + 1, o.vs())); } }» vx_i += 1; $b }', '*')],
        ensures='r is None <==> sfc == eqsf() && odd(argl(tree(*t)), argl(tree(*t)).len() as int, old(self).vs()), r is None ==> *final(self) == *old(self) && (fct(tree(*t)) == Some(sfc) ==> other_eq(tree(*t))), r is Some && ' + READY + ' ==> final(self).wf() && final(self).grew(old(self)) && exists|i: int| 0 <= i < final(self).ds().len() && r == Some(#[trigger] nv(i)) && final(self).ds()[i] == tree(*t)')
    u.fn(F, B + 'fold_term', ret='r', rules=T + [('ghost', 'if let Some ( sfc )', '«let ghost s1 = *self; let ghost t1 = tree(t);» if let Some ( sfc )', '*'),
        ('ghost', 'Some ( $n:id ) => {', 'Some ( $n ) => { «proof { if ready(&s1, t1, sfc) { lemma_call(self, &s1, old(self), t1, $n); } }»', '*')], prefix=NT, ensures='r is Ok, folded(final(self), old(self), tree(t), tree(r->Ok_0))')
    u.fn(F, B + 'fold_uninterpreted_func', ret='r', rules=[('desugar', '$x:id . super_fold_with ( self )', 'self.vx_ufargs($x)', '*'), ('desugar', 'IUF :: < ALL > :: from ( $x:id ) . into ( )', 'vx_mkuf($x)', '*'), ('type', 'IUF < ALL >', 'UApp'),
        ('ghost', 'let mut uf', '«proof { let t = Tree::App(2, mkuf(func.func), trees(func.args)); lemma_split(t, 2, mkuf(func.func), trees(func.args), self.al()); axiom_uf(); }» let mut uf', '*'),
        ('ghost', 'Ok ( vx_mkuf', '«proof { let t = Tree::App(2, mkuf(func.func), trees(func.args)); if old(self).wf() && plain(t) && scoped(t, old(self).al()) { lemma_node(self, 2, mkuf(func.func), mkuf(uf.func), trees(func.args), trees(uf.args)); } }» Ok ( vx_mkuf', '*')] + T, prefix=NT, ensures='r is Ok, half(final(self), old(self), Tree::App(2, mkuf(func.func), trees(func.args)), tree(r->Ok_0))')
    u.fn(F, B + 'fold_var', ret='r', rules=T + [('ghost', 'if let Some', '«proof { if old(self).wf() { lemma_same(self, old(self)); let al = old(self).al(); if al.contains_key(v.0) { let i = choose|i: int| 0 <= i < self.num_renamed && al[v.0] == #[trigger] aname(i); assert(known(al[v.0], self.num_renamed as int, self.ds().len() as int)); } } }» if let Some', '*')], ensures='r is Ok, half(final(self), old(self), Tree::Var(v.0), tree(r->Ok_0)), flat(tree(r->Ok_0))')
    u.fn(F, B + 'fold_const', ret='r', rules=T + [('ghost', 'Ok ( Term :: Constant ( constant ) )', '«proof { if old(self).wf() { lemma_same(self, old(self)); } }» Ok ( Term :: Constant ( constant ) )', '*')], ensures='r is Ok, half(final(self), old(self), Tree::Const(constant), tree(r->Ok_0)), tree(r->Ok_0) == Tree::Const(constant)')
    DECL = """old(self).wf() && !old(self).al().contains_key(symbol) ==> final(self).wf() && final(self).al() == old(self).al().insert(symbol, aname(old(self).num_renamed as int)) && final(self).ds() == old(self).ds() && final(self).num_renamed == old(self).num_renamed + 1
        && cmds(final(self).decl_const_list@) == cmds(old(self).decl_const_list@).push(cmd(r->Ok_0)) && final(self).vs() == (if stype(sort) == string_type() { old(self).vs().insert(aname(old(self).num_renamed as int)) } else { old(self).vs() })"""
    u.fn(F, B + 'fold_declare_const', ret='r', requires='old(self).num_renamed < usize::MAX', rules=T + [('ghost', 'Ok ( out )', '«proof { if old(self).wf() && !old(self).al().contains_key(symbol) { lemma_declared(self, old(self), symbol, cmd(out)); } }» Ok ( out )', '*')], ensures='r is Ok, cmd(r->Ok_0) == Cmd::DeclareConst(aname(old(self).num_renamed as int), sort), ' + DECL)
    u.fn(F, B + 'fold_declare_fun', ret='r', requires='old(self).num_renamed < usize::MAX', rules=T + [('ghost', 'Ok ( out )', '«proof { if old(self).wf() && !old(self).al().contains_key(symbol) { lemma_declared(self, old(self), symbol, cmd(out)); } }» Ok ( out )', '*')], ensures='r is Ok, cmd(r->Ok_0) == Cmd::DeclareFun(aname(old(self).num_renamed as int), parameters@, sort), ' + DECL)
    u.add('}')
    u.fn(F, 'new_assert_equal', ret='r', rules=[('desugar', 'CoreOp :: Eq ( [ $a , $b ] . into ( ) ) . into ( )', 'vx_eq($a, $b)', '*'), ('desugar', 'CoreOp :: Eq ( [ $a* , $t:id . clone ( ) ] . into ( ) ) . into ( )', 'vx_eq($a, $t.clone())', '*')], ensures='cmd(r) == Cmd::Assert(eq_tree(Tree::Var(new_var_name), tree(*t)))')
