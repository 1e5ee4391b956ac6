"""The call graph (T07): links, propagation along children and parents, cliques and partitions, for all graphs."""
from tr_common import *
import u_fct
FO, C, G = TR + 'forest.rs', TR + 'callgraph.rs', TR + 'string_fcts.rs'
NOTES = 'Assumed: the standard collections (a set, a map, by their elements), derived clones, StringFct::get_args is a function of the function and the literals. Propagation is proved for acyclic graphs (it ends, it does not fail); that one partition covers what a function is built from, for graphs whose inner nodes are not Boolean.'
SPEC = r'''
pub type NodeId = usize;
pub type Text = Seq<char>;
/// assumed (standard library): hashing, order and equality of elements are those of k
pub trait Key: Sized { type V; spec fn k(&self) -> Self::V; fn vx_clone(&self) -> (r: Self) ensures r.k() == self.k(); }
impl Key for usize { type V = usize; open spec fn k(&self) -> usize { *self } fn vx_clone(&self) -> (r: usize) { *self } }
impl Key for String { type V = Text; open spec fn k(&self) -> Text { self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: String) { self.clone() } }
pub struct ISymbol(pub String);
impl Key for ISymbol { type V = Text; open spec fn k(&self) -> Text { self.0@ } #[verifier::external_body] fn vx_clone(&self) -> (r: ISymbol) { unimplemented!() } }
impl ISymbol { #[verifier::external_body] pub fn clone(&self) -> (r: ISymbol) ensures r.0@ == self.0@ { unimplemented!() } }
pub enum ArgsV { No, Contains(Text), Range(char, char) }
pub open spec fn args_v(a: StringFctArgs) -> ArgsV { match a { StringFctArgs::NoArgs => ArgsV::No, StringFctArgs::Contains(s) => ArgsV::Contains(s@), StringFctArgs::ReRange(a, b) => ArgsV::Range(a, b) } }
pub type FctV = (StringFct, ArgsV);
impl Key for (StringFct, StringFctArgs) { type V = FctV; open spec fn k(&self) -> FctV { (self.0, args_v(self.1)) } #[verifier::external_body] fn vx_clone(&self) -> (r: (StringFct, StringFctArgs)) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VSet<K> { x: K }
impl<K: Key> VSet<K> { pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, e: K) -> (b: bool) ensures final(self)@ == old(self)@.insert(e.k()) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, e: &K) -> (b: bool) ensures final(self)@ == old(self)@.remove(e.k()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, e: &K) -> (b: bool) ensures b == self@.contains(e.k()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (b: bool) ensures b == (self@ == Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: VSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_extend(&mut self, o: &VSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// its elements, in order
    #[verifier::external_body] pub fn vx_list(&self) -> (r: Vec<&K>) ensures members(r@, self@), texts(r@) == in_order(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_both(&self, o: &VSet<K>) -> (r: L<&K>) ensures members(r.v@, self@.intersect(o@)) { unimplemented!() } }
pub uninterp spec fn in_order<V>(s: Set<V>) -> Seq<V>;
pub open spec fn texts<K: Key>(l: Seq<&K>) -> Seq<K::V> { l.map_values(|x: &K| x.k()) }
pub open spec fn members<K: Key>(l: Seq<&K>, s: Set<K::V>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> s.contains((#[trigger] l[i]).k())) && (forall|t: K::V| #[trigger] s.contains(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == t) }
pub struct L<T> { pub v: Vec<T> }
impl<T> L<T> { /// assumed (standard library): `map(f).collect()`
    #[verifier::external_body] pub fn vx_map<B, F: Fn(T) -> B>(self, f: F) -> (r: Vec<B>) requires forall|i: int| 0 <= i < self.v@.len() ==> f.requires((#[trigger] self.v@[i],))
        ensures r@.len() == self.v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.v@[i],), #[trigger] r@[i]) { self.v.into_iter().map(f).collect() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> { x: (K, V) }
impl<K: Key, V> VMap<K, V> { pub uninterp spec fn view(&self) -> Map<K::V, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.k(), v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (r is Some) == self@.contains_key(k.k()), r is Some ==> *r->Some_0 == self@[k.k()] { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, k: &K) -> (r: &V) requires self@.contains_key(k.k()), ensures *r == self@[k.k()] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures match r { Some(v) => old(self)@.contains_key(k.k()) && *v == old(self)@[k.k()] && final(self)@ == old(self)@.insert(k.k(), *final(v)), None => !old(self)@.contains_key(k.k()) && *final(self) == *old(self) } { unimplemented!() }
    /// its entries, in some order
    #[verifier::external_body] pub fn vx_list(&self) -> (r: Vec<(&K, &V)>) ensures entries(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_keys(&self) -> (r: Vec<&K>) ensures members(r@, self@.dom()) { unimplemented!() } }
pub open spec fn entries<K: Key, V>(l: Seq<(&K, &V)>, m: Map<K::V, V>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0.k()) && m[l[i].0.k()] == *l[i].1)
    && (forall|t: K::V| #[trigger] m.contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.k() == t) }
pub fn vx_sort(v: &mut Vec<&usize>) ensures members_same(old(v)@, final(v)@) { }
pub open spec fn members_same(a: Seq<&usize>, b: Seq<&usize>) -> bool { forall|s: Set<usize>| #[trigger] members(a, s) ==> members(b, s) }
/// what the table of relevant arguments says (a function of the function and the literals)
pub uninterp spec fn args_of(f: StringFct, lits: Seq<Text>) -> ArgsV;
#[verifier::external_body] pub fn vx_args(f: StringFct, lits: &Vec<&String>) -> (r: StringFctArgs) ensures args_v(r) == args_of(f, texts(lits@)) { unimplemented!() }
'''
SPEC2 = r'''
// ---- what a graph says
pub struct NodeV { pub pa: Set<usize>, pub ch: Set<usize>, pub si: Set<usize>, pub ind: usize, pub fct: StringFct, pub lits: Set<Text> }
pub type Nodes = Map<usize, Node<usize, CallnodeData>>;
pub type GraphV = Map<usize, NodeV>;
pub open spec fn nv(n: Node<usize, CallnodeData>) -> NodeV { NodeV { pa: n.parents@, ch: n.children@, si: n.siblings@, ind: n.ind, fct: n.data.string_fct, lits: n.data.string_lits_built_from@ } }
pub open spec fn gv(m: Nodes) -> GraphV { m.map_values(|n: Node<usize, CallnodeData>| nv(n)) }
pub open spec fn pair(n: NodeV) -> FctV { (n.fct, args_of(n.fct, in_order(n.lits))) }
/// the data that propagation stores
pub open spec fn fld(d: CallnodeData, dir: GraphTraversalDir) -> Option<NodeSetData> { match dir { GraphTraversalDir::BuiltFrom => d.built_from, GraphTraversalDir::UsedToBuild => d.used_to_build, GraphTraversalDir::UsedWith => d.used_with } }
pub open spec fn with_fld(d: CallnodeData, dir: GraphTraversalDir, s: NodeSetData) -> CallnodeData { match dir { GraphTraversalDir::BuiltFrom => CallnodeData { built_from: Some(s), ..d }, GraphTraversalDir::UsedToBuild => CallnodeData { used_to_build: Some(s), ..d }, GraphTraversalDir::UsedWith => CallnodeData { used_with: Some(s), ..d } } }
pub open spec fn updir() -> GraphTraversalDir { GraphTraversalDir::UsedToBuild }
pub open spec fn down() -> GraphTraversalDir { GraphTraversalDir::BuiltFrom }
pub open spec fn rel(g: GraphV, dir: GraphTraversalDir, n: usize) -> Set<usize> { match dir { GraphTraversalDir::BuiltFrom => g[n].ch, GraphTraversalDir::UsedToBuild => g[n].pa, GraphTraversalDir::UsedWith => Set::empty() } }
/// information goes through all functions but those with a Boolean result
pub open spec fn passes(g: GraphV, n: usize) -> bool { sort_of(g[n].fct) != IdentType::BoolType }
pub open spec fn path(g: GraphV, dir: GraphTraversalDir, p: Seq<usize>) -> bool {
    p.len() >= 2 && (forall|i: int| 0 <= i < p.len() - 1 ==> rel(g, dir, #[trigger] p[i]).contains(p[i + 1])) && (forall|i: int| 0 < i < p.len() - 1 ==> passes(g, #[trigger] p[i])) }
/// x is reached from n
pub open spec fn reach(g: GraphV, dir: GraphTraversalDir, n: usize, x: usize) -> bool { exists|p: Seq<usize>| #[trigger] path(g, dir, p) && p[0] == n && p.last() == x }
pub open spec fn fct_of(g: GraphV, dir: GraphTraversalDir, n: usize, f: FctV) -> bool { f == pair(g[n]) || exists|x: usize| #[trigger] reach(g, dir, n, x) && f == pair(g[x]) }
pub open spec fn lit_of(g: GraphV, dir: GraphTraversalDir, n: usize, l: Text) -> bool { g[n].lits.contains(l) || exists|x: usize| #[trigger] reach(g, dir, n, x) && passes(g, x) && g[x].lits.contains(l) }
/// the stored set is exactly what is reached
pub open spec fn exact(g: GraphV, dir: GraphTraversalDir, n: usize, s: NodeSetData) -> bool {
    (forall|x: usize| #[trigger] s.vars@.contains(x) <==> reach(g, dir, n, x)) && (forall|f: FctV| #[trigger] s.string_fcts@.contains(f) <==> fct_of(g, dir, n, f)) && (forall|l: Text| #[trigger] s.string_lits@.contains(l) <==> lit_of(g, dir, n, l)) }
/// links are symmetric and only to nodes of the graph, no node is its own sibling
pub open spec fn linked(g: GraphV) -> bool {
    (forall|n: usize| #[trigger] g.contains_key(n) ==> g[n].ind == n && !g[n].si.contains(n))
    && (forall|n: usize, m: usize| g.contains_key(n) && #[trigger] g[n].ch.contains(m) ==> g.contains_key(m) && g[m].pa.contains(n))
    && (forall|n: usize, m: usize| g.contains_key(n) && #[trigger] g[n].pa.contains(m) ==> g.contains_key(m) && g[m].ch.contains(n))
    && (forall|n: usize, m: usize| g.contains_key(n) && #[trigger] g[n].si.contains(m) ==> g.contains_key(m) && g[m].si.contains(n)) }
pub open spec fn ranked(g: GraphV, r: (spec_fn(usize) -> nat, nat)) -> bool {
    (forall|n: usize| g.contains_key(n) ==> #[trigger] (r.0)(n) <= r.1) && (forall|n: usize, m: usize| g.contains_key(n) && #[trigger] g[n].ch.contains(m) ==> (r.0)(m) < (r.0)(n)) }
pub open spec fn acyclic(g: GraphV) -> bool { exists|r: (spec_fn(usize) -> nat, nat)| #[trigger] ranked(g, r) }
pub open spec fn rk(g: GraphV, dir: GraphTraversalDir, n: usize) -> nat { let r = choose|r: (spec_fn(usize) -> nat, nat)| #[trigger] ranked(g, r); if dir is UsedToBuild { if (r.0)(n) <= r.1 { (r.1 - (r.0)(n)) as nat } else { 0 } } else { (r.0)(n) } }
pub proof fn lemma_link(g: GraphV, dir: GraphTraversalDir, n: usize, m: usize) requires linked(g), acyclic(g), g.contains_key(n), rel(g, dir, n).contains(m) ensures g.contains_key(m), rk(g, dir, m) < rk(g, dir, n) {}
pub proof fn lemma_down(g: GraphV, dir: GraphTraversalDir, p: Seq<usize>) requires linked(g), acyclic(g), path(g, dir, p), g.contains_key(p[0]) ensures g.contains_key(p.last()), rk(g, dir, p.last()) < rk(g, dir, p[0]) decreases p.len()
{   let q = p.drop_last(); assert(rel(g, dir, p[p.len() - 2]).contains(p[p.len() - 2 + 1]));
    if p.len() > 2 { assert forall|i: int| 0 <= i < q.len() - 1 implies rel(g, dir, #[trigger] q[i]).contains(q[i + 1]) by { assert(rel(g, dir, p[i]).contains(p[i + 1])); }
        assert forall|i: int| 0 < i < q.len() - 1 implies passes(g, #[trigger] q[i]) by { assert(passes(g, p[i])); }
        lemma_down(g, dir, q); }
    lemma_link(g, dir, p[p.len() - 2], p.last()); }
pub proof fn lemma_reach(g: GraphV, dir: GraphTraversalDir, n: usize, x: usize) requires linked(g), acyclic(g), g.contains_key(n), reach(g, dir, n, x) ensures g.contains_key(x), rk(g, dir, x) < rk(g, dir, n)
{ let p = choose|p: Seq<usize>| #[trigger] path(g, dir, p) && p[0] == n && p.last() == x; lemma_down(g, dir, p); }
pub open spec fn through(g: GraphV, dir: GraphTraversalDir, n: usize, m: usize, x: usize) -> bool { rel(g, dir, n).contains(m) && passes(g, m) && reach(g, dir, m, x) }
/// one step, or a step to a node that information goes through
pub proof fn lemma_step(g: GraphV, dir: GraphTraversalDir, n: usize, x: usize) ensures reach(g, dir, n, x) <==> rel(g, dir, n).contains(x) || exists|m: usize| #[trigger] through(g, dir, n, m, x)
{   if rel(g, dir, n).contains(x) { let p = seq![n, x]; assert(path(g, dir, p)); assert(p[0] == n && p.last() == x); }
    if exists|m: usize| #[trigger] through(g, dir, n, m, x) {
        let m = choose|m: usize| #[trigger] through(g, dir, n, m, x); let q = choose|q: Seq<usize>| #[trigger] path(g, dir, q) && q[0] == m && q.last() == x;
        let p = seq![n] + q; assert forall|i: int| 0 <= i < p.len() - 1 implies rel(g, dir, #[trigger] p[i]).contains(p[i + 1]) by { if i > 0 { assert(rel(g, dir, q[i - 1]).contains(q[i - 1 + 1])); } }
        assert forall|i: int| 0 < i < p.len() - 1 implies passes(g, #[trigger] p[i]) by { if i > 1 { assert(passes(g, q[i - 1])); } }
        assert(path(g, dir, p)); assert(p[0] == n && p.last() == x); }
    if reach(g, dir, n, x) {
        let p = choose|p: Seq<usize>| #[trigger] path(g, dir, p) && p[0] == n && p.last() == x; assert(rel(g, dir, p[0]).contains(p[1]));
        if p.len() > 2 { let q = p.skip(1); assert forall|i: int| 0 <= i < q.len() - 1 implies rel(g, dir, #[trigger] q[i]).contains(q[i + 1]) by { assert(rel(g, dir, p[i + 1]).contains(p[i + 1 + 1])); }
            assert forall|i: int| 0 < i < q.len() - 1 implies passes(g, #[trigger] q[i]) by { assert(passes(g, p[i + 1])); }
            assert(path(g, dir, q)); assert(q[0] == p[1] && q.last() == x); assert(reach(g, dir, p[1], x)); assert(passes(g, p[1])); assert(through(g, dir, n, p[1], x)); } }
}
/// what is reached downwards reaches upwards
pub proof fn lemma_rev(g: GraphV, u: usize, y: usize) requires linked(g), acyclic(g), g.contains_key(u), reach(g, down(), u, y) ensures reach(g, updir(), y, u)
{   let p = choose|p: Seq<usize>| #[trigger] path(g, down(), p) && p[0] == u && p.last() == y; let n = p.len(); let q = Seq::new(n, |i: int| p[n - 1 - i]);
    lemma_in(g, down(), p);
    assert forall|i: int| 0 <= i < n - 1 implies rel(g, updir(), #[trigger] q[i]).contains(q[i + 1]) by { let j = n - 2 - i; assert(g.contains_key(p[j])); assert(rel(g, down(), p[j]).contains(p[j + 1])); assert(g[p[j]].ch.contains(p[j + 1])); }
    assert forall|i: int| 0 < i < n - 1 implies passes(g, #[trigger] q[i]) by { assert(passes(g, p[n - 1 - i])); }
    assert(path(g, updir(), q)); assert(q[0] == y && q.last() == u); }
pub proof fn lemma_in(g: GraphV, dir: GraphTraversalDir, p: Seq<usize>) requires linked(g), path(g, dir, p), g.contains_key(p[0]) ensures forall|i: int| 0 <= i < p.len() ==> g.contains_key(#[trigger] p[i])
{ assert forall|i: int| 0 <= i < p.len() implies g.contains_key(#[trigger] p[i]) by { lemma_in_at(g, dir, p, i); } }
pub proof fn lemma_in_at(g: GraphV, dir: GraphTraversalDir, p: Seq<usize>, i: int) requires linked(g), path(g, dir, p), g.contains_key(p[0]), 0 <= i < p.len() ensures g.contains_key(p[i]) decreases i
{ if i > 0 { lemma_in_at(g, dir, p, i - 1); assert(rel(g, dir, p[i - 1]).contains(p[i - 1 + 1])); } }
pub proof fn lemma_trans(g: GraphV, dir: GraphTraversalDir, a: usize, u: usize, x: usize) requires reach(g, dir, a, u), passes(g, u), reach(g, dir, u, x) ensures reach(g, dir, a, x)
{   let p = choose|p: Seq<usize>| #[trigger] path(g, dir, p) && p[0] == a && p.last() == u; let q = choose|q: Seq<usize>| #[trigger] path(g, dir, q) && q[0] == u && q.last() == x;
    let n = p.len() as int; let w = p + q.skip(1);
    assert forall|i: int| 0 <= i < w.len() - 1 implies rel(g, dir, #[trigger] w[i]).contains(w[i + 1]) by { if i < n - 1 { assert(rel(g, dir, p[i]).contains(p[i + 1])); } else { assert(w[i] == q[i - n + 1]); assert(w[i + 1] == q[i - n + 2]); assert(rel(g, dir, q[i - n + 1]).contains(q[i - n + 1 + 1])); } }
    assert forall|i: int| 0 < i < w.len() - 1 implies passes(g, #[trigger] w[i]) by { if i < n - 1 { assert(passes(g, p[i])); } else if i > n - 1 { assert(w[i] == q[i - n + 1]); assert(passes(g, q[i - n + 1])); } }
    assert(path(g, dir, w)); assert(w[0] == a && w.last() == x); }
/// the stored sets are right, as far as they are there
pub open spec fn sound_at(g: GraphV, d: CallnodeData, n: usize) -> bool { (d.built_from matches Some(s) ==> exact(g, down(), n, s)) && (d.used_to_build matches Some(s) ==> exact(g, updir(), n, s)) }
pub open spec fn sound(m: Nodes) -> bool { forall|n: usize| m.contains_key(n) ==> sound_at(gv(m), (#[trigger] m[n]).data, n) }
/// the same graph, and no stored set is lost or changed in another direction
pub open spec fn later(a: Nodes, b: Nodes, dir: GraphTraversalDir) -> bool {
    gv(a) == gv(b) && (forall|n: usize| #[trigger] a.contains_key(n) ==> b.contains_key(n) && a[n].data.string_fct == b[n].data.string_fct && a[n].data.string_lits_built_from == b[n].data.string_lits_built_from
        && (fld(a[n].data, dir) is Some ==> fld(b[n].data, dir) is Some) && (!(dir is BuiltFrom) ==> a[n].data.built_from == b[n].data.built_from) && (!(dir is UsedToBuild) ==> a[n].data.used_to_build == b[n].data.used_to_build) && (!(dir is UsedWith) ==> a[n].data.used_with == b[n].data.used_with)) }
/// storing a set at a node
pub open spec fn stored(a: Nodes, v: usize, dir: GraphTraversalDir, s: NodeSetData) -> Nodes { a.insert(v, Node { data: with_fld(a[v].data, dir, s), ..a[v] }) }
pub proof fn lemma_gv(a: Nodes) ensures gv(a).dom() == a.dom(), forall|n: usize| a.contains_key(n) ==> #[trigger] gv(a)[n] == nv(a[n]) { assert(gv(a).dom() =~= a.dom()); }
pub proof fn lemma_stored(a: Nodes, v: usize, dir: GraphTraversalDir, s: NodeSetData) requires a.contains_key(v) ensures gv(stored(a, v, dir, s)) == gv(a), later(a, stored(a, v, dir, s), dir), sound(a) && (dir is UsedWith || exact(gv(a), dir, v, s)) ==> sound(stored(a, v, dir, s))
{ assert(gv(stored(a, v, dir, s)) =~= gv(a)); }
pub proof fn lemma_later(a: Nodes, b: Nodes, c: Nodes, dir: GraphTraversalDir) requires later(a, b, dir), later(b, c, dir) ensures later(a, c, dir) {}
/// the first i related nodes are collected
pub open spec fn part_vars(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, i: int, x: usize) -> bool { rel(g, dir, n).contains(x) || exists|k: int| 0 <= k < i && passes(g, *#[trigger] l[k]) && reach(g, dir, *l[k], x) }
pub open spec fn part_fcts(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, i: int, f: FctV) -> bool { f == pair(g[n]) || exists|k: int| 0 <= k < i && (f == pair(g[*#[trigger] l[k]]) || passes(g, *l[k]) && fct_of(g, dir, *l[k], f)) }
pub open spec fn part_lits(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, i: int, t: Text) -> bool { g[n].lits.contains(t) || exists|k: int| 0 <= k < i && passes(g, *#[trigger] l[k]) && lit_of(g, dir, *l[k], t) }
pub open spec fn partly(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, i: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>) -> bool {
    (forall|x: usize| #[trigger] vs.contains(x) <==> part_vars(g, dir, n, l, i, x)) && (forall|f: FctV| #[trigger] fs.contains(f) <==> part_fcts(g, dir, n, l, i, f)) && (forall|t: Text| #[trigger] ls.contains(t) <==> part_lits(g, dir, n, l, i, t)) }
pub proof fn lemma_partly(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, s: NodeSetData) requires members(l, rel(g, dir, n)), partly(g, dir, n, l, l.len() as int, s.vars@, s.string_fcts@, s.string_lits@) ensures exact(g, dir, n, s)
{   let c = l.len() as int;
    assert forall|x: usize| part_vars(g, dir, n, l, c, x) <==> reach(g, dir, n, x) by { lemma_step(g, dir, n, x);
        if reach(g, dir, n, x) && !rel(g, dir, n).contains(x) { let m = choose|m: usize| #[trigger] through(g, dir, n, m, x); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == m; assert(passes(g, *l[k]) && reach(g, dir, *l[k], x)); }
        if part_vars(g, dir, n, l, c, x) && !rel(g, dir, n).contains(x) { let k = choose|k: int| 0 <= k < c && passes(g, *#[trigger] l[k]) && reach(g, dir, *l[k], x); assert(rel(g, dir, n).contains(l[k].k())); assert(through(g, dir, n, *l[k], x)); } }
    assert forall|f: FctV| part_fcts(g, dir, n, l, c, f) <==> fct_of(g, dir, n, f) by {
        if part_fcts(g, dir, n, l, c, f) && f != pair(g[n]) { let k = choose|k: int| 0 <= k < c && (f == pair(g[*#[trigger] l[k]]) || passes(g, *l[k]) && fct_of(g, dir, *l[k], f)); let m = *l[k]; assert(rel(g, dir, n).contains(l[k].k()));
            lemma_step(g, dir, n, m); if f != pair(g[m]) { let x = choose|x: usize| #[trigger] reach(g, dir, m, x) && f == pair(g[x]); lemma_step(g, dir, n, x); assert(through(g, dir, n, m, x)); assert(reach(g, dir, n, x)); } else { assert(reach(g, dir, n, m)); } }
        if fct_of(g, dir, n, f) && f != pair(g[n]) { let x = choose|x: usize| #[trigger] reach(g, dir, n, x) && f == pair(g[x]); lemma_step(g, dir, n, x);
            if rel(g, dir, n).contains(x) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == x; assert(f == pair(g[*l[k]])); }
            else { let m = choose|m: usize| #[trigger] through(g, dir, n, m, x); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == m; assert(passes(g, *l[k]) && fct_of(g, dir, *l[k], f)); } } }
    assert forall|t: Text| part_lits(g, dir, n, l, c, t) <==> lit_of(g, dir, n, t) by {
        if part_lits(g, dir, n, l, c, t) && !g[n].lits.contains(t) { let k = choose|k: int| 0 <= k < c && passes(g, *#[trigger] l[k]) && lit_of(g, dir, *l[k], t); let m = *l[k]; assert(rel(g, dir, n).contains(l[k].k())); lemma_step(g, dir, n, m);
            if g[m].lits.contains(t) { assert(reach(g, dir, n, m)); } else { let x = choose|x: usize| #[trigger] reach(g, dir, m, x) && passes(g, x) && g[x].lits.contains(t); lemma_step(g, dir, n, x); assert(through(g, dir, n, m, x)); assert(reach(g, dir, n, x)); } }
        if lit_of(g, dir, n, t) && !g[n].lits.contains(t) { let x = choose|x: usize| #[trigger] reach(g, dir, n, x) && passes(g, x) && g[x].lits.contains(t); lemma_step(g, dir, n, x);
            if rel(g, dir, n).contains(x) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == x; assert(passes(g, *l[k]) && lit_of(g, dir, *l[k], t)); }
            else { let m = choose|m: usize| #[trigger] through(g, dir, n, m, x); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == m; assert(passes(g, *l[k]) && lit_of(g, dir, *l[k], t)); } } }
}
'''
SPEC3 = r'''
// ---- cliques and partitions
/// the nodes that cliques are made for
pub open spec fn base(g: GraphV, cv: Set<usize>, n: usize) -> bool { g.contains_key(n) && (cv.contains(n) || g[n].ch == Set::<usize>::empty()) }
pub open spec fn c_var(g: GraphV, b: usize, x: usize) -> bool { reach(g, updir(), b, x) || exists|u: usize| #[trigger] reach(g, updir(), b, u) && reach(g, down(), u, x) }
pub open spec fn c_fct(g: GraphV, b: usize, f: FctV) -> bool { fct_of(g, updir(), b, f) || exists|u: usize| #[trigger] reach(g, updir(), b, u) && fct_of(g, down(), u, f) }
pub open spec fn c_lit(g: GraphV, b: usize, l: Text) -> bool { lit_of(g, updir(), b, l) || exists|u: usize| #[trigger] reach(g, updir(), b, u) && lit_of(g, down(), u, l) }
/// the clique of b: all that b is used to build, and all that this is built from
pub open spec fn clique(g: GraphV, b: usize, s: NodeSetData) -> bool {
    (forall|x: usize| #[trigger] s.vars@.contains(x) <==> c_var(g, b, x)) && (forall|f: FctV| #[trigger] s.string_fcts@.contains(f) <==> c_fct(g, b, f)) && (forall|l: Text| #[trigger] s.string_lits@.contains(l) <==> c_lit(g, b, l)) }
pub open spec fn all_cliques(g: GraphV, cv: Set<usize>, m: Map<usize, NodeSetData>) -> bool { forall|b: usize| (#[trigger] m.contains_key(b) <==> base(g, cv, b)) && (m.contains_key(b) ==> clique(g, b, m[b])) }
pub open spec fn near(g: GraphV, cv: Set<usize>, v: usize, b: usize) -> bool { base(g, cv, b) && c_var(g, b, v) }
/// the partition of v: the cliques that v is in, all together
pub open spec fn part(g: GraphV, cv: Set<usize>, v: usize, s: NodeSetData) -> bool {
    (forall|x: usize| #[trigger] s.vars@.contains(x) <==> x == v || exists|b: usize| #[trigger] near(g, cv, v, b) && c_var(g, b, x))
    && (forall|f: FctV| #[trigger] s.string_fcts@.contains(f) <==> f == pair(g[v]) || exists|b: usize| #[trigger] near(g, cv, v, b) && c_fct(g, b, f))
    && (forall|l: Text| #[trigger] s.string_lits@.contains(l) <==> g[v].lits.contains(l) || exists|b: usize| #[trigger] near(g, cv, v, b) && c_lit(g, b, l)) }
pub open spec fn is_part(g: GraphV, cv: Set<usize>, s: NodeSetData) -> bool { exists|v: usize| g.contains_key(v) && #[trigger] part(g, cv, v, s) }
pub open spec fn all_parts(g: GraphV, cv: Set<usize>, ps: Seq<NodeSetData>) -> bool { forall|i: int| 0 <= i < ps.len() ==> is_part(g, cv, #[trigger] ps[i]) }
pub open spec fn inside(ps: Seq<NodeSetData>, n: usize) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) }
pub open spec fn within(a: NodeSetData, b: NodeSetData) -> bool { a.vars@.subset_of(b.vars@) && a.string_fcts@.subset_of(b.string_fcts@) && a.string_lits@.subset_of(b.string_lits@) }
/// what is used with n takes in a whole partition that n is in, and nothing but what is in such partitions
pub open spec fn used_in(ps: Seq<NodeSetData>, n: usize, s: NodeSetData) -> bool {
    (exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && within(ps[i], s))
    && (forall|x: usize| #[trigger] s.vars@.contains(x) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].vars@.contains(x))
    && (forall|f: FctV| #[trigger] s.string_fcts@.contains(f) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_fcts@.contains(f))
    && (forall|l: Text| #[trigger] s.string_lits@.contains(l) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_lits@.contains(l)) }
pub open spec fn used_sound(m: Nodes, ps: Seq<NodeSetData>) -> bool { forall|n: usize| m.contains_key(n) && (#[trigger] m[n]).data.used_with is Some ==> used_in(ps, n, m[n].data.used_with->Some_0) }
/// the partition holds u, all that u is built from, and all their functions and literals
pub open spec fn covers(g: GraphV, u: usize, s: NodeSetData) -> bool {
    s.vars@.contains(u) && (forall|x: usize| #[trigger] reach(g, down(), u, x) ==> s.vars@.contains(x)) && (forall|f: FctV| #[trigger] fct_of(g, down(), u, f) ==> s.string_fcts@.contains(f)) && (forall|l: Text| #[trigger] lit_of(g, down(), u, l) ==> s.string_lits@.contains(l)) }
/// Boolean results are not arguments of string functions
pub open spec fn typed(g: GraphV) -> bool { forall|n: usize, m: usize| g.contains_key(n) && #[trigger] g[n].ch.contains(m) ==> passes(g, m) }
pub proof fn lemma_typed(g: GraphV, a: usize, u: usize) requires linked(g), typed(g), g.contains_key(a), reach(g, down(), a, u) ensures passes(g, u)
{ let p = choose|p: Seq<usize>| #[trigger] path(g, down(), p) && p[0] == a && p.last() == u; lemma_in(g, down(), p); let i = p.len() - 2; assert(g.contains_key(p[i])); assert(rel(g, down(), p[i]).contains(p[i + 1])); assert(g[p[i]].ch.contains(p[i + 1])); }
pub open spec fn leaf_below(g: GraphV, u: usize, y: usize) -> bool { g.contains_key(y) && g[y].ch == Set::<usize>::empty() && (y == u || reach(g, down(), u, y)) }
pub proof fn lemma_leaf(g: GraphV, u: usize) -> (y: usize) requires linked(g), acyclic(g), typed(g), g.contains_key(u) ensures leaf_below(g, u, y) decreases rk(g, down(), u)
{   if g[u].ch == Set::<usize>::empty() { u } else {
        if forall|m: usize| !#[trigger] g[u].ch.contains(m) { assert(g[u].ch =~= Set::<usize>::empty()); }
        let m = choose|m: usize| #[trigger] g[u].ch.contains(m); assert(rel(g, down(), u).contains(m)); lemma_link(g, down(), u, m); let y = lemma_leaf(g, m);
        lemma_step(g, down(), u, y); if y != m { assert(through(g, down(), u, m, y)); } y } }
/// a clique that u is in covers what u is built from
pub proof fn lemma_clique_covers(g: GraphV, b: usize, u: usize) requires linked(g), acyclic(g), typed(g), g.contains_key(b), g.contains_key(u), c_var(g, b, u)
    ensures forall|x: usize| #[trigger] reach(g, down(), u, x) ==> c_var(g, b, x), forall|f: FctV| #[trigger] fct_of(g, down(), u, f) ==> c_fct(g, b, f), forall|l: Text| #[trigger] lit_of(g, down(), u, l) ==> c_lit(g, b, l)
{   if !reach(g, updir(), b, u) {
        let a = choose|a: usize| #[trigger] reach(g, updir(), b, a) && reach(g, down(), a, u); lemma_reach(g, updir(), b, a); lemma_typed(g, a, u);
        assert forall|x: usize| #[trigger] reach(g, down(), u, x) implies reach(g, down(), a, x) by { lemma_trans(g, down(), a, u, x); }
        assert forall|f: FctV| #[trigger] fct_of(g, down(), u, f) implies fct_of(g, down(), a, f) by { if f != pair(g[u]) { let x = choose|x: usize| #[trigger] reach(g, down(), u, x) && f == pair(g[x]); assert(reach(g, down(), a, x)); } }
        assert forall|l: Text| #[trigger] lit_of(g, down(), u, l) implies lit_of(g, down(), a, l) by { if !g[u].lits.contains(l) { let x = choose|x: usize| #[trigger] reach(g, down(), u, x) && passes(g, x) && g[x].lits.contains(l); assert(reach(g, down(), a, x)); } }
    } }
/// every partition that u is in covers u
pub proof fn lemma_covers(g: GraphV, cv: Set<usize>, v: usize, u: usize, s: NodeSetData) requires linked(g), acyclic(g), typed(g), g.contains_key(v), g.contains_key(u), part(g, cv, v, s), s.vars@.contains(u) ensures covers(g, u, s)
{   let b = if u != v { choose|b: usize| #[trigger] near(g, cv, v, b) && c_var(g, b, u) } else { lemma_leaf(g, u) };
    if u == v && b == u { assert forall|x: usize| !reach(g, down(), u, x) by { lemma_step(g, down(), u, x); } }
    else { if u == v { lemma_rev(g, u, b); assert(reach(g, updir(), b, u)); } assert(near(g, cv, v, b)); lemma_clique_covers(g, b, u); } }
// ---- the whole graph
impl CallGraph {
    pub open spec fn nodes(&self) -> Nodes { self.forest.nodes@ }
    pub open spec fn g(&self) -> GraphV { gv(self.forest.nodes@) }
    /// the numbers of the nodes are 0, 1, …; links are symmetric; every name and every constraint variable is a node
    pub open spec fn wf(&self) -> bool { linked(self.g()) && (forall|n: usize| #[trigger] self.nodes().contains_key(n) <==> n < self.nodes().dom().len())
        && (forall|t: Text| self.symbol_map@.contains_key(t) ==> self.nodes().contains_key(#[trigger] self.symbol_map@[t])) && (forall|n: usize| #[trigger] self.constraint_vars@.contains(n) ==> self.nodes().contains_key(n)) }
    /// all but the nodes
    pub open spec fn rest_same(&self, o: &CallGraph) -> bool { self.symbol_map == o.symbol_map && self.constraint_vars == o.constraint_vars && self.partitions == o.partitions && self.propagated == o.propagated }
    pub open spec fn up_down(&self) -> bool { forall|n: usize| self.nodes().contains_key(n) ==> (#[trigger] self.nodes()[n]).data.built_from is Some && self.nodes()[n].data.used_to_build is Some }
    /// propagation is over
    pub open spec fn done(&self) -> bool { sound(self.nodes()) && self.up_down() && used_sound(self.nodes(), self.partitions@) && all_parts(self.g(), self.constraint_vars@, self.partitions@)
        && (forall|n: usize| self.nodes().contains_key(n) ==> (#[trigger] self.nodes()[n]).data.used_with is Some)
        && (typed(self.g()) ==> forall|u: usize| #[trigger] self.nodes().contains_key(u) ==> covered(self.g(), u, self.partitions@)) }
    pub open spec fn named(&self, n: usize) -> bool { exists|t: Text| self.symbol_map@.contains_key(t) && #[trigger] self.symbol_map@[t] == n }
}
pub open spec fn covered(g: GraphV, u: usize, ps: Seq<NodeSetData>) -> bool { exists|i: int| 0 <= i < ps.len() && covers(g, u, #[trigger] ps[i]) }
pub open spec fn blank(id: usize, c: CallnodeData) -> NodeV { NodeV { pa: Set::empty(), ch: Set::empty(), si: Set::empty(), ind: id, fct: c.string_fct, lits: c.string_lits_built_from@ } }
/// the graph with a link from a parent to a child
pub open spec fn with_link(g: GraphV, p: usize, c: usize) -> GraphV { let h = g.insert(p, NodeV { ch: g[p].ch.insert(c), ..g[p] }); h.insert(c, NodeV { pa: h[c].pa.insert(p), ..h[c] }) }
/// a node with new siblings
pub open spec fn with_sibs(n: NodeV, s: Set<usize>, l: Set<Text>) -> NodeV { NodeV { si: n.si.union(s).remove(n.ind), lits: if n.fct is NO_OP { n.lits.union(l) } else { n.lits }, ..n } }
'''
SPEC4 = r'''
pub open spec fn names(m: Map<Text, NodeId>, s: Set<Text>, t: Set<usize>) -> bool { forall|n: usize| #[trigger] t.contains(n) <==> exists|x: Text| #[trigger] s.contains(x) && m[x] == n }
/// exactly the nodes of did have the new siblings and literals
pub open spec fn sibs_done(a: Nodes, b: Nodes, s: Set<usize>, did: spec_fn(usize) -> bool, l: Set<Text>) -> bool {
    a.dom() == b.dom() && (forall|n: usize| #[trigger] a.contains_key(n) ==> nv(b[n]) == (if did(n) { with_sibs(nv(a[n]), s, l) } else { nv(a[n]) })
        && b[n].data.built_from == a[n].data.built_from && b[n].data.used_to_build == a[n].data.used_to_build && b[n].data.used_with == a[n].data.used_with) }
pub open spec fn sibs_added(a: Nodes, b: Nodes, m: Map<Text, NodeId>, sibs: Set<Text>, l: Set<Text>) -> bool { exists|s: Set<usize>| #[trigger] names(m, sibs, s) && sibs_done(a, b, s, |n: usize| s.contains(n), l) }
pub open spec fn datas(a: Nodes, b: Nodes) -> bool { forall|n: usize| #[trigger] a.contains_key(n) ==> b[n].data == a[n].data }
/// the first k partitions that n is in, all together
pub open spec fn joined(ps: Seq<NodeSetData>, k: int, n: usize, s: NodeSetData) -> bool {
    (forall|x: usize| #[trigger] s.vars@.contains(x) <==> exists|i: int| 0 <= i < k && (#[trigger] ps[i]).vars@.contains(n) && ps[i].vars@.contains(x))
    && (forall|f: FctV| #[trigger] s.string_fcts@.contains(f) <==> exists|i: int| 0 <= i < k && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_fcts@.contains(f))
    && (forall|l: Text| #[trigger] s.string_lits@.contains(l) <==> exists|i: int| 0 <= i < k && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_lits@.contains(l)) }
/// the cliques of the first k bases that v is in, with v
pub open spec fn some_cliques(g: GraphV, v: usize, l: Seq<&usize>, k: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>) -> bool {
    (forall|x: usize| #[trigger] vs.contains(x) <==> x == v || exists|i: int| 0 <= i < k && c_var(g, *#[trigger] l[i], v) && c_var(g, *l[i], x))
    && (forall|f: FctV| #[trigger] fs.contains(f) <==> f == pair(g[v]) || exists|i: int| 0 <= i < k && c_var(g, *#[trigger] l[i], v) && c_fct(g, *l[i], f))
    && (forall|t: Text| #[trigger] ls.contains(t) <==> g[v].lits.contains(t) || exists|i: int| 0 <= i < k && c_var(g, *#[trigger] l[i], v) && c_lit(g, *l[i], t)) }
pub proof fn lemma_some_cliques(g: GraphV, cv: Set<usize>, v: usize, l: Seq<&usize>, s: NodeSetData) requires some_cliques(g, v, l, l.len() as int, s.vars@, s.string_fcts@, s.string_lits@), forall|i: int| 0 <= i < l.len() ==> base(g, cv, *#[trigger] l[i]), forall|b: usize| #[trigger] base(g, cv, b) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == b ensures part(g, cv, v, s)
{   assert forall|x: usize| #[trigger] s.vars@.contains(x) <==> x == v || exists|b: usize| #[trigger] near(g, cv, v, b) && c_var(g, b, x) by { if exists|b: usize| #[trigger] near(g, cv, v, b) && c_var(g, b, x) { let b = choose|b: usize| #[trigger] near(g, cv, v, b) && c_var(g, b, x); assert(base(g, cv, b)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == b; assert(c_var(g, *l[i], v)); }
        if s.vars@.contains(x) && x != v { let i = choose|i: int| 0 <= i < l.len() && c_var(g, *#[trigger] l[i], v) && c_var(g, *l[i], x); assert(near(g, cv, v, *l[i])); } }
    assert forall|f: FctV| #[trigger] s.string_fcts@.contains(f) <==> f == pair(g[v]) || exists|b: usize| #[trigger] near(g, cv, v, b) && c_fct(g, b, f) by { if exists|b: usize| #[trigger] near(g, cv, v, b) && c_fct(g, b, f) { let b = choose|b: usize| #[trigger] near(g, cv, v, b) && c_fct(g, b, f); assert(base(g, cv, b)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == b; assert(c_var(g, *l[i], v)); }
        if s.string_fcts@.contains(f) && f != pair(g[v]) { let i = choose|i: int| 0 <= i < l.len() && c_var(g, *#[trigger] l[i], v) && c_fct(g, *l[i], f); assert(near(g, cv, v, *l[i])); } }
    assert forall|t: Text| #[trigger] s.string_lits@.contains(t) <==> g[v].lits.contains(t) || exists|b: usize| #[trigger] near(g, cv, v, b) && c_lit(g, b, t) by { if exists|b: usize| #[trigger] near(g, cv, v, b) && c_lit(g, b, t) { let b = choose|b: usize| #[trigger] near(g, cv, v, b) && c_lit(g, b, t); assert(base(g, cv, b)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == b; assert(c_var(g, *l[i], v)); }
        if s.string_lits@.contains(t) && !g[v].lits.contains(t) { let i = choose|i: int| 0 <= i < l.len() && c_var(g, *#[trigger] l[i], v) && c_lit(g, *l[i], t); assert(near(g, cv, v, *l[i])); } }
}
pub proof fn lemma_used(ps: Seq<NodeSetData>, n: usize, s: NodeSetData) requires inside(ps, n), joined(ps, ps.len() as int, n, s) ensures used_in(ps, n, s)
{ let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n); assert(within(ps[i], s)); }
pub proof fn lemma_used_more(ps: Seq<NodeSetData>, s: NodeSetData, m: Nodes) requires used_sound(m, ps) ensures used_sound(m, ps.push(s))
{ let q = ps.push(s); assert forall|n: usize| m.contains_key(n) && (#[trigger] m[n]).data.used_with is Some implies used_in(q, n, m[n].data.used_with->Some_0) by {
    let d = m[n].data.used_with->Some_0; assert(used_in(ps, n, d)); assert forall|i: int| 0 <= i < ps.len() implies #[trigger] ps[i] == q[i] by {}
    let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && within(ps[i], d); assert(q[i].vars@.contains(n) && within(q[i], d));
    assert forall|x: usize| #[trigger] d.vars@.contains(x) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vars@.contains(n) && q[i].vars@.contains(x) by { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].vars@.contains(x); assert(q[i].vars@.contains(n)); }
    assert forall|x: FctV| #[trigger] d.string_fcts@.contains(x) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vars@.contains(n) && q[i].string_fcts@.contains(x) by { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_fcts@.contains(x); assert(q[i].vars@.contains(n)); }
    assert forall|x: Text| #[trigger] d.string_lits@.contains(x) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vars@.contains(n) && q[i].string_lits@.contains(x) by { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(n) && ps[i].string_lits@.contains(x); assert(q[i].vars@.contains(n)); }
  } }
pub open spec fn among(l: Seq<&usize>, k: int, n: usize) -> bool { exists|i: int| 0 <= i < k && *#[trigger] l[i] == n }
pub proof fn vx_names(m: Map<Text, NodeId>, sibs: Set<Text>, s: Set<usize>, l: Seq<&ISymbol>) requires members(l, sibs), forall|n: usize| #[trigger] s.contains(n) <==> exists|k: int| 0 <= k < l.len() && m[(#[trigger] l[k]).k()] == n ensures names(m, sibs, s)
{ assert forall|n: usize| #[trigger] s.contains(n) <==> exists|x: Text| #[trigger] sibs.contains(x) && m[x] == n by {
    if s.contains(n) { let k = choose|k: int| 0 <= k < l.len() && m[(#[trigger] l[k]).k()] == n; assert(sibs.contains(l[k].k())); }
    if exists|x: Text| #[trigger] sibs.contains(x) && m[x] == n { let x = choose|x: Text| #[trigger] sibs.contains(x) && m[x] == n; let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).k() == x; assert(m[l[k].k()] == n); } } }
/// one node more has its siblings
pub proof fn vx_sib_step(a: Nodes, b: Nodes, c: Nodes, s: Set<usize>, l: Seq<&usize>, j: int, t: Set<Text>)
    requires 0 <= j < l.len(), sibs_done(a, b, s, |n: usize| among(l, j, n), t), a.contains_key(*l[j]), c == b.insert(*l[j], c[*l[j]]),
        ({ let (x, y) = (b[*l[j]], c[*l[j]]); y.parents == x.parents && y.children == x.children && y.ind == x.ind && y.siblings@ == x.siblings@.union(s).remove(x.ind) && y.data.string_fct == x.data.string_fct && y.data.built_from == x.data.built_from && y.data.used_to_build == x.data.used_to_build && y.data.used_with == x.data.used_with
            && (y.data.string_lits_built_from@ =~= if x.data.string_fct is NO_OP { x.data.string_lits_built_from@.union(t) } else { x.data.string_lits_built_from@ }) }),
    ensures sibs_done(a, c, s, |n: usize| among(l, j + 1, n), t)
{   assert(a.dom() =~= c.dom());
    assert forall|n: usize| #[trigger] a.contains_key(n) implies nv(c[n]) == (if among(l, j + 1, n) { with_sibs(nv(a[n]), s, t) } else { nv(a[n]) }) && c[n].data.built_from == a[n].data.built_from && c[n].data.used_to_build == a[n].data.used_to_build && c[n].data.used_with == a[n].data.used_with by {
        if n == *l[j] { assert(among(l, j + 1, n)); let w = with_sibs(nv(a[n]), s, t);
            if among(l, j, n) { assert(nv(b[n]) == w); assert(nv(c[n]).si =~= w.si); assert(nv(c[n]).lits =~= w.lits); } else { assert(nv(c[n]).si =~= w.si); assert(nv(c[n]).lits =~= w.lits); } }
        else { assert(c[n] == b[n]); if among(l, j, n) { let i = choose|i: int| 0 <= i < j && *#[trigger] l[i] == n; assert(i < j + 1); assert(among(l, j + 1, n)); } else if among(l, j + 1, n) { let i = choose|i: int| 0 <= i < j + 1 && *#[trigger] l[i] == n; assert(i < j); } } }
}
pub proof fn vx_sib_wf(a: Nodes, b: Nodes, s: Set<usize>, t: Set<Text>) requires linked(gv(a)), forall|n: usize| s.contains(n) ==> a.contains_key(n), sibs_done(a, b, s, |n: usize| s.contains(n), t) ensures linked(gv(b))
{   let (g, h) = (gv(a), gv(b)); assert(g.dom() =~= h.dom()); assert forall|n: usize| #[trigger] h.contains_key(n) implies g.contains_key(n) && h[n] == (if s.contains(n) { with_sibs(g[n], s, t) } else { g[n] }) by { assert(a.contains_key(n)); } }
pub open spec fn together(ps: Seq<NodeSetData>, a: usize, b: usize) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(a) && ps[i].vars@.contains(b) }
/// one related node more is collected
pub proof fn lemma_more(g: GraphV, dir: GraphTraversalDir, n: usize, l: Seq<&usize>, i: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>, vs2: Set<usize>, fs2: Set<FctV>, ls2: Set<Text>)
    requires 0 <= i < l.len(), partly(g, dir, n, l, i, vs, fs, ls),
        forall|x: usize| #[trigger] vs2.contains(x) <==> vs.contains(x) || passes(g, *l[i]) && reach(g, dir, *l[i], x),
        forall|f: FctV| #[trigger] fs2.contains(f) <==> fs.contains(f) || f == pair(g[*l[i]]) || passes(g, *l[i]) && fct_of(g, dir, *l[i], f),
        forall|t: Text| #[trigger] ls2.contains(t) <==> ls.contains(t) || passes(g, *l[i]) && lit_of(g, dir, *l[i], t),
    ensures partly(g, dir, n, l, i + 1, vs2, fs2, ls2)
{   assert forall|x: usize| #[trigger] vs2.contains(x) <==> part_vars(g, dir, n, l, i + 1, x) by { if vs.contains(x) && !rel(g, dir, n).contains(x) { let k = choose|k: int| 0 <= k < i && passes(g, *#[trigger] l[k]) && reach(g, dir, *l[k], x); assert(k < i + 1); }
        if part_vars(g, dir, n, l, i + 1, x) && !rel(g, dir, n).contains(x) { let k = choose|k: int| 0 <= k < i + 1 && passes(g, *#[trigger] l[k]) && reach(g, dir, *l[k], x); if k < i { assert(part_vars(g, dir, n, l, i, x)); assert(vs.contains(x)); } } else if rel(g, dir, n).contains(x) { assert(vs.contains(x)); } }
    assert forall|f: FctV| #[trigger] fs2.contains(f) <==> part_fcts(g, dir, n, l, i + 1, f) by { if fs.contains(f) && f != pair(g[n]) { let k = choose|k: int| 0 <= k < i && (f == pair(g[*#[trigger] l[k]]) || passes(g, *l[k]) && fct_of(g, dir, *l[k], f)); assert(k < i + 1); }
        if part_fcts(g, dir, n, l, i + 1, f) && f != pair(g[n]) { let k = choose|k: int| 0 <= k < i + 1 && (f == pair(g[*#[trigger] l[k]]) || passes(g, *l[k]) && fct_of(g, dir, *l[k], f)); if k < i { assert(part_fcts(g, dir, n, l, i, f)); assert(fs.contains(f)); } } else if f == pair(g[n]) { assert(fs.contains(f)); } }
    assert forall|t: Text| #[trigger] ls2.contains(t) <==> part_lits(g, dir, n, l, i + 1, t) by { if ls.contains(t) && !g[n].lits.contains(t) { let k = choose|k: int| 0 <= k < i && passes(g, *#[trigger] l[k]) && lit_of(g, dir, *l[k], t); assert(k < i + 1); }
        if part_lits(g, dir, n, l, i + 1, t) && !g[n].lits.contains(t) { let k = choose|k: int| 0 <= k < i + 1 && passes(g, *#[trigger] l[k]) && lit_of(g, dir, *l[k], t); if k < i { assert(part_lits(g, dir, n, l, i, t)); assert(ls.contains(t)); } } else if g[n].lits.contains(t) { assert(ls.contains(t)); } }
}
pub proof fn lemma_not_self(g: GraphV, dir: GraphTraversalDir, n: usize) requires linked(g), acyclic(g), g.contains_key(n) ensures !reach(g, dir, n, n) { if reach(g, dir, n, n) { lemma_reach(g, dir, n, n); } }
/// nothing that is collected is the node itself
pub proof fn vx_self(g: GraphV, dir: GraphTraversalDir, n: usize, m: usize, l: Seq<&usize>, i: int) requires linked(g), acyclic(g), g.contains_key(n), members(l, rel(g, dir, n)), 0 <= i < l.len(), m == *l[i] ensures !part_vars(g, dir, n, l, i, n), passes(g, m) ==> !reach(g, dir, m, n)
{   lemma_not_self(g, dir, n); lemma_step(g, dir, n, n); assert(rel(g, dir, n).contains(l[i].k())); if passes(g, m) && reach(g, dir, m, n) { assert(through(g, dir, n, m, n)); }
    if part_vars(g, dir, n, l, i, n) && !rel(g, dir, n).contains(n) { let k = choose|k: int| 0 <= k < i && passes(g, *#[trigger] l[k]) && reach(g, dir, *l[k], n); assert(rel(g, dir, n).contains(l[k].k())); assert(through(g, dir, n, *l[k], n)); } }
pub open spec fn listed(m: Map<Text, NodeId>, v: Seq<ISymbol>, n: usize) -> bool { exists|i: int| 0 <= i < v.len() && m[(#[trigger] v[i]).k()] == n }
pub proof fn lemma_joined(ps: Seq<NodeSetData>, i: int, n: usize, a: NodeSetData, b: NodeSetData) requires 0 <= i < ps.len(), joined(ps, i, n, a), ({ let c = ps[i].vars@.contains(n); b.vars@ == (if c { a.vars@.union(ps[i].vars@) } else { a.vars@ }) && b.string_fcts@ == (if c { a.string_fcts@.union(ps[i].string_fcts@) } else { a.string_fcts@ }) && b.string_lits@ == (if c { a.string_lits@.union(ps[i].string_lits@) } else { a.string_lits@ }) }) ensures joined(ps, i + 1, n, b)
{   assert forall|x: usize| #[trigger] b.vars@.contains(x) <==> exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].vars@.contains(x) by { if a.vars@.contains(x) { let k = choose|k: int| 0 <= k < i && (#[trigger] ps[k]).vars@.contains(n) && ps[k].vars@.contains(x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].vars@.contains(x) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].vars@.contains(x); if k < i { assert(a.vars@.contains(x)); } } }
    assert forall|x: FctV| #[trigger] b.string_fcts@.contains(x) <==> exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_fcts@.contains(x) by { if a.string_fcts@.contains(x) { let k = choose|k: int| 0 <= k < i && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_fcts@.contains(x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_fcts@.contains(x) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_fcts@.contains(x); if k < i { assert(a.string_fcts@.contains(x)); } } }
    assert forall|x: Text| #[trigger] b.string_lits@.contains(x) <==> exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_lits@.contains(x) by { if a.string_lits@.contains(x) { let k = choose|k: int| 0 <= k < i && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_lits@.contains(x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_lits@.contains(x) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] ps[k]).vars@.contains(n) && ps[k].string_lits@.contains(x); if k < i { assert(a.string_lits@.contains(x)); } } }
}
pub open spec fn first(l: Seq<(&usize, &Node<usize, CallnodeData>)>, k: int, n: usize) -> bool { exists|i: int| 0 <= i < k && *(#[trigger] l[i]).0 == n }
pub type Es<'a> = Seq<(&'a usize, &'a Node<usize, CallnodeData>)>;
pub open spec fn leaf_in(es: Es, j: int, e: (&usize, &Node<usize, CallnodeData>)) -> bool { exists|i: int| 0 <= i < j && (#[trigger] es[i]) == e && e.1.children@ == Set::<usize>::empty() }
pub open spec fn kept(l: Es, e: (&usize, &Node<usize, CallnodeData>)) -> bool { exists|k: int| 0 <= k < l.len() && (#[trigger] l[k]) == e }
/// the leaves among the first j entries
pub open spec fn picked(es: Es, j: int, l: Es) -> bool { (forall|k: int| 0 <= k < l.len() ==> leaf_in(es, j, #[trigger] l[k])) && (forall|i: int| 0 <= i < j && (#[trigger] es[i]).1.children@ == Set::<usize>::empty() ==> kept(l, es[i])) }
pub proof fn vx_pick(es: Es, j: int, l: Es, m: Es) requires 0 <= j < es.len(), picked(es, j, l), m == (if es[j].1.children@ == Set::<usize>::empty() { l.push(es[j]) } else { l }) ensures picked(es, j + 1, m)
{   assert forall|k: int| 0 <= k < m.len() implies leaf_in(es, j + 1, #[trigger] m[k]) by { if k < l.len() { assert(leaf_in(es, j, l[k])); let i = choose|i: int| 0 <= i < j && (#[trigger] es[i]) == l[k] && l[k].1.children@ == Set::<usize>::empty(); assert(i < j + 1); } else { assert(es[j] == m[k]); } }
    assert forall|i: int| 0 <= i < j + 1 && (#[trigger] es[i]).1.children@ == Set::<usize>::empty() implies kept(m, es[i]) by { if i < j { assert(kept(l, es[i])); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]) == es[i]; assert(m[k] == es[i]); } else { assert(m[l.len() as int] == es[i]); } } }
pub proof fn vx_leaves(m: Nodes, es: Es, l: Es) requires entries(es, m), picked(es, es.len() as int, l)
    ensures forall|n: usize| #[trigger] first(l, l.len() as int, n) <==> m.contains_key(n) && m[n].children@ == Set::<usize>::empty()
{   assert forall|n: usize| #[trigger] first(l, l.len() as int, n) <==> m.contains_key(n) && m[n].children@ == Set::<usize>::empty() by {
        if first(l, l.len() as int, n) { let k = choose|k: int| 0 <= k < l.len() && *(#[trigger] l[k]).0 == n; assert(leaf_in(es, es.len() as int, l[k])); let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]) == l[k] && l[k].1.children@ == Set::<usize>::empty(); assert(m[es[j].0.k()] == *es[j].1); }
        if m.contains_key(n) && m[n].children@ == Set::<usize>::empty() { let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0.k() == n; assert(*es[j].1 == m[n]); assert(kept(l, es[j])); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]) == es[j]; assert(*l[k].0 == n); } } }
pub proof fn vx_among(l: Seq<&usize>, j: int, n: usize) requires 0 <= j < l.len() ensures among(l, j + 1, n) <==> among(l, j, n) || n == *l[j]
{ if among(l, j, n) { let i = choose|i: int| 0 <= i < j && *#[trigger] l[i] == n; assert(i < j + 1); } if among(l, j + 1, n) { let i = choose|i: int| 0 <= i < j + 1 && *#[trigger] l[i] == n; if i < j { assert(among(l, j, n)); } } if n == *l[j] { assert(among(l, j + 1, n)); } }
pub proof fn lemma_ends(g: GraphV, dir: GraphTraversalDir, n: usize, x: usize) requires linked(g), g.contains_key(n), reach(g, dir, n, x) ensures g.contains_key(x)
{ let p = choose|p: Seq<usize>| #[trigger] path(g, dir, p) && p[0] == n && p.last() == x; lemma_in(g, dir, p); assert(g.contains_key(p[p.len() - 1])); }
/// the clique of b from the first k of the nodes it is used to build
pub open spec fn clique_to(g: GraphV, b: usize, l: Seq<&usize>, k: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>) -> bool {
    (forall|x: usize| #[trigger] vs.contains(x) <==> reach(g, updir(), b, x) || exists|i: int| 0 <= i < k && reach(g, down(), *#[trigger] l[i], x))
    && (forall|f: FctV| #[trigger] fs.contains(f) <==> fct_of(g, updir(), b, f) || exists|i: int| 0 <= i < k && fct_of(g, down(), *#[trigger] l[i], f))
    && (forall|t: Text| #[trigger] ls.contains(t) <==> lit_of(g, updir(), b, t) || exists|i: int| 0 <= i < k && lit_of(g, down(), *#[trigger] l[i], t)) }
pub proof fn lemma_clique_more(g: GraphV, b: usize, l: Seq<&usize>, i: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>, vs2: Set<usize>, fs2: Set<FctV>, ls2: Set<Text>)
    requires 0 <= i < l.len(), clique_to(g, b, l, i, vs, fs, ls), forall|x: usize| #[trigger] vs2.contains(x) <==> vs.contains(x) || reach(g, down(), *l[i], x), forall|f: FctV| #[trigger] fs2.contains(f) <==> fs.contains(f) || fct_of(g, down(), *l[i], f), forall|t: Text| #[trigger] ls2.contains(t) <==> ls.contains(t) || lit_of(g, down(), *l[i], t)
    ensures clique_to(g, b, l, i + 1, vs2, fs2, ls2)
{   assert forall|x: usize| #[trigger] vs2.contains(x) <==> reach(g, updir(), b, x) || exists|k: int| 0 <= k < i + 1 && reach(g, down(), *#[trigger] l[k], x) by { if vs.contains(x) && !reach(g, updir(), b, x) { let k = choose|k: int| 0 <= k < i && reach(g, down(), *#[trigger] l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && reach(g, down(), *#[trigger] l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && reach(g, down(), *#[trigger] l[k], x); if k < i { assert(vs.contains(x)); } } if reach(g, updir(), b, x) { assert(vs.contains(x)); } }
    assert forall|x: FctV| #[trigger] fs2.contains(x) <==> fct_of(g, updir(), b, x) || exists|k: int| 0 <= k < i + 1 && fct_of(g, down(), *#[trigger] l[k], x) by { if fs.contains(x) && !fct_of(g, updir(), b, x) { let k = choose|k: int| 0 <= k < i && fct_of(g, down(), *#[trigger] l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && fct_of(g, down(), *#[trigger] l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && fct_of(g, down(), *#[trigger] l[k], x); if k < i { assert(fs.contains(x)); } } if fct_of(g, updir(), b, x) { assert(fs.contains(x)); } }
    assert forall|x: Text| #[trigger] ls2.contains(x) <==> lit_of(g, updir(), b, x) || exists|k: int| 0 <= k < i + 1 && lit_of(g, down(), *#[trigger] l[k], x) by { if ls.contains(x) && !lit_of(g, updir(), b, x) { let k = choose|k: int| 0 <= k < i && lit_of(g, down(), *#[trigger] l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && lit_of(g, down(), *#[trigger] l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && lit_of(g, down(), *#[trigger] l[k], x); if k < i { assert(ls.contains(x)); } } if lit_of(g, updir(), b, x) { assert(ls.contains(x)); } }
}
/// the nodes it is used to build, all of them
pub proof fn lemma_clique(g: GraphV, b: usize, l: Seq<&usize>, s: NodeSetData) requires clique_to(g, b, l, l.len() as int, s.vars@, s.string_fcts@, s.string_lits@), forall|u: usize| #[trigger] reach(g, updir(), b, u) ==> among(l, l.len() as int, u), forall|k: int| 0 <= k < l.len() ==> reach(g, updir(), b, *#[trigger] l[k]) ensures clique(g, b, s)
{   let n = l.len() as int;
    assert forall|x: usize| #[trigger] s.vars@.contains(x) <==> c_var(g, b, x) by { if c_var(g, b, x) && !reach(g, updir(), b, x) { let u = choose|u: usize| #[trigger] reach(g, updir(), b, u) && reach(g, down(), u, x); assert(among(l, n, u)); let i = choose|i: int| 0 <= i < n && *#[trigger] l[i] == u; assert(reach(g, down(), *l[i], x)); } if s.vars@.contains(x) && !reach(g, updir(), b, x) { let i = choose|i: int| 0 <= i < n && reach(g, down(), *#[trigger] l[i], x); assert(reach(g, updir(), b, *l[i])); } }
    assert forall|x: FctV| #[trigger] s.string_fcts@.contains(x) <==> c_fct(g, b, x) by { if c_fct(g, b, x) && !fct_of(g, updir(), b, x) { let u = choose|u: usize| #[trigger] reach(g, updir(), b, u) && fct_of(g, down(), u, x); assert(among(l, n, u)); let i = choose|i: int| 0 <= i < n && *#[trigger] l[i] == u; assert(fct_of(g, down(), *l[i], x)); } if s.string_fcts@.contains(x) && !fct_of(g, updir(), b, x) { let i = choose|i: int| 0 <= i < n && fct_of(g, down(), *#[trigger] l[i], x); assert(reach(g, updir(), b, *l[i])); } }
    assert forall|x: Text| #[trigger] s.string_lits@.contains(x) <==> c_lit(g, b, x) by { if c_lit(g, b, x) && !lit_of(g, updir(), b, x) { let u = choose|u: usize| #[trigger] reach(g, updir(), b, u) && lit_of(g, down(), u, x); assert(among(l, n, u)); let i = choose|i: int| 0 <= i < n && *#[trigger] l[i] == u; assert(lit_of(g, down(), *l[i], x)); } if s.string_lits@.contains(x) && !lit_of(g, updir(), b, x) { let i = choose|i: int| 0 <= i < n && lit_of(g, down(), *#[trigger] l[i], x); assert(reach(g, updir(), b, *l[i])); } }
}
pub proof fn lemma_some_more(g: GraphV, v: usize, l: Seq<&usize>, i: int, vs: Set<usize>, fs: Set<FctV>, ls: Set<Text>, vs2: Set<usize>, fs2: Set<FctV>, ls2: Set<Text>)
    requires 0 <= i < l.len(), some_cliques(g, v, l, i, vs, fs, ls), forall|x: usize| #[trigger] vs2.contains(x) <==> vs.contains(x) || c_var(g, *l[i], v) && c_var(g, *l[i], x), forall|f: FctV| #[trigger] fs2.contains(f) <==> fs.contains(f) || c_var(g, *l[i], v) && c_fct(g, *l[i], f), forall|t: Text| #[trigger] ls2.contains(t) <==> ls.contains(t) || c_var(g, *l[i], v) && c_lit(g, *l[i], t)
    ensures some_cliques(g, v, l, i + 1, vs2, fs2, ls2)
{   assert forall|x: usize| #[trigger] vs2.contains(x) <==> x == v || exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_var(g, *l[k], x) by { if vs.contains(x) && x != v { let k = choose|k: int| 0 <= k < i && c_var(g, *#[trigger] l[k], v) && c_var(g, *l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_var(g, *l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_var(g, *l[k], x); if k < i { assert(vs.contains(x)); } } if x == v { assert(vs.contains(x)); } }
    assert forall|x: FctV| #[trigger] fs2.contains(x) <==> x == pair(g[v]) || exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_fct(g, *l[k], x) by { if fs.contains(x) && x != pair(g[v]) { let k = choose|k: int| 0 <= k < i && c_var(g, *#[trigger] l[k], v) && c_fct(g, *l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_fct(g, *l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_fct(g, *l[k], x); if k < i { assert(fs.contains(x)); } } if x == pair(g[v]) { assert(fs.contains(x)); } }
    assert forall|x: Text| #[trigger] ls2.contains(x) <==> g[v].lits.contains(x) || exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_lit(g, *l[k], x) by { if ls.contains(x) && !g[v].lits.contains(x) { let k = choose|k: int| 0 <= k < i && c_var(g, *#[trigger] l[k], v) && c_lit(g, *l[k], x); assert(k < i + 1); } if exists|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_lit(g, *l[k], x) { let k = choose|k: int| 0 <= k < i + 1 && c_var(g, *#[trigger] l[k], v) && c_lit(g, *l[k], x); if k < i { assert(ls.contains(x)); } } if g[v].lits.contains(x) { assert(ls.contains(x)); } }
}
pub proof fn vx_used_joined(ps: Seq<NodeSetData>, n: usize, s: NodeSetData) requires inside(ps, n), joined(ps, ps.len() as int, n, s) ensures used_in(ps, n, s) { lemma_used(ps, n, s); }
pub proof fn vx_used_own(ps: Seq<NodeSetData>, i: int, n: usize, s: NodeSetData) requires 0 <= i < ps.len(), ps[i] == s, s.vars@.contains(n) ensures used_in(ps, n, s) { assert(ps[i].vars@.contains(n) && within(ps[i], s)); }
pub open spec fn used_inside(m: Nodes, ps: Seq<NodeSetData>) -> bool { forall|n: usize| m.contains_key(n) && (#[trigger] m[n]).data.used_with is Some ==> inside(ps, n) }
pub open spec fn half(m: Nodes, n: usize) -> bool { m.contains_key(n) && m[n].data.built_from is Some && m[n].data.used_to_build is Some }
pub open spec fn rest(m: Nodes, ps: Seq<NodeSetData>, n: usize) -> bool { m.contains_key(n) && m[n].data.used_with is Some && inside(ps, n) }
/// what holds all along propagate_all: o is the graph at its start, l the list of its nodes
pub open spec fn always(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>) -> bool {
    s.wf() && acyclic(s.g()) && s.g() == o.g() && sound(s.nodes()) && used_sound(s.nodes(), s.partitions@) && all_parts(s.g(), s.constraint_vars@, s.partitions@) && used_inside(s.nodes(), s.partitions@) && entries(l, o.nodes()) && o.nodes().dom() == s.nodes().dom() && s.constraint_vars == o.constraint_vars }
pub open spec fn halves(s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int) -> bool { forall|j: int| 0 <= j < i ==> half(s.nodes(), *(#[trigger] l[j]).0) }
pub open spec fn rests(s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int) -> bool { forall|j: int| 0 <= j < i ==> rest(s.nodes(), s.partitions@, *(#[trigger] l[j]).0) }
pub proof fn lemma_always_start(o: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>) requires o.wf(), acyclic(o.g()), sound(o.nodes()), used_sound(o.nodes(), o.partitions@), all_parts(o.g(), o.constraint_vars@, o.partitions@), used_inside(o.nodes(), o.partitions@), entries(l, o.nodes()) ensures always(o, o, l), halves(o, l, 0), rests(o, l, 0) { }
pub proof fn lemma_always_at(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int) requires always(o, s, l), 0 <= i < l.len() ensures s.wf(), acyclic(s.g()), sound(s.nodes()), used_sound(s.nodes(), s.partitions@), all_parts(s.g(), s.constraint_vars@, s.partitions@), s.g() == o.g(), s.constraint_vars == o.constraint_vars, s.nodes().contains_key(*l[i].0)
{ assert(o.nodes().contains_key(l[i].0.k())); assert(o.nodes().dom().contains(*l[i].0)); }
pub proof fn lemma_always_along(o: CallGraph, s: CallGraph, t: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int, dir: GraphTraversalDir) requires always(o, s, l), 0 <= i < l.len(), halves(s, l, i), t.wf(), t.g() == s.g(), sound(t.nodes()), later(s.nodes(), t.nodes(), dir), t.rest_same(&s), !(dir is UsedWith)
    ensures always(o, t, l), halves(t, l, i), s.nodes()[*l[i].0].data.built_from is Some && !(dir is BuiltFrom) ==> t.nodes()[*l[i].0].data.built_from is Some, s.nodes()[*l[i].0].data.used_to_build is Some && !(dir is UsedToBuild) ==> t.nodes()[*l[i].0].data.used_to_build is Some
{   lemma_always_at(o, s, l, i); let (a, b) = (s.nodes(), t.nodes()); lemma_gv(a); lemma_gv(b); assert(a.dom() =~= b.dom());
    assert forall|n: usize| b.contains_key(n) && (#[trigger] b[n]).data.used_with is Some implies used_in(t.partitions@, n, b[n].data.used_with->Some_0) by { assert(a.contains_key(n)); assert(a[n].data.used_with == b[n].data.used_with); }
    assert forall|n: usize| b.contains_key(n) && (#[trigger] b[n]).data.used_with is Some implies inside(t.partitions@, n) by { assert(a.contains_key(n)); assert(a[n].data.used_with == b[n].data.used_with); }
    assert forall|j: int| 0 <= j < i implies half(b, *(#[trigger] l[j]).0) by { assert(half(a, *l[j].0)); assert(a.contains_key(*l[j].0)); } }
pub proof fn lemma_always_half(t: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int) requires 0 <= i < l.len(), halves(t, l, i), t.nodes().contains_key(*l[i].0), t.nodes()[*l[i].0].data.used_to_build is Some, t.nodes()[*l[i].0].data.built_from is Some ensures halves(t, l, i + 1) { }
pub proof fn lemma_always_up_down(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>) requires always(o, s, l), halves(s, l, l.len() as int) ensures s.up_down(), rests(s, l, 0)
{ assert forall|n: usize| s.nodes().contains_key(n) implies (#[trigger] s.nodes()[n]).data.built_from is Some && s.nodes()[n].data.used_to_build is Some by { assert(o.nodes().dom().contains(n)); assert(o.nodes().contains_key(n)); let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0.k() == n; assert(half(s.nodes(), *l[j].0)); } }
pub proof fn lemma_always_with(o: CallGraph, s: CallGraph, t: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, i: int)
    requires always(o, s, l), s.up_down(), 0 <= i < l.len(), rests(s, l, i), t.wf(), t.g() == s.g(), sound(t.nodes()), later(s.nodes(), t.nodes(), GraphTraversalDir::UsedWith), used_sound(t.nodes(), t.partitions@), all_parts(t.g(), t.constraint_vars@, t.partitions@), t.constraint_vars == s.constraint_vars,
        forall|n: usize| #[trigger] inside(s.partitions@, n) ==> inside(t.partitions@, n), t.nodes()[*l[i].0].data.used_with is Some, inside(t.partitions@, *l[i].0), only_at(s.nodes(), t.nodes(), *l[i].0)
    ensures always(o, t, l), t.up_down(), rests(t, l, i + 1)
{   let (a, b) = (s.nodes(), t.nodes()); lemma_gv(a); lemma_gv(b); assert(a.dom() =~= b.dom()); lemma_always_at(o, s, l, i);
    assert forall|n: usize| b.contains_key(n) && (#[trigger] b[n]).data.used_with is Some implies inside(t.partitions@, n) by { assert(a.contains_key(n)); if n != *l[i].0 { assert(a[n].data.used_with == b[n].data.used_with); assert(inside(s.partitions@, n)); } }
    assert forall|n: usize| b.contains_key(n) implies (#[trigger] b[n]).data.built_from is Some && b[n].data.used_to_build is Some by { assert(a.contains_key(n)); assert(a[n].data.built_from is Some); }
    assert forall|j: int| 0 <= j < i + 1 implies rest(b, t.partitions@, *(#[trigger] l[j]).0) by { if j < i { assert(rest(a, s.partitions@, *l[j].0)); assert(a.contains_key(*l[j].0)); assert(inside(s.partitions@, *l[j].0)); } } }
/// only this node may have got what it is used with
pub open spec fn only_at(a: Nodes, b: Nodes, v: usize) -> bool { forall|n: usize| #[trigger] a.contains_key(n) && n != v ==> a[n].data.used_with == b[n].data.used_with }
pub proof fn lemma_always_all(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>) requires always(o, s, l) ensures s.wf(), acyclic(s.g()), sound(s.nodes()), used_sound(s.nodes(), s.partitions@), all_parts(s.g(), s.constraint_vars@, s.partitions@), s.g() == o.g(), s.constraint_vars == o.constraint_vars { }
pub proof fn lemma_always_rest(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>, n: usize) requires always(o, s, l), rests(s, l, l.len() as int), s.nodes().contains_key(n) ensures rest(s.nodes(), s.partitions@, n)
{ assert(o.nodes().dom().contains(n)); assert(o.nodes().contains_key(n)); let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0.k() == n; assert(rest(s.nodes(), s.partitions@, *l[j].0)); }
pub proof fn lemma_covered(g: GraphV, cv: Set<usize>, ps: Seq<NodeSetData>, u: usize) requires linked(g), acyclic(g), typed(g), g.contains_key(u), all_parts(g, cv, ps), inside(ps, u) ensures covered(g, u, ps)
{ hide(linked); hide(acyclic); hide(typed); hide(part); hide(covers); let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).vars@.contains(u); assert(is_part(g, cv, ps[i])); let v = choose|v: usize| g.contains_key(v) && #[trigger] part(g, cv, v, ps[i]); lemma_covers(g, cv, v, u, ps[i]); }
pub proof fn lemma_linked(s: CallGraph) requires s.wf() ensures linked(s.g()) { }
pub proof fn lemma_always_done(o: CallGraph, s: CallGraph, l: Seq<(&usize, &Node<usize, CallnodeData>)>) requires always(o, s, l), s.up_down(), rests(s, l, l.len() as int) ensures s.done()
{   hide(CallGraph::wf); hide(CallGraph::up_down); hide(linked); hide(acyclic); hide(sound); hide(used_sound); hide(used_inside); hide(all_parts); hide(entries); hide(typed); hide(covered); hide(always); hide(rests); hide(inside);
    let (m, ps, g, cv) = (s.nodes(), s.partitions@, s.g(), s.constraint_vars@); lemma_gv(m); lemma_always_all(o, s, l); lemma_linked(s);
    assert forall|n: usize| m.contains_key(n) implies (#[trigger] m[n]).data.used_with is Some by { lemma_always_rest(o, s, l, n); }
    if typed(g) { assert forall|u: usize| #[trigger] m.contains_key(u) implies covered(g, u, ps) by { lemma_always_rest(o, s, l, u); lemma_covered(g, cv, ps, u); } } }
pub proof fn lemma_flag(a: CallGraph, b: CallGraph) requires a.forest == b.forest, a.symbol_map == b.symbol_map, a.constraint_vars == b.constraint_vars, a.partitions == b.partitions ensures a.wf() ==> b.wf(), a.done() ==> b.done(), a.g() == b.g() { hide(sound); hide(used_sound); hide(all_parts); hide(typed); hide(covered); assert(a.g() == b.g()); assert(a.nodes() == b.nodes()); assert(a.up_down() ==> b.up_down()); if a.done() && typed(a.g()) { assert forall|u: usize| #[trigger] b.nodes().contains_key(u) implies covered(b.g(), u, b.partitions@) by { assert(a.nodes().contains_key(u)); } } }
'''
def build(u):
    u.add(HEAD)
    u_fct.types(u)
    u.add(PROPS_SPEC + u_fct.SPEC + SPEC)
    T = [('type', 'BTreeSet :: new ( )', 'VSet::new()', '*'), ('type', 'BTreeSet :: < $t* > :: new ( )', 'VSet::<$t>::new()', '*'), ('type', 'HashSet :: < $t* > :: new ( )', 'VSet::<$t>::new()', '*'), ('type', 'HashSet < _ >', 'VSet<_>', '*'), ('type', 'HashMap :: with_capacity', 'VMap::with_capacity', '*'), ('type', 'BTreeSet < $t* >', 'VSet < $t >', '*'), ('type', 'HashSet < $t* >', 'VSet < $t >', '*'), ('type', 'HashMap < $t* >', 'VMap < $t >', '*'), ('type', 'std :: hash :: Hash + Eq + Clone + Ord', 'Key', '*'), ('type', 'std :: hash :: Hash + Eq', 'Key', '*')]
    pub = lambda *fs: [('type', f + ' :', 'pub %s :' % f) for f in fs]
    for n, fs in (('Forest', ['nodes']), ('Node', ['parents', 'children', 'siblings', 'ind']), ('NodeModStruct', [])): u.item(FO, 'struct', n, prefix='#[verifier::reject_recursive_types(U)] #[verifier::reject_recursive_types(T)] pub ' , rules=T + pub(*fs))
    u.item(FO, 'enum', 'AffectOk', prefix='pub '); u.item(FO, 'enum', 'AffectErr', prefix='pub '); u.item(FO, 'enum', 'GraphTraversalDir', prefix='#[derive(Clone, Copy)] pub ')
    for n, fs in (('CallGraph', ['forest', 'symbol_map', 'constraint_vars', 'partitions', 'propagated']), ('NodeSetData', []), ('CallnodeData', [])): u.item(C, 'struct', n, prefix='pub ', rules=T + pub(*fs))
    u.add('''impl NodeSetData { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CallnodeData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }''')
    u.add(SPEC2 + SPEC3 + SPEC4)
    u.add('''
pub open spec fn ins<V>(s: Set<V>, o: Option<V>) -> Set<V> { match o { Some(x) => s.insert(x), None => s } }
pub open spec fn ok_k<U: Key>(o: Option<U>) -> Option<U::V> { match o { Some(x) => Some(x.k()), None => None } }
/// a node after an update: everything is added, only the data is replaced
pub open spec fn updated<U: Key, T: Clone>(n: Node<U, T>, m: Node<U, T>, w: NodeModStruct<U, T>) -> bool {
    m.parents@ == ins(n.parents@, ok_k(w.parent)) && m.children@ == ins(n.children@, ok_k(w.child)) && m.ind == n.ind && m.data == (if w.data is Some { w.data->Some_0 } else { n.data })
    && m.siblings@ == (if w.siblings is Some { n.siblings@.union(w.siblings->Some_0@).remove(n.ind.k()) } else { n.siblings@ })
    && (w.parent is None ==> m.parents == n.parents) && (w.child is None ==> m.children == n.children) && (w.siblings is None ==> m.siblings == n.siblings) }
impl<U: Key, T: Clone> Node<U, T> {''')
    TT = T
    same = lambda *fs: ', '.join('final(self).%s == old(self).%s' % (f, f) for f in fs)
    u.fn(FO, 'Node::new', ret='r', rules=[('type', 'BTreeSet :: new ( )', 'VSet::new()', '*')], ensures='r.parents@ == Set::<U::V>::empty(), r.children@ == Set::<U::V>::empty(), r.siblings@ == Set::<U::V>::empty(), r.ind == ind, r.data == data')
    u.fn(FO, 'Node::add_parent', ensures='final(self).parents@ == old(self).parents@.insert(parent.k()), ' + same('children', 'siblings', 'ind', 'data'))
    u.fn(FO, 'Node::add_child', ensures='final(self).children@ == old(self).children@.insert(child.k()), ' + same('parents', 'siblings', 'ind', 'data'))
    u.fn(FO, 'Node::add_siblings', rules=T, ensures='final(self).siblings@ == old(self).siblings@.union(siblings@).remove(old(self).ind.k()), ' + same('parents', 'children', 'ind', 'data'))
    u.fn(FO, 'Node::set_data', ensures='final(self).data == data, ' + same('parents', 'children', 'siblings', 'ind'))
    for n, f in (('parents', 'parents'), ('children', 'children'), ('siblings', 'siblings'), ('ind', 'ind')): u.fn(FO, 'Node::' + n, ret='r', rules=T, ensures='*r == self.' + f)
    u.add('}\nimpl<U: Key, T: Clone> Forest<U, T> {')
    u.fn(FO, 'Forest::new', ret='r', rules=[('type', 'HashMap :: new ( )', 'VMap::new()', '*')], ensures='r.nodes@ == Map::<U::V, Node<U, T>>::empty()')
    u.fn(FO, 'Forest::new_node', rules=[('desugar', '$x:id . clone ( )', '$x.vx_clone()', '*')], ensures='''final(self).nodes@ == old(self).nodes@.insert(index.k(), final(self).nodes@[index.k()]),
        ({ let n = final(self).nodes@[index.k()]; n.data == data && n.ind == index && n.parents@ == Set::<U::V>::empty() && n.children@ == Set::<U::V>::empty() && n.siblings@ == Set::<U::V>::empty() })''')
    u.fn(FO, 'Forest::get_data_at_index', ret='r', rules=[('desugar', 'self . nodes . get ( $i* ) . map ( | $n:id | $e* )', 'match self.nodes.get($i) { Some($n) => Some($e), None => None }', '*')],
         ensures='(r is Some) == old(self).nodes@.contains_key(ind.k()), r is Some ==> *r->Some_0 == old(self).nodes@[ind.k()].data, final(self).nodes == old(self).nodes')
    u.fn(FO, 'Forest::set_node_at_index', ensures='final(self).nodes@ == old(self).nodes@.insert(ind.k(), node)')
    u.fn(FO, 'Forest::update_node_at_index', ret='r', ensures='''r is Ok <==> old(self).nodes@.contains_key(ind.k()), r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).nodes@ == old(self).nodes@.insert(ind.k(), final(self).nodes@[ind.k()]) && updated(old(self).nodes@[ind.k()], final(self).nodes@[ind.k()], updates)''')
    u.fn(FO, 'Forest::nodes', ret='r', rules=T, ensures='*r == self.nodes')
    u.add('}\nimpl StringFct {')
    u.fn(G, 'StringFct::string_fct_return_type', ret='r', ensures='r == sort_of(*self)')
    u.add('}\nimpl CallnodeData {')
    u.fn(C, 'CallnodeData::new', ret='r', rules=T, ensures='r.string_fct == sfc, r.string_lits_built_from == lits, r.used_to_build is None, r.built_from is None, r.used_with is None')
    u.fn(C, 'CallnodeData::get_string_fct_arg_pair', ret='r', ensures='r.k() == (self.string_fct, args_of(self.string_fct, in_order(self.string_lits_built_from@)))', rules=T + [
        ('desugar', 'let $e:id : Vec < _ > = self . $s:id . iter ( ) . cloned ( ) . collect ( ) ;', 'let $e = self.$s.vx_list();'), ('desugar', 'self . string_fct . get_args ( & $e:id [ .. ] )', 'vx_args(self.string_fct, &$e)')] )
    u.add('}\nimpl CallGraph {')
    COL = T + [('desugar', '$a:id . iter ( ) . cloned ( ) . collect :: < VSet < _ > > ( )', '$a.clone()', '*')]
    u.fn(C, 'Default for CallGraph::default', ret='r', wrap=None, rules=[('type', 'HashMap :: new ( )', 'VMap::new()', '*'), ('type', 'BTreeSet :: new ( )', 'VSet::new()', '*')],
         ensures='r.wf(), r.nodes().dom() == Set::<usize>::empty(), r.partitions@.len() == 0, !r.propagated')
    u.fn(C, 'CallGraph::partitions', ret='r', rules=[('desugar', '& self . partitions [ .. ]', 'self.partitions.as_slice()')], ensures='r@ == self.partitions@')
#BEGIN
    PROP = '''final(self).wf(), final(self).g() == old(self).g(), sound(final(self).nodes()), later(old(self).nodes(), final(self).nodes(), direction), final(self).rest_same(old(self)), r is Ok <==> old(self).nodes().contains_key(var) && !(direction is UsedWith),
        r matches Ok(x) ==> exact(old(self).g(), direction, var, x.0) && fld(final(self).nodes()[var].data, direction) is Some'''
    def loop(find, inv, head='', tail='', each=''):
        """`for $a in X { $b }` with its invariant"""
        return ('desugar', 'for $a:id in %s { $b* }' % find[0], """let vx_l = %s; let mut vx_i: usize = 0; «%s»
while vx_i < vx_l.len() «invariant vx_i <= vx_l@.len(), %s decreases vx_l@.len() - vx_i,»
{ let $a = %svx_l[vx_i]; «%s» $b «%s» vx_i += 1; }""" % (find[1], head, inv, find[2] if len(find) > 2 else '', each, tail))
    u.fn(C, 'CallGraph::add_call', ret='r', requires='old(self).wf()', ensures="""r == old(self).nodes().dom().len(), !old(self).nodes().contains_key(r), final(self).nodes() == old(self).nodes().insert(r, final(self).nodes()[r]), final(self).nodes()[r].data == cnd,
        final(self).g() == old(self).g().insert(r, blank(r, cnd)), final(self).symbol_map@ == old(self).symbol_map@.insert(varname.k(), r), final(self).wf(), """ + same('constraint_vars', 'partitions', 'propagated'),
        rules=[('ghost', 'self . forest . new_node ( $x* ) ; $r:id', 'self.forest.new_node($x); «proof { assert(self.g() =~= old(self).g().insert(id, blank(id, cnd))); assert(self.nodes().dom() =~= old(self).nodes().dom().insert(id)); }» $r')])
    u.fn(C, 'CallGraph::add_constraint_var', ret='r', requires='old(self).wf()', ensures="""r == old(self).nodes().dom().len(), final(self).nodes() == old(self).nodes().insert(r, final(self).nodes()[r]), final(self).nodes()[r].data == cnd,
        final(self).g() == old(self).g().insert(r, blank(r, cnd)), final(self).symbol_map@ == old(self).symbol_map@.insert(varname.k(), r), final(self).constraint_vars@ == old(self).constraint_vars@.insert(r), final(self).wf(), """ + same('partitions', 'propagated'))
    PARTS = 'forall|x: usize| #[trigger] all_part_nodes@.contains(x) <==> exists|i: int| 0 <= i < %s && (#[trigger] vx_l@[i]).vars@.contains(var_id) && vx_l@[i].vars@.contains(x)'
    u.fn(C, 'CallGraph::get_all_partitions', ret='r', rules=COL + [loop(('& self . partitions', '&self.partitions', '&'), 'vx_l@ == self.partitions@, ' + PARTS % 'vx_i' + ',', each='let ghost vx_o = all_part_nodes@;',
          tail='proof { assert ' + PARTS % 'vx_i + 1' + ' by { if vx_l@[vx_i as int].vars@.contains(var_id) && vx_l@[vx_i as int].vars@.contains(x) { assert(all_part_nodes@.contains(x)); } if vx_o.contains(x) { let i = choose|i: int| 0 <= i < vx_i && (#[trigger] vx_l@[i]).vars@.contains(var_id) && vx_l@[i].vars@.contains(x); assert(i < vx_i + 1); } } }'),
        ('desugar', '$a:id . extend ( $p:id . vars . iter ( ) . cloned ( ) )', '$a.vx_extend(&$p.vars)', '*'),
        ('ghost', 'if ! $a:id . is_empty ( ) { Ok ( $b:id ) }', '«proof { if inside(self.partitions@, var_id) { assert($a@.contains(var_id)); } assert($a@ =~= Set::<usize>::empty() <==> forall|x: usize| !$a@.contains(x)); }» if !$a.is_empty() { Ok($b) }')],
        ensures='r is Ok <==> inside(self.partitions@, var_id), r matches Ok(s) ==> forall|x: usize| #[trigger] s@.contains(x) <==> exists|i: int| 0 <= i < self.partitions@.len() && (#[trigger] self.partitions@[i]).vars@.contains(var_id) && self.partitions@[i].vars@.contains(x)')
    u.fn(C, 'CallGraph::get_data_for_ind', ret='r', ensures='r is Ok <==> self.nodes().contains_key(*var), r matches Ok(d) ==> *d == self.nodes()[*var].data')
    u.fn(C, 'CallGraph::get_data_for_var', ret='r', requires='self.wf()', ensures='r is Ok <==> self.symbol_map@.contains_key(var.k()), r matches Ok(d) ==> *d == self.nodes()[self.symbol_map@[var.k()]].data')
    u.fn(C, 'CallGraph::get_id_for_sym', ret='r', ensures='r is Some <==> self.symbol_map@.contains_key(sym.k()), r matches Some(i) ==> *i == self.symbol_map@[sym.k()]')
    u.fn(C, 'CallGraph::get_sym_for_id', ret='r', ensures='r is Some <==> self.named(var_id), r matches Some(s) ==> self.symbol_map@.contains_key(s.k()) && self.symbol_map@[s.k()] == var_id', rules=[
        ('desugar', 'self . symbol_map . iter ( ) . find_map ( | ( $s:id , & $i:id ) | $e* )', """let vx_l = self.symbol_map.vx_list(); let mut vx_i: usize = 0;
while vx_i < vx_l.len() «invariant vx_i <= vx_l@.len(), entries(vx_l@, self.symbol_map@), forall|k: int| 0 <= k < vx_i ==> *(#[trigger] vx_l@[k]).1 != var_id, decreases vx_l@.len() - vx_i,»
{ let ($s, vx_p) = vx_l[vx_i]; let $i = *vx_p; let vx_r = $e; if vx_r.is_some() { return vx_r; } vx_i += 1; }
«proof { if self.named(var_id) { let t = choose|t: Text| self.symbol_map@.contains_key(t) && #[trigger] self.symbol_map@[t] == var_id; let k = choose|k: int| 0 <= k < vx_l@.len() && (#[trigger] vx_l@[k]).0.k() == t; assert(*vx_l@[k].1 == var_id); } }» None""")])
    u.fn(C, 'CallGraph::add_parent_child', ret='r', requires='old(self).wf()', ensures="""r is Ok <==> old(self).symbol_map@.contains_key(parent_var.k()) && old(self).symbol_map@.contains_key(child_var.k()), r is Err ==> *final(self) == *old(self),
        final(self).wf(), final(self).rest_same(old(self)), datas(old(self).nodes(), final(self).nodes()), r is Ok ==> final(self).g() == with_link(old(self).g(), old(self).symbol_map@[parent_var.k()], old(self).symbol_map@[child_var.k()])""", rules=[
        ('ghost', 'Ok ( ( ) )', '«proof { let (p, c) = (old(self).symbol_map@[parent_var.k()], old(self).symbol_map@[child_var.k()]); assert(self.g() =~= with_link(old(self).g(), p, c)); assert(self.nodes().dom() =~= old(self).nodes().dom()); }» Ok(())')])
    u.fn(C, 'CallGraph::add_direct_siblings', ret='r', requires='old(self).wf()', ensures="""r is Ok <==> forall|t: Text| #[trigger] siblings@.contains(t) ==> old(self).symbol_map@.contains_key(t), r is Err ==> *final(self) == *old(self),
        r is Ok ==> sibs_added(old(self).nodes(), final(self).nodes(), old(self).symbol_map@, siblings@, sib_strings@), final(self).wf(), final(self).rest_same(old(self))""", rules=T + [
        loop(('& siblings', 'siblings.vx_list()'), '''members(vx_l@, siblings@), old(self).wf(), *self == *old(self), forall|k: int| 0 <= k < vx_i ==> self.symbol_map@.contains_key((#[trigger] vx_l@[k]).k()),
            forall|n: usize| #[trigger] sib_ids@.contains(n) <==> exists|k: int| 0 <= k < vx_i && self.symbol_map@[(#[trigger] vx_l@[k]).k()] == n,''', each='let ghost vx_o = sib_ids@;',
            tail='proof { assert forall|n: usize| #[trigger] sib_ids@.contains(n) <==> exists|k: int| 0 <= k < vx_i + 1 && self.symbol_map@[(#[trigger] vx_l@[k]).k()] == n by { if sib_ids@.contains(n) && vx_o.contains(n) { let k = choose|k: int| 0 <= k < vx_i && self.symbol_map@[(#[trigger] vx_l@[k]).k()] == n; assert(k < vx_i + 1); } if sib_ids@.contains(n) && !vx_o.contains(n) { assert(self.symbol_map@[vx_l@[vx_i as int].k()] == n); } } }'),
        ('desugar', '. extend ( sib_strings . iter ( ) . cloned ( ) )', '. vx_extend(&sib_strings)', '*'),
        ('desugar', '$a:id . string_fct == StringFct :: NO_OP', 'matches!($a.string_fct, StringFct::NO_OP)', '*'),
        ('desugar', 'for $a:id in & $s:id { let $d:id = self . get_data_for_ind ( $x* ) ? ; $b* }', """let vx_m = $s.vx_list(); let mut vx_j: usize = 0; «let ghost vx_s = $s@; proof { vx_names(self.symbol_map@, siblings@, vx_s, vx_l@); assert forall|n: usize| vx_s.contains(n) implies self.nodes().contains_key(n) by { let k = choose|k: int| 0 <= k < vx_l@.len() && self.symbol_map@[(#[trigger] vx_l@[k]).k()] == n; assert(self.symbol_map@.contains_key(vx_l@[k].k())); } }»
while vx_j < vx_m.len() «invariant vx_j <= vx_m@.len(), members(vx_m@, vx_s), $s@ == vx_s, forall|n: usize| vx_s.contains(n) ==> old(self).nodes().contains_key(n), self.rest_same(old(self)), sibs_done(old(self).nodes(), self.nodes(), vx_s, |n: usize| among(vx_m@, vx_j as int, n), sib_strings@), decreases vx_m@.len() - vx_j,»
{ let $a = vx_m[vx_j]; «let ghost vx_n = self.nodes(); proof { assert(vx_s.contains(vx_m@[vx_j as int].k())); assert(old(self).nodes().contains_key(*$a)); }» let $d = self.get_data_for_ind($x)?; $b
  «proof { vx_sib_step(old(self).nodes(), vx_n, self.nodes(), vx_s, vx_m@, vx_j as int, sib_strings@); }» vx_j += 1; }
«proof { assert forall|n: usize| among(vx_m@, vx_m@.len() as int, n) <==> #[trigger] vx_s.contains(n) by { if vx_s.contains(n) { let k = choose|k: int| 0 <= k < vx_m@.len() && (#[trigger] vx_m@[k]).k() == n; } if among(vx_m@, vx_m@.len() as int, n) { let k = choose|k: int| 0 <= k < vx_m@.len() && *#[trigger] vx_m@[k] == n; assert(vx_s.contains(vx_m@[k].k())); } }
  assert(sibs_done(old(self).nodes(), self.nodes(), vx_s, |n: usize| vx_s.contains(n), sib_strings@)); vx_sib_wf(old(self).nodes(), self.nodes(), vx_s, sib_strings@); }»"""),
        ('desugar', '$s:id . clone ( )', '$s.clone()', '*')])
    u.fn(C, 'CallGraph::get_constraint_vars_in_partition_with', ret='r', requires='self.wf(), forall|n: usize| #[trigger] self.constraint_vars@.contains(n) ==> self.named(n)', rules=[
        ('desugar', 'self . constraint_vars . intersection ( $a* )', 'self.constraint_vars.vx_both($a)'),
        ('desugar', '$v:id . map ( | $i:id | $e* ) . collect :: < Vec < _ > > ( )', '$v.vx_map(|$i: &usize| -> (q: ISymbol) «requires self.named(*$i), ensures self.symbol_map@.contains_key(q.k()) && self.symbol_map@[q.k()] == *$i,» { $e })'),
        ('desugar', 'Ok ( $e* )', """«proof { assert forall|k: int| 0 <= k < constraint_var_ids.v@.len() implies self.named(*#[trigger] constraint_var_ids.v@[k]) by { assert(self.constraint_vars@.intersect(all_partition@).contains(constraint_var_ids.v@[k].k())); } } let ghost vx_c = constraint_var_ids.v@; let ghost vx_m = self.symbol_map@;» let vx_r = $e; «proof {
            assert forall|n: usize| #[trigger] self.constraint_vars@.contains(n) && together(self.partitions@, *var_id, n) implies listed(vx_m, vx_r@, n) by { assert(all_partition@.contains(n)); assert(self.constraint_vars@.intersect(all_partition@).contains(n)); let k = choose|k: int| 0 <= k < vx_c.len() && (#[trigger] vx_c[k]).k() == n; assert(vx_m[vx_r@[k].k()] == n); }
            assert forall|i: int| 0 <= i < vx_r@.len() implies self.symbol_map@.contains_key((#[trigger] vx_r@[i]).k()) && self.constraint_vars@.contains(vx_m[vx_r@[i].k()]) && together(self.partitions@, *var_id, vx_m[vx_r@[i].k()]) by { assert(self.constraint_vars@.intersect(all_partition@).contains(vx_c[i].k())); } }» Ok(vx_r)""")],
        ensures="""r is Ok <==> self.symbol_map@.contains_key(varname.k()) && inside(self.partitions@, self.symbol_map@[varname.k()]),
        r matches Ok(v) ==> forall|i: int| 0 <= i < v@.len() ==> self.symbol_map@.contains_key((#[trigger] v@[i]).k()) && self.constraint_vars@.contains(self.symbol_map@[v@[i].k()]) && together(self.partitions@, self.symbol_map@[varname.k()], self.symbol_map@[v@[i].k()]),
        r matches Ok(v) ==> forall|n: usize| #[trigger] self.constraint_vars@.contains(n) && together(self.partitions@, self.symbol_map@[varname.k()], n) ==> listed(self.symbol_map@, v@, n)""")
    u.fn(C, 'CallGraph::update_node_with_contribs', ret='r', ensures="""r is Ok <==> old(self).nodes().contains_key(var), r is Err ==> *final(self) == *old(self), final(self).rest_same(old(self)),
        r is Ok ==> final(self).nodes() == old(self).nodes().insert(var, Node { data: with_fld(new_node_data, direction, new_nodeset_data), ..old(self).nodes()[var] })""")
    u.add('#[verifier::spinoff_prover]')
    u.fn(C, 'CallGraph::propagate_along_path', ret='r', requires='old(self).wf(), acyclic(old(self).g()), sound(old(self).nodes())', ensures=PROP + ' decreases rk(old(self).g(), direction, var), 1nat', pre='proof { lemma_gv(self.nodes()); }', rules=COL)
    u.add('#[verifier::spinoff_prover]')
    EXT = [('desugar', '$a:id . extend ( $p:id . vars . iter ( ) . cloned ( ) )', '$a.vx_extend(&$p.vars)', '*')]
    INV = '''self.wf(), acyclic(g), g == old(self).g(), g.contains_key(var), sound(self.nodes()), self.rest_same(old(self)), later(old(self).nodes(), self.nodes(), direction), *cur_data == old(self).nodes()[var].data, !(direction is UsedWith),
        members(vx_l@, rel(g, direction, var)), partly(g, direction, var, vx_l@, vx_i as int, contrib_vars@, contrib_string_fcts@, contrib_string_lits@),'''
    u.fn(C, 'CallGraph::propagate_through_relnodes', ret='r', requires='old(self).wf(), acyclic(old(self).g()), sound(old(self).nodes()), old(self).nodes().contains_key(var), rel_nodes@ == rel(old(self).g(), direction, var), *cur_data == old(self).nodes()[var].data, !(direction is UsedWith)',
        ensures=PROP + ' decreases rk(old(self).g(), direction, var), 0nat', pre='let ghost g = self.g(); proof { lemma_gv(self.nodes()); if rel(g, direction, var).contains(var) { lemma_link(g, direction, var, var); } }', rules=COL + EXT + [
        ('desugar', 'cur_data . string_lits_built_from . iter ( ) . cloned ( ) . collect :: < VSet < _ > > ( )', 'cur_data.string_lits_built_from.clone()', '*'),
        loop(('rel_nodes', 'rel_nodes.vx_list()', '*'), INV, each='let ghost (vx_v, vx_f, vx_t) = (contrib_vars@, contrib_string_fcts@, contrib_string_lits@); let ghost vx_n = *vx_l@[vx_i as int]; proof { assert(rel(g, direction, var).contains(vx_l@[vx_i as int].k())); lemma_link(g, direction, var, vx_n); lemma_gv(self.nodes()); }',
             tail='proof { lemma_more(g, direction, var, vx_l@, vx_i as int, vx_v, vx_f, vx_t, contrib_vars@, contrib_string_fcts@, contrib_string_lits@); }'),
        ('ghost', 'let $c:id = * $n:id . ind ( ) ;', 'let $c = *$n.ind(); «proof { assert($c == vx_n); }»'),
        ('ghost', 'contrib_vars . vx_extend ( $x* ) ;', 'contrib_vars.vx_extend($x); «proof { assert(vx_v.contains(var) ==> part_vars(g, direction, var, vx_l@, vx_i as int, var)); vx_self(g, direction, var, vx_n, vx_l@, vx_i as int); }»'),
        ('ghost', 'self . update_node_with_contribs ( $x* ) ? ;', '«let ghost vx_b = self.nodes(); proof { lemma_partly(g, direction, var, vx_l@, new_nodeset_data); lemma_stored(vx_b, var, direction, new_nodeset_data); lemma_gv(vx_b); }» self.update_node_with_contribs($x)?; «proof { assert(self.nodes() =~= stored(vx_b, var, direction, new_nodeset_data)); }»'),
        ])
    J = "joined(self.partitions@, vx_i %s, var, to_ret)"
    u.fn(C, 'CallGraph::get_contribs_for_var', ret='r', ensures='r is Some <==> inside(self.partitions@, var), r matches Some(s) ==> joined(self.partitions@, self.partitions@.len() as int, var, s)', rules=[
        ('desugar', 'NodeSetData :: default ( )', 'NodeSetData { vars: VSet::new(), string_fcts: VSet::new(), string_lits: VSet::new() }', '*'),
        loop(('& self . partitions', '&self.partitions', '&'), 'vx_l@ == self.partitions@, joined(vx_l@, vx_i as int, var, to_ret),', each='let ghost vx_o = to_ret;', tail='proof { lemma_joined(vx_l@, vx_i as int, var, vx_o, to_ret); }'),
        ('ghost', 'if ! to_ret . vars . is_empty ( ) { $b* }', '«proof { if inside(self.partitions@, var) { assert(to_ret.vars@.contains(var)); } assert(to_ret.vars@ =~= Set::<usize>::empty() <==> forall|x: usize| !to_ret.vars@.contains(x)); }» if !to_ret.vars.is_empty() { $b }')])
    u.add('#[verifier::spinoff_prover]')
    u.fn(C, 'CallGraph::propagate_constraint_var_cliques', ret='r', requires='old(self).wf(), sound(old(self).nodes()), old(self).up_down()', ensures='*final(self) == *old(self), r is Ok, r matches Ok(m) ==> all_cliques(old(self).g(), old(self).constraint_vars@, m@)', pre='let ghost g = self.g(); proof { lemma_gv(self.nodes()); }', rules=T + EXT + [
        ('desugar', 'cvar_utbs . $f:id . iter ( ) . cloned ( ) . collect :: < VSet < _ > > ( )', 'cvar_utbs.$f.clone()', '*'),
        ('desugar', '$a:id . extend ( $p:id . $f:id . iter ( ) . cloned ( ) )', '$a.vx_extend(&$p.$f)', '*'),
        ('desugar', 'let $l:id = $n:id . iter ( ) . filter ( | ( _ , $v:id ) | $c* ) ;', """let vx_es = $n.vx_list(); let mut $l: Vec<(&usize, &Node<usize, CallnodeData>)> = Vec::new(); let mut vx_i: usize = 0;
while vx_i < vx_es.len() «invariant vx_i <= vx_es@.len(), entries(vx_es@, self.nodes()), picked(vx_es@, vx_i as int, $l@), decreases vx_es@.len() - vx_i,»
{ let $v = vx_es[vx_i].1; «let ghost vx_o = $l@;» if $c { $l.push(vx_es[vx_i]); } «proof { vx_pick(vx_es@, vx_i as int, vx_o, $l@); }» vx_i += 1; }
«proof { vx_leaves(self.nodes(), vx_es@, $l@); }»"""),
        ('desugar', '$s:id . extend ( $l:id . map ( | ( $i:id , _ ) | $e* ) ) ;', """let mut vx_j: usize = 0; «let ghost vx_c = $s@;»
while vx_j < $l.len() «invariant vx_j <= $l@.len(), forall|n: usize| #[trigger] $s@.contains(n) <==> vx_c.contains(n) || first($l@, vx_j as int, n), decreases $l@.len() - vx_j,»
{ let $i = $l[vx_j].0; «let ghost vx_o = $s@;» $s.insert($e); «proof { assert forall|n: usize| #[trigger] $s@.contains(n) <==> vx_c.contains(n) || first($l@, vx_j + 1, n) by { if first($l@, vx_j as int, n) { let k = choose|k: int| 0 <= k < vx_j && *(#[trigger] $l@[k]).0 == n; assert(k < vx_j + 1); } if n == *$l@[vx_j as int].0 { assert(first($l@, vx_j + 1, n)); } else if first($l@, vx_j + 1, n) { let k = choose|k: int| 0 <= k < vx_j + 1 && *(#[trigger] $l@[k]).0 == n; assert(k < vx_j); assert(first($l@, vx_j as int, n)); assert(vx_o.contains(n)); } } }» vx_j += 1; }
«proof { assert forall|n: usize| #[trigger] $s@.contains(n) <==> base(g, self.constraint_vars@, n) by { if self.nodes().contains_key(n) { assert(g[n] == nv(self.nodes()[n])); } } }»"""),
        ('desugar', 'for $a:id in & $s:id { $b* }', """let vx_cl = $s.vx_list(); let mut vx_k: usize = 0; «let ghost vx_bs = $s@;»
while vx_k < vx_cl.len() «invariant vx_k <= vx_cl@.len(), members(vx_cl@, vx_bs), *self == *old(self), g == self.g(), g.dom() == self.nodes().dom(), self.wf(), sound(self.nodes()), self.up_down(), forall|n: usize| #[trigger] vx_bs.contains(n) <==> base(g, self.constraint_vars@, n),
    forall|n: usize| #[trigger] constraint_cliques@.contains_key(n) <==> among(vx_cl@, vx_k as int, n), forall|n: usize| #[trigger] constraint_cliques@.contains_key(n) ==> clique(g, n, constraint_cliques@[n]), decreases vx_cl@.len() - vx_k,»
{ let $a = vx_cl[vx_k]; «let ghost vx_m = constraint_cliques@; proof { assert(vx_bs.contains(vx_cl@[vx_k as int].k())); lemma_gv(self.nodes()); assert(sound_at(g, self.nodes()[*$a].data, *$a)); }» $b
  «proof { assert(constraint_cliques@ == vx_m.insert(*$a, constraint_cliques@[*$a])); assert forall|n: usize| #[trigger] constraint_cliques@.contains_key(n) <==> among(vx_cl@, vx_k + 1, n) by { vx_among(vx_cl@, vx_k as int, n); } }» vx_k += 1; }
«proof { assert forall|n: usize| #[trigger] constraint_cliques@.contains_key(n) <==> base(g, old(self).constraint_vars@, n) by { if vx_bs.contains(n) { let k = choose|k: int| 0 <= k < vx_cl@.len() && (#[trigger] vx_cl@[k]).k() == n; assert(*vx_cl@[k] == n); } if among(vx_cl@, vx_cl@.len() as int, n) { let k = choose|k: int| 0 <= k < vx_cl@.len() && *#[trigger] vx_cl@[k] == n; assert(vx_bs.contains(vx_cl@[k].k())); } } }»"""),
        ('desugar', 'constraint_cliques . insert ( $k* , NodeSetData { $f* } , ) ;', 'let vx_set = NodeSetData { $f }; «proof { lemma_clique(g, *cvar, vx_ul@, vx_set); }» constraint_cliques.insert($k, vx_set);'),
        ('desugar', 'for $a:id in & cvar_utbs . vars { $b* }', """let vx_ul = cvar_utbs.vars.vx_list(); let mut vx_u: usize = 0;
while vx_u < vx_ul.len() «invariant vx_u <= vx_ul@.len(), members(vx_ul@, cvar_utbs.vars@), g == self.g(), g.dom() == self.nodes().dom(), g.contains_key(*cvar), self.wf(), sound(self.nodes()), self.up_down(), exact(g, updir(), *cvar, *cvar_utbs), clique_to(g, *cvar, vx_ul@, vx_u as int, clique_vars@, clique_string_fcts@, clique_string_lits@), *self == *old(self), decreases vx_ul@.len() - vx_u,»
{ let $a = vx_ul[vx_u]; «proof { assert(cvar_utbs.vars@.contains(vx_ul@[vx_u as int].k())); lemma_ends(g, updir(), *cvar, *$a); lemma_gv(self.nodes()); assert(sound_at(g, self.nodes()[*$a].data, *$a)); } let ghost (vx_v, vx_f, vx_t) = (clique_vars@, clique_string_fcts@, clique_string_lits@);» $b «proof { lemma_clique_more(g, *cvar, vx_ul@, vx_u as int, vx_v, vx_f, vx_t, clique_vars@, clique_string_fcts@, clique_string_lits@); }» vx_u += 1; }
«proof { assert forall|u: usize| #[trigger] reach(g, updir(), *cvar, u) implies among(vx_ul@, vx_ul@.len() as int, u) by { assert(cvar_utbs.vars@.contains(u)); let k = choose|k: int| 0 <= k < vx_ul@.len() && (#[trigger] vx_ul@[k]).k() == u; assert(*vx_ul@[k] == u); } assert forall|k: int| 0 <= k < vx_ul@.len() implies reach(g, updir(), *cvar, *#[trigger] vx_ul@[k]) by { assert(cvar_utbs.vars@.contains(vx_ul@[k].k())); } }»"""),
        ])
    USED = '''final(self).wf(), final(self).g() == old(self).g(), sound(final(self).nodes()), later(old(self).nodes(), final(self).nodes(), GraphTraversalDir::UsedWith), used_sound(final(self).nodes(), final(self).partitions@), all_parts(final(self).g(), final(self).constraint_vars@, final(self).partitions@), final(self).symbol_map == old(self).symbol_map, final(self).constraint_vars == old(self).constraint_vars, final(self).propagated == old(self).propagated,
        forall|n: usize| #[trigger] inside(old(self).partitions@, n) ==> inside(final(self).partitions@, n), r is Ok <==> old(self).nodes().contains_key(var), only_at(old(self).nodes(), final(self).nodes(), var), r is Ok ==> final(self).nodes()[var].data.used_with is Some && inside(final(self).partitions@, var)'''
    u.add('#[verifier::spinoff_prover]')
    u.fn(C, 'CallGraph::propagate_used_with', ret='r', requires='old(self).wf(), sound(old(self).nodes()), used_sound(old(self).nodes(), old(self).partitions@), all_parts(old(self).g(), old(self).constraint_vars@, old(self).partitions@), all_cliques(old(self).g(), old(self).constraint_vars@, cliques@)', ensures=USED,
        pre='let ghost g = self.g(); let ghost vx_ps = self.partitions@; let ghost vx_b = self.nodes(); proof { lemma_gv(self.nodes()); if vx_b.contains_key(var) && vx_b[var].data.used_with is Some { assert(used_in(vx_ps, var, vx_b[var].data.used_with->Some_0)); } }', rules=T + [
        ('desugar', 'let mut $c:id : Vec < & NodeId > = $m:id . keys ( ) . collect :: < Vec < _ > > ( ) ; $c2:id . sort ( ) ;', 'let mut $c = $m.vx_keys(); vx_sort(&mut $c);'),
        ('desugar', '& cliques [ $c:id ]', 'cliques.vx_at($c)', '*'),
        ('desugar', '$a:id . extend ( $p:id . $f:id . iter ( ) . cloned ( ) )', '$a.vx_extend(&$p.$f)', '*'),
        ('desugar', 'for $a:id in $s:id { $b* }', """let vx_cl = $s; let mut vx_k: usize = 0; «proof { assert(members(vx_cl@, cliques@.dom())); }»
while vx_k < vx_cl.len() «invariant vx_k <= vx_cl@.len(), members(vx_cl@, cliques@.dom()), all_cliques(g, self.constraint_vars@, cliques@), *self == *old(self), g == self.g(), g.dom() == self.nodes().dom(), g.contains_key(var), some_cliques(g, var, vx_cl@, vx_k as int, contrib_vars@, contrib_string_fcts@, contrib_string_lits@), decreases vx_cl@.len() - vx_k,»
{ let $a = vx_cl[vx_k]; «let ghost (vx_v, vx_f, vx_t) = (contrib_vars@, contrib_string_fcts@, contrib_string_lits@); proof { assert(cliques@.dom().contains(vx_cl@[vx_k as int].k())); assert(cliques@.contains_key(*$a)); }» $b
  «proof { lemma_some_more(g, var, vx_cl@, vx_k as int, vx_v, vx_f, vx_t, contrib_vars@, contrib_string_fcts@, contrib_string_lits@); }» vx_k += 1; }
«proof { assert forall|i: int| 0 <= i < vx_cl@.len() implies base(g, self.constraint_vars@, *#[trigger] vx_cl@[i]) by { assert(cliques@.dom().contains(vx_cl@[i].k())); assert(cliques@.contains_key(*vx_cl@[i])); } assert forall|b: usize| #[trigger] base(g, self.constraint_vars@, b) implies exists|i: int| 0 <= i < vx_cl@.len() && (#[trigger] vx_cl@[i]).k() == b by { assert(cliques@.contains_key(b)); assert(cliques@.dom().contains(b)); } }»"""),
        ('ghost', 'return Ok ( ( contrib , AffectOk :: AlreadyDone ) ) ;', '«proof { vx_used_joined(vx_ps, var, contrib); assert(self.nodes() =~= stored(vx_b, var, GraphTraversalDir::UsedWith, contrib)); lemma_stored(vx_b, var, GraphTraversalDir::UsedWith, contrib); }» return Ok((contrib, AffectOk::AlreadyDone));'),
        ('ghost', 'self . partitions . push ( $x* ) ;', """self.partitions.push($x); «proof { let s = new_nodeset_data; let cv = self.constraint_vars@; lemma_some_cliques(g, cv, var, vx_cl@, s); assert(self.nodes() =~= stored(vx_b, var, GraphTraversalDir::UsedWith, s)); lemma_stored(vx_b, var, GraphTraversalDir::UsedWith, s);
            let q = self.partitions@; assert(q =~= vx_ps.push(s)); lemma_used_more(vx_ps, s, vx_b); assert(part(g, cv, var, s)); assert(s.vars@.contains(var)); assert(q[vx_ps.len() as int] == s); vx_used_own(q, vx_ps.len() as int, var, s);
            assert forall|n: usize| #[trigger] inside(vx_ps, n) implies inside(q, n) by { let i = choose|i: int| 0 <= i < vx_ps.len() && (#[trigger] vx_ps[i]).vars@.contains(n); assert(q[i].vars@.contains(n)); }
            assert forall|i: int| 0 <= i < q.len() implies is_part(g, cv, #[trigger] q[i]) by { if i < vx_ps.len() { assert(q[i] == vx_ps[i]); } } }»"""),
        ])
    HIDE = ' '.join('hide(%s);' % x for x in 'CallGraph::wf CallGraph::up_down CallGraph::done linked acyclic sound used_sound used_inside all_parts all_cliques entries later exact typed covered halves rests half rest inside always only_at'.split())
    u.add('#[verifier::spinoff_prover]')
    u.fn(C, 'CallGraph::propagate_all', ret='r', requires='old(self).wf(), acyclic(old(self).g()), sound(old(self).nodes()), used_sound(old(self).nodes(), old(self).partitions@), all_parts(old(self).g(), old(self).constraint_vars@, old(self).partitions@), used_inside(old(self).nodes(), old(self).partitions@), old(self).propagated ==> old(self).done()',
        ensures='r is Ok, final(self).wf(), final(self).g() == old(self).g(), final(self).done(), final(self).propagated', pre=HIDE + ' let ghost vx_0 = *self;', rules=T + [
        ('desugar', 'for ( $k:id , _node ) in nodes . iter ( ) { $b* } let $c:id = $d* ; for ( $k2:id , _node ) in nodes . iter ( ) { $b2* }', """let vx_l = nodes.vx_list(); let mut vx_i: usize = 0; «proof { lemma_always_start(vx_0, vx_l@); }»
while vx_i < vx_l.len() «invariant vx_i <= vx_l@.len(), always(vx_0, *self, vx_l@), halves(*self, vx_l@, vx_i as int), self.g() == vx_0.g(), decreases vx_l@.len() - vx_i,»
{ let $k = vx_l[vx_i].0; «proof { lemma_always_at(vx_0, *self, vx_l@, vx_i as int); } let ghost mut vx_b = *self;» $b «proof { lemma_always_half(*self, vx_l@, vx_i as int); }» vx_i += 1; }
«proof { lemma_always_up_down(vx_0, *self, vx_l@); lemma_always_all(vx_0, *self, vx_l@); }»
let $c = $d; let mut vx_j: usize = 0;
while vx_j < vx_l.len() «invariant vx_j <= vx_l@.len(), always(vx_0, *self, vx_l@), self.up_down(), self.g() == vx_0.g(), self.constraint_vars == vx_0.constraint_vars, all_cliques(self.g(), self.constraint_vars@, $c@), rests(*self, vx_l@, vx_j as int), decreases vx_l@.len() - vx_j,»
{ let $k2 = vx_l[vx_j].0; «proof { lemma_always_at(vx_0, *self, vx_l@, vx_j as int); } let ghost vx_a = *self;» $b2 «proof { lemma_always_with(vx_0, vx_a, *self, vx_l@, vx_j as int); }» vx_j += 1; }
«proof { lemma_always_done(vx_0, *self, vx_l@); lemma_always_all(vx_0, *self, vx_l@); }»"""),
        ('ghost', 'self . propagate_along_path ( * $k:id , $d* ) ? ;', 'self.propagate_along_path(*$k, $d)?; «proof { lemma_always_along(vx_0, vx_b, *self, vx_l@, vx_i as int, $d); lemma_always_at(vx_0, *self, vx_l@, vx_i as int); vx_b = *self; }»', '*'),
        ('ghost', 'self . propagated = true ;', '«let ghost vx_d = *self;» self.propagated = true; «proof { lemma_flag(vx_d, *self); }»'),
        ])
    u.add('}')
