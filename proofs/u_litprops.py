"""The requirements of every literal (T01): what the functions of its partitions need, nothing lost when partitions share literals."""
from tr_common import *
import u_fct
F, C = TR + 'transpiler.rs', TR + 'callgraph.rs'
SPEC = r'''
pub type NodeId = usize;
#[verifier::external_body]
pub struct Meta { x: () }
pub struct RangeParams { pub x: u8 }
/// the set of function applications of a partition, in some order
#[verifier::external_body]
pub struct FctSet { x: () }
impl FctSet { pub uninterp spec fn view(&self) -> Seq<(StringFct, StringFctArgs)>;
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<(StringFct, StringFctArgs)>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct NodeIds { x: () }
impl NodeIds { pub uninterp spec fn view(&self) -> Seq<NodeId>;
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<NodeId>) ensures r@ == self@ { unimplemented!() } }
/// the string variables whose characters count one by one
#[verifier::external_body]
pub struct CharLevel { x: () }
impl CharLevel { pub uninterp spec fn has(&self, v: NodeId) -> bool;
    #[verifier::external_body]
    pub fn vx_contains(&self, v: &NodeId) -> (b: bool) ensures b == self.has(*v) { unimplemented!() } }
/// assumed (standard library): a set of strings, by their characters
#[verifier::external_body]
pub struct StrSet { x: () }
impl StrSet { pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<String>) ensures forall|s: Seq<char>| #[trigger] self@.contains(s) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == s,
        forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, s: String) -> (b: bool) ensures final(self)@ == old(self)@.insert(s@) { unimplemented!() } }
/// assumed (standard library): a hash map from strings to requirements, by the characters of the strings
#[verifier::external_body]
pub struct PropMap { x: () }
pub type PM = Map<Seq<char>, StringSetProperties>;
impl PropMap { pub uninterp spec fn view(&self) -> PM;
    #[verifier::external_body]
    pub fn new() -> (r: PropMap) ensures r@ == Map::<Seq<char>, StringSetProperties>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, s: &String) -> (r: Option<&StringSetProperties>) ensures (r is Some) == self@.contains_key(s@), r is Some ==> *r->Some_0 == self@[s@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, s: String, p: StringSetProperties) ensures final(self)@ == old(self)@.insert(s@, p) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: PropMap) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    /// its entries, in some order
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<(&String, &StringSetProperties)>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && self@[r@[i].0@] == *r@[i].1 { unimplemented!() } }
impl StringSetProperties {
    /// assumed: a clone says the same
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: StringSetProperties) ensures r.req() == self.req() { unimplemented!() } }
impl StringFctArgs {
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: StringFctArgs) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_same(a: &StringFct, b: &StringFct) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// no assumption: any answer will do
#[verifier::external_body]
pub fn vx_ne(a: &String, b: &String) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_overlap<'a>(a: &'a String, b: &'a String) -> Option<&'a String> { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty(a: &String) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }
/// assumed: to_string of a character or a string
pub trait VxStr { spec fn cs(&self) -> Seq<char>; fn vx_str(&self) -> (r: String) ensures r@ == self.cs(); }
impl VxStr for char { open spec fn cs(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_str(&self) -> (r: String) { self.to_string() } }
impl VxStr for String { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_str(&self) -> (r: String) { self.to_string() } }
#[verifier::external_body]
pub fn vx_chars_of(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub open spec fn fcts(p: NodeSetData) -> Seq<(StringFct, StringFctArgs)> { p.string_fcts@ }
pub open spec fn uses(p: NodeSetData, f: StringFct) -> bool { exists|k: int| 0 <= k < fcts(p).len() && (#[trigger] fcts(p)[k]).0 == f }
/// a variable of the partition whose characters count one by one
pub open spec fn by_char(p: NodeSetData, vars: CharLevel) -> bool { exists|k: int| 0 <= k < p.vars@.len() && vars.has(#[trigger] p.vars@[k]) }
/// the requirements of the first n functions of a list
pub open spec fn asked(f: Seq<(StringFct, StringFctArgs)>, n: int, r: Req) -> bool { forall|k: int| 0 <= k < n ==> weaker(needed((#[trigger] f[k]).0, f[k].1), r) }
/// the requirements of a partition
pub open spec fn wants(p: NodeSetData, vars: CharLevel, r: Req) -> bool {
    asked(fcts(p), fcts(p).len() as int, r) && (uses(p, StringFct::PrefixOf) && uses(p, StringFct::SuffixOf) ==> r.all || r.len) && (by_char(p, vars) ==> r.all || r.sub)
}
pub open spec fn grow(m: PM, w: PM) -> bool { forall|s: Seq<char>| #[trigger] m.contains_key(s) ==> w.contains_key(s) && weaker(m[s].req(), w[s].req()) }
/// every literal of the first n partitions asks for what its partition asks
pub open spec fn settled(ps: Seq<NodeSetData>, vars: CharLevel, n: int, m: PM) -> bool {
    forall|i: int, s: Seq<char>| 0 <= i < n && #[trigger] ps[i].string_lits@.contains(s) ==> m.contains_key(s) && wants(ps[i], vars, m[s].req())
}
pub open spec fn split_chars(ps: Seq<NodeSetData>, vars: CharLevel, n: int, t: Set<Seq<char>>) -> bool {
    forall|i: int, s: Seq<char>| 0 <= i < n && #[trigger] ps[i].string_lits@.contains(s) && by_char(ps[i], vars) ==> t.contains(s)
}
/// where characters count one by one, every character is a literal that asks for the same
pub open spec fn settled_chars(ps: Seq<NodeSetData>, vars: CharLevel, m: PM) -> bool {
    forall|i: int, s: Seq<char>, k: int| 0 <= i < ps.len() && #[trigger] ps[i].string_lits@.contains(s) && by_char(ps[i], vars) && 0 <= k < s.len() ==> m.contains_key(seq![#[trigger] s[k]]) && wants(ps[i], vars, m[seq![s[k]]].req())
}
/// every character of the first n strings of a list asks for what the string asked in m
pub open spec fn chars_done(l: Seq<String>, n: int, m: PM, w: PM) -> bool {
    forall|j: int, k: int| 0 <= j < n && 0 <= k < l[j]@.len() ==> w.contains_key(seq![#[trigger] l[j]@[k]]) && (m.contains_key(l[j]@) ==> weaker(m[l[j]@].req(), w[seq![l[j]@[k]]].req()))
}
pub proof fn lemma_trans(a: Req, b: Req, c: Req) requires weaker(a, b), weaker(b, c) ensures weaker(a, c) {}
pub proof fn lemma_up(p: NodeSetData, vars: CharLevel, a: Req, b: Req) requires wants(p, vars, a), weaker(a, b) ensures wants(p, vars, b)
{ assert forall|k: int| 0 <= k < fcts(p).len() implies weaker(needed((#[trigger] fcts(p)[k]).0, fcts(p)[k].1), b) by { lemma_trans(needed(fcts(p)[k].0, fcts(p)[k].1), a, b); } }
pub proof fn lemma_asked(f: Seq<(StringFct, StringFctArgs)>, n: int, a: Req, b: Req) requires asked(f, n, a), weaker(a, b) ensures asked(f, n, b)
{ assert forall|k: int| 0 <= k < n implies weaker(needed((#[trigger] f[k]).0, f[k].1), b) by { lemma_trans(needed(f[k].0, f[k].1), a, b); } }
pub proof fn lemma_grow(a: PM, b: PM, c: PM) requires grow(a, b), grow(b, c) ensures grow(a, c)
{ assert forall|s: Seq<char>| #[trigger] a.contains_key(s) implies c.contains_key(s) && weaker(a[s].req(), c[s].req()) by { assert(b.contains_key(s)); lemma_trans(a[s].req(), b[s].req(), c[s].req()); } }
pub proof fn lemma_settled(ps: Seq<NodeSetData>, vars: CharLevel, n: int, m: PM, w: PM) requires settled(ps, vars, n, m), grow(m, w) ensures settled(ps, vars, n, w)
{ assert forall|i: int, s: Seq<char>| 0 <= i < n && #[trigger] ps[i].string_lits@.contains(s) implies w.contains_key(s) && wants(ps[i], vars, w[s].req()) by { assert(m.contains_key(s)); lemma_up(ps[i], vars, m[s].req(), w[s].req()); } }
pub proof fn lemma_merge(a: StringSetProperties, b: StringSetProperties) ensures weaker(a.req(), both(a.req(), b.req())), weaker(b.req(), both(a.req(), b.req())), weaker(a.req(), a.req())
{ lemma_both(a.req(), b.req(), everything()); lemma_both(a.req(), a.req(), everything()); }
pub proof fn lemma_grow_insert(m: PM, w: PM, s: Seq<char>, p: StringSetProperties) requires grow(m, w), m.contains_key(s) ==> weaker(m[s].req(), p.req()) ensures grow(m, w.insert(s, p)) {}
'''
def build(u):
    u.add(HEAD)
    u_fct.types(u)
    u.add(PROPS_SPEC + u_fct.SPEC + SPEC)
    u.item(C, 'struct', 'NodeSetData', prefix='pub ', rules=[('type', 'BTreeSet < NodeId >', 'NodeIds'), ('type', 'BTreeSet < String >', 'StrSet'), ('type', 'HashSet < ( StringFct , StringFctArgs ) >', 'FctSet')])
    u.item(F, 'struct', 'CharMap', prefix='pub ', rules=[('type', 'HashMap < String , StringSetProperties >', 'PropMap'), ('type', 'HashMap < String , MappedStringMetaObj >', 'Meta'), ('type', 'HashSet < String >', 'StrSet')])
    u_fct.fns(u)
    CL = [('desugar', '$x:id . clone ( )', '$x.vx_clone()', '*'), ('desugar', '$x:id . to_string ( )', '$x.vx_str()', '*')]
    u.add('impl CharMap {')
    u.fn(F, 'CharMap::add_keep_substring_prefix_suffixes', ensures='''grow(old(self).string_lit_props@, final(self).string_lit_props@),
            *final(self) == (CharMap { string_lit_props: final(self).string_lit_props, ..*old(self) })''', rules=CL + [
        ('type', 'HashMap < String , StringSetProperties >', 'PropMap', '*'), ('desugar', 'HashMap :: new ( )', 'PropMap::new()', '*'),
        ('desugar', 'Self :: get_prefix_suffix ( $a:id , $b:id )', 'vx_overlap($a, $b)', '*'),
        ('desugar', '$a:id != $b:id', 'vx_ne($a, $b)', '*'), ('desugar', '$a:id . is_empty ( )', 'vx_empty($a)', '*'),
        ('desugar', 'if let Some ( $k:id ) = $s:id . get ( $n:id ) . or_else ( || self . string_lit_props . get ( $n2:id ) ) { $b }',
         '''let vx_known = match $s.get($n) { Some(vx_x) => Some(vx_x), None => self.string_lit_props.get($n2) };
            if let Some($k) = vx_known { «let ghost vx_r = rel_props.req(); proof { lemma_merge(rel_props, *$k); }» $b }'''),
        ('desugar', 'for ( $a:id , $p:id ) in & self . string_lit_props { if matches ! ( $p2:id , $pat ) { for ( $a2:id , $q:id ) in & self . string_lit_props { if $c { $b } } } }',
         '''«let ghost pm = self.string_lit_props@;» let vx_l = self.string_lit_props.vx_list(); let mut vx_i: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_i < vx_l.len()
                invariant vx_i <= vx_l@.len(), forall|s: Seq<char>| #[trigger] suffix_prefixes@.contains_key(s) && pm.contains_key(s) ==> weaker(pm[s].req(), suffix_prefixes@[s].req()),
                decreases vx_l@.len() - vx_i
            { let ($a, $p) = vx_l[vx_i]; if matches!($p2, $pat) {
                let vx_m = self.string_lit_props.vx_list(); let mut vx_j: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_j < vx_m.len()
                    invariant vx_j <= vx_m@.len(), forall|s: Seq<char>| #[trigger] suffix_prefixes@.contains_key(s) && pm.contains_key(s) ==> weaker(pm[s].req(), suffix_prefixes@[s].req()),
                    decreases vx_m@.len() - vx_j
                { let ($a2, $q) = vx_m[vx_j]; «let ghost vx_s0 = suffix_prefixes@;» if $c { $b } vx_j += 1; }
              } vx_i += 1; }'''),
        ])
    u.fn(F, 'CharMap::setup_string_lit_oriented_props', ensures='''settled(partitions@, *char_level_substring_vars, partitions@.len() as int, final(self).string_lit_props@),
            settled_chars(partitions@, *char_level_substring_vars, final(self).string_lit_props@),
            *final(self) == (CharMap { string_lit_props: final(self).string_lit_props, char_to_char_string_lits: final(self).char_to_char_string_lits, ..*old(self) })''', rules=CL + [
        ('type', 'HashSet < Option < & NodeId > >', 'CharLevel'),
        ('desugar', '$v:id . contains ( & Some ( $x:id ) )', '$v.vx_contains($x)', '*'),
        ('desugar', '$a:id |= $b:id == & $c:id :: $d:id ;', 'if vx_same($b, &$c::$d) { $a = true; }', '*'),
        ('desugar', 'for $x:id in & $p:id . vars { $b }', '''let vx_l = $p.vars.vx_list(); let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l.len()
                invariant vx_k <= vx_l@.len(), strings_char_level_substring == exists|k: int| 0 <= k < vx_k && vars.has(#[trigger] $p.vars@[k]),
                decreases vx_l@.len() - vx_k
            { let $x = &vx_l[vx_k]; $b vx_k += 1; }'''),
        ('desugar', 'let mut $r:id = $p:id . string_fcts . iter ( ) . fold ( $init , | mut $o:id , ( $f:id , $a:id ) | { $b $o2:id } , ) ; if $c { $b3 }',
         '''let mut $r: StringSetProperties = { let mut $o: StringSetProperties = $init; let vx_l = $p.string_fcts.vx_list(); let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l.len()
                invariant vx_k <= vx_l@.len(), asked(fcts(*$p), vx_k as int, $o.req()),
                    seen_prefix == exists|k: int| 0 <= k < vx_k && (#[trigger] fcts(*$p)[k]).0 == StringFct::PrefixOf, seen_suffix == exists|k: int| 0 <= k < vx_k && (#[trigger] fcts(*$p)[k]).0 == StringFct::SuffixOf,
                decreases vx_l@.len() - vx_k
            { let $f = &vx_l[vx_k].0; let $a = &vx_l[vx_k].1; «let ghost vx_o = $o; proof { assert(fcts(*$p)[vx_k as int] == (*$f, *$a)); }»
              $b «proof { assert(weaker(vx_o.req(), $o.req())); lemma_asked(fcts(*$p), vx_k as int, vx_o.req(), $o.req()); }» vx_k += 1; } $o2 };
            «let ghost vx_p1 = $r; proof { lemma_merge($r, $r); }»
            if $c { $b3 }
            «proof { lemma_both(vx_p1.req(), Req { len: true, ..none_required() }, everything()); assert(weaker(vx_p1.req(), $r.req())); lemma_asked(fcts(*$p), fcts(*$p).len() as int, vx_p1.req(), $r.req());
                assert(uses(*$p, StringFct::PrefixOf) == seen_prefix && uses(*$p, StringFct::SuffixOf) == seen_suffix); }»'''),
        ('desugar', '$o:id = $o2:id . update_with_truths ( $f:id . get_required_props ( $a:id . vx_clone ( ) ) ) ;',
         '''let vx_new = $f.get_required_props($a.vx_clone()); «proof { lemma_merge($o2, vx_new); lemma_trans(needed(*$f, *$a), vx_new.req(), both($o2.req(), vx_new.req())); }» $o = $o2.update_with_truths(vx_new);'''),
        ('ghost', 'if strings_char_level_substring { p_string_props = $e }', '''«let ghost vx_p2 = p_string_props; proof { lemma_merge(p_string_props, p_string_props); }» if strings_char_level_substring { p_string_props = $e }
            «proof { lemma_both(vx_p2.req(), Req { sub: true, ..none_required() }, everything()); assert(weaker(vx_p2.req(), p_string_props.req())); lemma_asked(fcts(*p), fcts(*p).len() as int, vx_p2.req(), p_string_props.req());
                assert(by_char(*p, vars) == strings_char_level_substring);
                assert(wants(*p, vars, p_string_props.req()));
                assert forall|s: Seq<char>| p.string_lits@.contains(s) && #[trigger] pm.contains_key(s) implies weaker(pm[s].req(), p_string_props.req()) by { lemma_trans(pm[s].req(), vx_p2.req(), p_string_props.req()); } }»'''),
        ('desugar', 'for $x:id in & $p:id . string_lits { if let Some ( $q:id ) = $e { $r:id = $c } }', '''let vx_l = $p.string_lits.vx_list(); let mut vx_k: usize = 0; «let ghost vx_q0 = $r; proof { lemma_merge($r, $r); }»
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l.len()
                invariant vx_k <= vx_l@.len(), weaker(vx_q0.req(), $r.req()), forall|j: int| 0 <= j < vx_k && pm.contains_key((#[trigger] vx_l@[j])@) ==> weaker(pm[vx_l@[j]@].req(), $r.req()),
                decreases vx_l@.len() - vx_k
            { let $x = &vx_l[vx_k]; «let ghost vx_q = $r; proof { lemma_merge($r, $r); if pm.contains_key(vx_l@[vx_k as int]@) { lemma_merge($r, pm[vx_l@[vx_k as int]@]); } }»
              if let Some($q) = $e { $r = $c }
              «proof { assert(weaker(vx_q.req(), $r.req())); lemma_trans(vx_q0.req(), vx_q.req(), $r.req());
                assert forall|j: int| 0 <= j < vx_k + 1 && pm.contains_key((#[trigger] vx_l@[j])@) implies weaker(pm[vx_l@[j]@].req(), $r.req()) by { if j < vx_k { lemma_trans(pm[vx_l@[j]@].req(), vx_q.req(), $r.req()); } } }»
              vx_k += 1; }
            «proof { lemma_asked(fcts(*$p), fcts(*$p).len() as int, vx_q0.req(), $r.req());
                assert forall|s: Seq<char>| $p.string_lits@.contains(s) && #[trigger] pm.contains_key(s) implies weaker(pm[s].req(), $r.req()) by { let j = choose|j: int| 0 <= j < vx_l@.len() && (#[trigger] vx_l@[j])@ == s; assert(weaker(pm[vx_l@[j]@].req(), $r.req())); } }»'''),
        ('desugar', 'for $x:id in & $p:id . string_lits { $b }', '''let vx_l = $p.string_lits.vx_list(); let mut vx_k: usize = 0;
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l.len()
                invariant vx_k <= vx_l@.len(), grow(pm, self.string_lit_props@), forall|j: int| 0 <= j < vx_k ==> self.string_lit_props@.contains_key((#[trigger] vx_l@[j])@) && self.string_lit_props@[vx_l@[j]@].req() == p_string_props.req(),
                    *self == (CharMap { string_lit_props: self.string_lit_props, char_to_char_string_lits: self.char_to_char_string_lits, ..*old(self) }),
                    vx_t.subset_of(self.char_to_char_string_lits@), strings_char_level_substring ==> forall|j: int| 0 <= j < vx_k ==> self.char_to_char_string_lits@.contains((#[trigger] vx_l@[j])@),
                decreases vx_l@.len() - vx_k
            { let $x = &vx_l[vx_k]; «let ghost vx_m = self.string_lit_props@; proof { assert($p.string_lits@.contains(vx_l@[vx_k as int]@)); assert(forall|r: StringSetProperties| r.req() == p_string_props.req() ==> #[trigger] grow(pm, vx_m.insert(vx_l@[vx_k as int]@, r))); }»
              $b vx_k += 1; }
            «proof { let m = self.string_lit_props@; lemma_settled(partitions@, vars, vx_i as int, pm, m);
                assert(settled(partitions@, vars, vx_i + 1, m)) by { assert forall|i: int, s: Seq<char>| 0 <= i < vx_i + 1 && #[trigger] partitions@[i].string_lits@.contains(s) implies m.contains_key(s) && wants(partitions@[i], vars, m[s].req()) by {
                    if i == vx_i { let j = choose|j: int| 0 <= j < vx_l@.len() && (#[trigger] vx_l@[j])@ == s; } } }
                assert(split_chars(partitions@, vars, vx_i + 1, self.char_to_char_string_lits@)) by { assert forall|i: int, s: Seq<char>| 0 <= i < vx_i + 1 && #[trigger] partitions@[i].string_lits@.contains(s) && by_char(partitions@[i], vars) implies self.char_to_char_string_lits@.contains(s) by {
                    if i == vx_i { let j = choose|j: int| 0 <= j < vx_l@.len() && (#[trigger] vx_l@[j])@ == s; } else { assert(vx_t.contains(s)); } } } }»'''),
        ('desugar', 'for $p:id in partitions { $b }', '''«let ghost vars = *char_level_substring_vars;» let mut vx_i: usize = 0;
            while vx_i < partitions.len()
                invariant vx_i <= partitions@.len(), vars == *char_level_substring_vars, settled(partitions@, vars, vx_i as int, self.string_lit_props@), split_chars(partitions@, vars, vx_i as int, self.char_to_char_string_lits@),
                    *self == (CharMap { string_lit_props: self.string_lit_props, char_to_char_string_lits: self.char_to_char_string_lits, ..*old(self) }),
                decreases partitions@.len() - vx_i
            { let $p = &partitions[vx_i]; «let ghost pm = self.string_lit_props@; let ghost vx_t = self.char_to_char_string_lits@;» $b vx_i += 1; }
            «let ghost vx_m0 = self.string_lit_props@;»'''),
        ('desugar', 'for $x:id in & self . char_to_char_string_lits { let $p:id = $e ; for $c:id in $y:id . chars ( ) { $b } }', '''«let ghost vx_m1 = self.string_lit_props@; let ghost vx_self = *self; proof { lemma_settled(partitions@, vars, partitions@.len() as int, vx_m0, vx_m1); }»
            let vx_l = self.char_to_char_string_lits.vx_list(); let mut vx_k: usize = 0; «proof { assert(grow(vx_m1, vx_m1)) by { assert forall|s: Seq<char>| #[trigger] vx_m1.contains_key(s) implies weaker(vx_m1[s].req(), vx_m1[s].req()) by { lemma_merge(vx_m1[s], vx_m1[s]); } } }»
            #[verifier::loop_isolation(false)]
            while vx_k < vx_l.len()
                invariant vx_k <= vx_l@.len(), grow(vx_m1, self.string_lit_props@), *self == (CharMap { string_lit_props: self.string_lit_props, ..vx_self }), chars_done(vx_l@, vx_k as int, vx_m1, self.string_lit_props@),
                    forall|j: int| 0 <= j < vx_k ==> vx_m1.contains_key((#[trigger] vx_l@[j])@) || self.string_lit_props@.contains_key(vx_l@[j]@),
                decreases vx_l@.len() - vx_k
            { let $x = &vx_l[vx_k]; let $p = $e; «let ghost vx_m2 = self.string_lit_props@; proof { assert(grow(vx_m2, vx_m2)) by { assert forall|s: Seq<char>| #[trigger] vx_m2.contains_key(s) implies weaker(vx_m2[s].req(), vx_m2[s].req()) by { lemma_merge(vx_m2[s], vx_m2[s]); } } }»
              let vx_cs = vx_chars_of($y); let mut vx_j: usize = 0;
                #[verifier::loop_isolation(false)]
                while vx_j < vx_cs.len()
                    invariant vx_j <= vx_cs@.len(), grow(vx_m2, self.string_lit_props@), *self == (CharMap { string_lit_props: self.string_lit_props, ..vx_self }),
                        forall|k: int| 0 <= k < vx_j ==> self.string_lit_props@.contains_key(seq![#[trigger] vx_cs@[k]]) && weaker($p.req(), self.string_lit_props@[seq![vx_cs@[k]]].req()),
                    decreases vx_cs@.len() - vx_j
                { let $c = vx_cs[vx_j]; «let ghost vx_m3 = self.string_lit_props@; let ghost vx_key = seq![vx_cs@[vx_j as int]]; proof { lemma_merge($p, $p); if vx_m3.contains_key(vx_key) { lemma_merge($p, vx_m3[vx_key]); } }»
                  $b
                  «proof { let w = self.string_lit_props@; let r = w[vx_key]; assert(w == vx_m3.insert(vx_key, r)); assert(weaker($p.req(), r.req()));
                      assert(grow(vx_m3, w)) by { assert forall|s: Seq<char>| #[trigger] vx_m3.contains_key(s) implies w.contains_key(s) && weaker(vx_m3[s].req(), w[s].req()) by { if s != vx_key { lemma_merge(vx_m3[s], vx_m3[s]); } } }
                      lemma_grow(vx_m2, vx_m3, w);
                      assert forall|k: int| 0 <= k < vx_j + 1 implies w.contains_key(seq![#[trigger] vx_cs@[k]]) && weaker($p.req(), w[seq![vx_cs@[k]]].req()) by { if k < vx_j { let t = seq![vx_cs@[k]]; assert(vx_m3.contains_key(t)); lemma_trans($p.req(), vx_m3[t].req(), w[t].req()); } } }»
                  vx_j += 1; }
              «proof { let w = self.string_lit_props@; lemma_grow(vx_m1, vx_m2, w);
                  assert(chars_done(vx_l@, vx_k + 1, vx_m1, w)) by { assert forall|j: int, k: int| 0 <= j < vx_k + 1 && 0 <= k < vx_l@[j]@.len() implies w.contains_key(seq![#[trigger] vx_l@[j]@[k]]) && (vx_m1.contains_key(vx_l@[j]@) ==> weaker(vx_m1[vx_l@[j]@].req(), w[seq![vx_l@[j]@[k]]].req())) by {
                      let t = seq![vx_l@[j]@[k]];
                      if j < vx_k { assert(vx_m2.contains_key(t)); if vx_m1.contains_key(vx_l@[j]@) { lemma_trans(vx_m1[vx_l@[j]@].req(), vx_m2[t].req(), w[t].req()); } }
                      else { assert(vx_cs@[k] == vx_l@[j]@[k]); if vx_m1.contains_key(vx_l@[j]@) { assert(weaker(vx_m1[vx_l@[j]@].req(), vx_m2[vx_l@[j]@].req())); lemma_trans(vx_m1[vx_l@[j]@].req(), $p.req(), w[t].req()); } } } } }»
              vx_k += 1; }
            «proof { let w = self.string_lit_props@; lemma_settled(partitions@, vars, partitions@.len() as int, vx_m1, w);
                assert(settled_chars(partitions@, vars, w)) by { assert forall|i: int, s: Seq<char>, k: int| 0 <= i < partitions@.len() && #[trigger] partitions@[i].string_lits@.contains(s) && by_char(partitions@[i], vars) && 0 <= k < s.len() implies w.contains_key(seq![#[trigger] s[k]]) && wants(partitions@[i], vars, w[seq![s[k]]].req()) by {
                    let j = choose|j: int| 0 <= j < vx_l@.len() && (#[trigger] vx_l@[j])@ == s; assert(vx_l@[j]@[k] == s[k]); assert(vx_m1.contains_key(s)); lemma_up(partitions@[i], vars, vx_m1[s].req(), w[seq![s[k]]].req()); } } }»'''),
        ('desugar', 'self . string_lit_props . get ( $x:id ) . unwrap ( ) . clone ( )', 'vx_unwrap(self.string_lit_props.get($x)).vx_clone()', '*'),
        ])
    u.add('}')
