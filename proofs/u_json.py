"""The mapping file (T06): every conversion to and from the JSON structures, for all values."""
from tr_common import *
import vx
F, M = TR + 'transpiler.rs', TR + 'mapping_tools.rs'
NOTES = 'Assumed: serde (the derived serialisation of the JSON structures is inverted by the derived deserialisation), Display of plain symbols, `{:?}` of a plain string, the file system.'
SPEC = r'''
pub type Text = Seq<char>;
pub fn vx_panic<T>() -> (r: T) ensures false { loop decreases 0int { vx_stop(); } }
#[verifier::external_body] pub fn vx_stop() ensures false { panic!() }
/// a sequence of elements that an iterator runs through
pub struct L<T> { pub v: Vec<T> }
impl<T> L<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    /// assumed (standard library): `iter().map(f).collect()`
    #[verifier::external_body]
    pub fn vx_map<B, G: Fn(T) -> B>(self, f: G) -> (r: Vec<B>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { self.v.into_iter().map(f).collect() }
}
impl<'a> L<&'a (char, char)> { pub fn vx_map_pairs<G: Fn(&'a (char, char)) -> (char, char)>(self, f: G) -> (r: Vec<(char, char)>) requires forall|p: &(char, char)| f.requires((p,)), forall|p: &(char, char), q: (char, char)| #[trigger] f.ensures((p,), q) ==> q == *p
    ensures r@ == self@.map_values(|p: &(char, char)| *p) { let ghost g = self@; let r = self.vx_map(f); proof { assert(r@ =~= g.map_values(|p: &(char, char)| *p)); } r } }
/// assumed: hashing and equality of symbols and strings are those of their text
pub trait Txt { spec fn txt(&self) -> Text; spec fn shown(&self) -> Text; fn vx_str(&self) -> (r: String) ensures r@ == self.shown(); }
impl Txt for String { open spec fn txt(&self) -> Text { self@ } open spec fn shown(&self) -> Text { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: String) { self.to_string() } }
#[derive(Clone)] pub struct ISymbol(pub String);
/// how a symbol is printed; a plain symbol as it is
pub uninterp spec fn printed(t: Text) -> Text;
impl Txt for ISymbol { open spec fn txt(&self) -> Text { self.0@ } open spec fn shown(&self) -> Text { printed(self.0@) } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> { x: (K, V) }
impl<K: Txt, V> VMap<K, V> { pub uninterp spec fn view(&self) -> Map<Text, V>;
    /// its entries, each key once, in some order
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: L<(&K, &V)>) ensures entries(r@, self@) { unimplemented!() } }
pub open spec fn entries<K: Txt, V>(l: Seq<(&K, &V)>, m: Map<Text, V>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0.txt()) && m[l[i].0.txt()] == *l[i].1)
    && (forall|t: Text| #[trigger] m.contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.txt() == t)
    && (forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && (#[trigger] l[i]).0.txt() == (#[trigger] l[j]).0.txt() ==> i == j)
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VSet<K> { x: K }
impl<K: Txt> VSet<K> { pub uninterp spec fn view(&self) -> Set<Text>;
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: L<&K>) ensures members(r@, self@) { unimplemented!() } }
pub open spec fn members<K: Txt>(l: Seq<&K>, s: Set<Text>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> s.contains((#[trigger] l[i]).txt())) && (forall|t: Text| #[trigger] s.contains(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).txt() == t)
}
/// assumed (standard library): running through a set of pairs, collecting pairs into a set
pub trait VxPairs { fn vx_list(&self) -> (r: L<&(char, char)>) ensures self.pairs() == set_of(r@.map_values(|p: &(char, char)| *p)); spec fn pairs(&self) -> Set<(char, char)>; }
impl VxPairs for HashSet<(char, char)> { open spec fn pairs(&self) -> Set<(char, char)> { self@ } #[verifier::external_body] fn vx_list(&self) -> (r: L<&(char, char)>) { L { v: self.iter().collect() } } }
pub open spec fn set_of(s: Seq<(char, char)>) -> Set<(char, char)> { s.to_set() }
#[verifier::external_body] pub fn vx_to_set(v: &Vec<(char, char)>) -> (r: HashSet<(char, char)>) ensures r@ == set_of(v@) { v.iter().cloned().collect() }
#[verifier::external_body] pub fn vx_to_vec(v: &[(char, char)]) -> (r: Vec<(char, char)>) ensures r@ == v@ { v.to_vec() }
#[verifier::external_body] pub fn vx_strs(v: &Vec<String>) -> (r: Vec<String>) ensures texts(r@) == texts(v@) { v.clone() }
#[verifier::external_body] pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn texts(s: Seq<String>) -> Seq<Text> { s.map_values(|x: String| x@) }
pub open spec fn text_pairs(s: Seq<(String, String)>) -> Seq<(Text, Text)> { s.map_values(|x: (String, String)| (x.0@, x.1@)) }
/// what is written through a formatter
#[verifier::external_body] pub struct Fmt { x: String }
impl Fmt { pub uninterp spec fn view(&self) -> Text;
    #[verifier::external_body] pub fn vx_new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_show(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures final(self)@ == old(self)@ + s@, r is Ok { unimplemented!() }
    /// assumed: `{:?}` writes the string in quotes; one without quotes, backslashes and control characters is not changed
    #[verifier::external_body] pub fn vx_debug(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures plain(s@) ==> final(self)@ == old(self)@ + seq!['"'] + s@ + seq!['"'], r is Ok { unimplemented!() } }
pub struct FmtError;
pub open spec fn plain(s: Text) -> bool { forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' || 'A' <= s[i] <= 'Z' || '0' <= s[i] <= '9' }
'''
SPEC2 = r'''
pub struct MetaV { pub req: Req, pub prefix: Text, pub suffix: Text, pub mid: Seq<Text>, pub to: Text }
impl MappedStringMetaObj { pub open spec fn v(&self) -> MetaV { MetaV { req: self.req_props.req(), prefix: self.prefix@, suffix: self.suffix@, mid: texts(self.mid_strings@), to: self.mapped_to@ } } }
impl StringSetPropertiesJson {
    /// the requirements that the JSON structure says, with the text of the digit requirement read as the reading function does
    pub open spec fn req(&self) -> Req { Req { all: false, len: self.len, ranges: set_of(self.ranges@), ints: text_rank(self.keep_ints@), sub: self.keep_substrings, ps: self.keep_prefix_suffix } }
}
impl MappedStringMetaObjJson { pub open spec fn v(&self) -> MetaV { MetaV { req: self.req_props.req(), prefix: self.prefix@, suffix: self.suffix@, mid: texts(self.mid_strings@), to: self.mapped_to@ } } }
/// the content of a mapping
pub struct MappingV { pub char_map: Seq<(char, char)>, pub string_map: Seq<(Text, Text)>, pub affected: Seq<Text>, pub failed: Seq<Text>, pub alpha: Seq<(Text, Text)>, pub persistent: Seq<(Text, MetaV)>, pub c2c: Seq<Text> }
impl Mapping { pub open spec fn v(&self) -> MappingV { MappingV { char_map: self.char_map@, string_map: text_pairs(self.string_map@), affected: texts(self.affected_constraint_vars@), failed: texts(self.failed_transformed_constraint_vars@),
    alpha: text_pairs(self.alpha_renaming_map@), persistent: self.persistent_string_map@.map_values(|x: (String, MappedStringMetaObjJson)| (x.0@, x.1.v())), c2c: texts(self.char_to_char_string_lits@) } } }
/// a list of pairs of texts says what a map says
pub open spec fn says<V>(l: Seq<(Text, V)>, m: Map<Text, V>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0) && m[l[i].0] == l[i].1)
    && (forall|t: Text| #[trigger] m.contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t)
    && (forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && (#[trigger] l[i]).0 == (#[trigger] l[j]).0 ==> i == j)
}
/// a list has exactly the members of a set, as they are printed
pub open spec fn lists<K: Txt>(l: Seq<Text>, s: Seq<&K>) -> bool { l.len() == s.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == s[i].shown() }
pub open spec fn lists_set(l: Seq<Text>, s: Set<Text>) -> bool { (forall|t: Text| #[trigger] s.contains(t) <==> l.contains(t)) }
pub open spec fn shown_set(l: Seq<Text>, s: Set<Text>) -> bool { (forall|t: Text| #[trigger] s.contains(t) ==> l.contains(printed(t))) && (forall|i: int| 0 <= i < l.len() ==> from_set(#[trigger] l[i], s)) }
pub open spec fn from_set(x: Text, s: Set<Text>) -> bool { exists|t: Text| #[trigger] s.contains(t) && x == printed(t) }
pub proof fn lemma_shown<K: Txt>(l: Seq<&K>, r: Seq<String>, s: Set<Text>)
    requires members(l, s), l.len() == r.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] r[i])@ == l[i].shown()
    ensures (forall|k: K| #[trigger] k.shown() == printed(k.txt())) ==> shown_set(texts(r), s), (forall|k: K| #[trigger] k.shown() == k.txt()) ==> lists_set(texts(r), s)
{   let w = texts(r); assert(w.len() == r.len());
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] == l[i].shown() by { assert(w[i] == r[i]@); }
    if forall|k: K| #[trigger] k.shown() == printed(k.txt()) {
        assert forall|t: Text| #[trigger] s.contains(t) implies w.contains(printed(t)) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).txt() == t; assert(w[i] == printed(t)); }
        assert forall|i: int| 0 <= i < w.len() implies from_set(#[trigger] w[i], s) by { assert(s.contains(l[i].txt())); assert(w[i] == printed(l[i].txt())); } }
    if forall|k: K| #[trigger] k.shown() == k.txt() {
        assert forall|t: Text| #[trigger] s.contains(t) implies w.contains(t) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).txt() == t; assert(w[i] == t); }
        assert forall|t: Text| w.contains(t) implies #[trigger] s.contains(t) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == t; assert(w[i] == l[i].shown()); assert(s.contains(l[i].txt())); } }
}
pub open spec fn metas(m: Map<Text, MappedStringMetaObj>) -> Map<Text, MetaV> { m.map_values(|x: MappedStringMetaObj| x.v()) }
pub open spec fn text_map<V: Txt>(m: Map<Text, V>) -> Map<Text, Text> { m.map_values(|x: V| x.txt()) }
pub proof fn lemma_says<K: Txt, V, W>(l: Seq<(&K, &V)>, m: Map<Text, V>, r: Seq<(Text, W)>, g: spec_fn(V) -> W)
    requires entries(l, m), l.len() == r.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] r[i]).0 == l[i].0.txt() && r[i].1 == g(*l[i].1)
    ensures says(r, m.map_values(g))
{   let w = m.map_values(g);
    assert forall|i: int| 0 <= i < r.len() implies w.contains_key((#[trigger] r[i]).0) && w[r[i].0] == r[i].1 by { assert(m.contains_key(l[i].0.txt())); }
    assert forall|t: Text| #[trigger] w.contains_key(t) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == t by { assert(m.contains_key(t)); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.txt() == t; assert(r[i].0 == t); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && (#[trigger] r[i]).0 == (#[trigger] r[j]).0 implies i == j by { assert(l[i].0.txt() == l[j].0.txt()); }
}
pub proof fn lemma_texts<K: Txt, V: Txt>(l: Seq<(&K, &V)>, m: Map<Text, V>, r: Seq<(String, String)>)
    requires entries(l, m), l.len() == r.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] r[i]).0@ == l[i].0.txt() && r[i].1@ == l[i].1.txt()
    ensures says(text_pairs(r), text_map(m))
{ lemma_says(l, m, text_pairs(r), |x: V| x.txt()); }
pub struct JsonError;
/// assumed (serde_json): the text of a mapping, and reading that text again
pub uninterp spec fn json(m: MappingV) -> Text;
#[verifier::external_body] pub fn vx_to_json(m: &Mapping) -> (r: Result<String, JsonError>) ensures r matches Ok(s) ==> s@ == json(m.v()) { unimplemented!() }
#[verifier::external_body] pub fn vx_from_json(s: &String) -> (r: Result<Mapping, JsonError>) ensures forall|m: MappingV| s@ == #[trigger] json(m) ==> r is Ok && r->Ok_0.v() == m { unimplemented!() }
pub struct IoError;
/// the content of a file when it is read, and what was written to it
pub uninterp spec fn content(f: Text) -> Option<Text>;
pub uninterp spec fn wrote(f: Text, t: Text) -> bool;
#[verifier::external_body] pub fn vx_write(f: &str, t: String) -> (r: Result<(), IoError>) ensures r is Ok ==> wrote(f@, t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_read(f: &str) -> (r: Result<String, IoError>) ensures match r { Ok(s) => content(f@) == Some(s@), Err(_) => content(f@) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_expect(r: Result<(), IoError>) ensures r is Ok { unimplemented!() }
/// no property set is lost or changed by writing and reading
pub fn vx_round_trip(p: &StringSetProperties) -> (r: StringSetProperties) requires p is Some ensures r.req() == p.req() { StringSetPropertiesJson::new(p).to_string_set_props() }
pub fn vx_round_trip_meta(p: &MappedStringMetaObj) -> (r: MappedStringMetaObj) requires p.req_props is Some ensures r.v() == p.v() { MappedStringMetaObjJson::new(p).to_meta_obj() }
'''
def build(u):
    u.add(HEAD)
    props_types(u)
    u.add(PROPS_SPEC + SPEC)
    u.item(F, 'struct', 'MappedStringMetaObj', prefix='pub ')
    MT = [('type', 'HashMap', 'VMap', '*'), ('type', 'HashSet < & ISymbol >', 'VSet<ISymbol>', '*'), ('type', 'HashSet < ISymbol >', 'VSet<ISymbol>', '*'), ('type', 'HashSet < String >', 'VSet<String>', '*')]
    for n in ('StringSetPropertiesJson', 'MappedStringMetaObjJson', 'Mapping'): u.item(M, 'struct', n, prefix='pub ')
    # the literals that the reading function distinguishes
    arms = {}
    b = u.src(M).fn('StringSetPropertiesJson::to_string_set_props').body
    for i, t in enumerate(b):
        if t.k == 'str' and b[i + 1].t == '=>' and b[i + 2].t == 'KeepInts': arms[t.t] = b[i + 4].t
    if len(arms) != 3: raise vx.LostAnchor('the texts of the digit requirement')
    RK = {'No': 0, 'AsInts': 1, 'ExactInts': 2}
    u.add('/// the digit requirement that a text stands for, as it is read\npub open spec fn text_rank(t: Text) -> int { ' + ' else '.join('if t == %s@ { %d }' % (l, RK[v]) for l, v in arms.items()) + ' else { -1 } }')
    u.add(SPEC2)
    rev = ''.join('reveal_strlit(%s);' % l for l in list(arms) + ['"No"', '"AsInts"', '"ExactInts"'])
    lits = [t.t for t in u.src(F).fn('Display for KeepInts::fmt').body if t.k == 'str' and '{' not in t.t]
    u.add('impl KeepInts {')
    u.fn(F, 'Display for KeepInts::fmt', ret='r', rules=[('type', 'std :: fmt :: Formatter < \'_ >', 'Fmt'), ('type', 'std :: fmt :: Result', 'Result<(), FmtError>'),
        ('desugar', 'write ! ( f , "{:?}" , $e* )', 'f.vx_debug($e)', '*'), ('desugar', 'write ! ( f , "{}" , $e* )', 'f.vx_show($e)', '*')],
        ensures='text_rank(final(f)@) == (if old(f)@.len() == 0 { rank(*self) } else { text_rank(final(f)@) })',
        pre='proof { ' + rev + ''.join('reveal_strlit(%s);' % l for l in lits) + ''.join('assert(seq![\'"\'] + %s@ + seq![\'"\'] =~= %s@);' % (v and '"%s"' % v, l) for l, v in arms.items() if l == '"\\"%s\\""' % v) + ' assert(forall|s: Text| #[trigger] (old(f)@ + s) =~= s || old(f)@.len() > 0); }')
    u.add('''    /// assumed: `to_string` is what `fmt` writes to an empty formatter
    pub fn vx_to_string(&self) -> (r: String) ensures text_rank(r@) == rank(*self) { let mut f = Fmt::vx_new(); let vx_r = self.fmt(&mut f); f.vx_text() }
}
impl StringSetPropertiesJson {''')
    u.fn(M, 'StringSetPropertiesJson::new', ret='r', requires='props is Some', ensures='r.req() == props.req()', rules=[
        ('desugar', 'match props { StringSetProperties :: Some { $f* } => Self { $x* } , $z* }', 'match props { StringSetProperties::Some { $f } => { let vx_r = Self { $x };  vx_r } , $z }'),
        ('desugar', '. iter ( ) . map ( | ( $a:id , $b:id ) | $e* ) . collect :: < Vec < ( char , char ) > > ( )', '.vx_list().vx_map_pairs(|vx_p: &(char, char)| -> (q: (char, char)) «ensures q == *vx_p» { let $a = &vx_p.0; let $b = &vx_p.1; $e })'),
        ('desugar', 'keep_ints . to_string ( )', 'keep_ints.vx_to_string()', '*'),
        ('desugar', 'panic ! ( $m* ) ;', 'return vx_panic();', '*')])
    u.fn(M, 'StringSetPropertiesJson::to_string_set_props', ret='r', requires='self.req().ints >= 0', ensures='r.req() == self.req()', rules=[
        ('desugar', 'self . ranges . iter ( ) . cloned ( ) . collect :: < HashSet < ( char , char ) > > ( )', 'vx_to_set(&self.ranges)', '*'),
        ('desugar', 'match $s* . as_str ( ) { $a:tt => $x* , $b:tt => $y* , $c:tt => $z* , _ => { $w* } }', '{ let vx_s = $s.as_str(); if vx_eq(vx_s, $a) { $x } else if vx_eq(vx_s, $b) { $y } else if vx_eq(vx_s, $c) { $z } else { $w } }'),
        ('desugar', 'panic ! ( $m* ) ;', 'vx_panic()', '*')], pre='proof { ' + rev + ' }')
    u.add('}\nimpl MappedStringMetaObjJson {')
    CL = [('desugar', '. mid_strings . clone ( )', '.vx_mid()', '*')]
    u.fn(M, 'MappedStringMetaObjJson::new', ret='r', requires='mapped_meta_obj.req_props is Some', ensures='r.v() == mapped_meta_obj.v()', rules=CL)
    u.fn(M, 'MappedStringMetaObjJson::to_meta_obj', ret='r', requires='self.req_props.req().ints >= 0', ensures='r.v() == self.v()', rules=CL)
    u.add('    pub fn vx_mid(&self) -> (r: Vec<String>) ensures texts(r@) == texts(self.mid_strings@) { vx_strs(&self.mid_strings) }\n}\nimpl MappedStringMetaObj { pub fn vx_mid(&self) -> (r: Vec<String>) ensures texts(r@) == texts(self.mid_strings@) { vx_strs(&self.mid_strings) } }')
    u.add('impl Mapping {')
    PR = '''«proof { 
  }»'''
    u.fn(M, 'Mapping::new', ret='r', rules=MT + [
        ('desugar', 'char_vec . to_vec ( )', 'vx_to_vec(char_vec)', '*'),
        ('desugar', '$m:id . iter ( ) . map ( | ( $a:id , $b:id ) | ( $e* ) ) . collect :: < Vec < ( String , String ) > > ( )', '{ let vx_l = $m.vx_list(); «let ghost vx_g = vx_l@;» let vx_r = vx_l.vx_map(|vx_p| -> (q: (String, String)) «ensures q.0@ == vx_p.0.txt() && q.1@ == vx_p.1.txt()» { let $a = vx_p.0; let $b = vx_p.1; ($e) }); «proof { lemma_texts(vx_g, $m@, vx_r@); }» vx_r }', '*'),
        ('desugar', '$m:id . iter ( ) . map ( | $v:id | $e* . to_string ( ) ) . collect :: < Vec < String > > ( )', '{ let vx_l = $m.vx_list(); «let ghost vx_g = vx_l@;» let vx_r = vx_l.vx_map(|$v| -> (q: String) «ensures q@ == $v.shown()» { $e.vx_str() }); «proof { lemma_shown(vx_g, vx_r@, $m@); }» vx_r }', '*'),
        ('desugar', '$m:id . iter ( ) . map ( | ( $a:id , $b:id ) | { $e* } ) . collect ( )', '{ let vx_l = $m.vx_list(); «let ghost vx_g = vx_l@;» let vx_r = vx_l.vx_map(|vx_p: (&String, &MappedStringMetaObj)| -> (q: (String, MappedStringMetaObjJson)) «requires vx_p.1.req_props is Some ensures q.0@ == vx_p.0@ && q.1.v() == vx_p.1.v()» { let $a = vx_p.0; let $b = vx_p.1; $e }); «proof { lemma_says(vx_g, $m@, vx_r@.map_values(|x: (String, MappedStringMetaObjJson)| (x.0@, x.1.v())), |x: MappedStringMetaObj| x.v()); }» vx_r }', '*'),
        ], requires='forall|t: Text| #[trigger] persistent_string_map@.contains_key(t) ==> persistent_string_map@[t].req_props is Some',
        ensures='''r.char_map@ == char_vec@, says(text_pairs(r.string_map@), text_map(string_map@)), says(text_pairs(r.alpha_renaming_map@), text_map(alpha_renaming_map@)), says(r.v().persistent, metas(persistent_string_map@)),
            shown_set(r.v().affected, mod_constraint_vars@), shown_set(r.v().failed, failed_transformed_constraint_vars@), lists_set(r.v().c2c, char_to_char_string_lits@)''')
    u.fn(M, 'Mapping::to_json_string', ret='r', rules=[('type', 'Result < String >', 'Result<String, JsonError>'), ('desugar', 'serde_json :: to_string_pretty ( & self )', 'vx_to_json(self)', '*'), ('desugar', 'serde_json :: to_string_pretty ( self )', 'vx_to_json(self)', '*'), ('desugar', 'serde_json :: to_string ( & self )', 'vx_to_json(self)', '*')],
        ensures='r matches Ok(s) ==> s@ == json(self.v())')
    u.fn(M, 'Mapping::print_json_to_file', ret='r', rules=[('type', 'Result < ( ) >', 'Result<(), JsonError>'), ('desugar', 'std :: fs :: write ( $x* ) . expect ( $m* )', 'vx_expect(vx_write($x))', '*')],
        ensures='r is Ok ==> wrote(filename@, json(self.v()))')
    u.fn(M, 'Mapping::build_from_json_file', ret='r', rules=[('type', 'Result < Self >', 'Result<Self, JsonError>'), ('desugar', 'std :: fs :: read_to_string', 'vx_read', '*'), ('desugar', 'serde_json :: from_str', 'vx_from_json', '*'), ('desugar', '"" . to_string ( )', 'String::new()', '*')],
        ensures='forall|m: MappingV| content(filename@) == Some(#[trigger] json(m)) ==> r is Ok && r->Ok_0.v() == m')
    u.add('}')
