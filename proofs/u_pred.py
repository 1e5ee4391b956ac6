"""Feature counts (P01): every operator is counted in its own counter, every counter is written in the column of its name."""
import re
import vx
P = 'amzn-smt-prediction/src/main.rs'
TIMEOUT = 300
# the operators of the theory of strings and the names of their columns
OPS = [('StrConcat', 'str_concat'), ('Len', 'len'), ('LexOrd', 'lex_ord'), ('ToRe', 'to_re'), ('InRe', 'in_re'), ('ReNone', 're_none'), ('ReAll', 're_all'),
       ('ReAllChar', 're_all_char'), ('ReConcat', 're_concat'), ('ReUnion', 're_union'), ('ReIntersect', 're_intersect'), ('ReKleeneStar', 're_kleene_star'),
       ('RefClosLexOrd', 'ref_clos_lex_ord'), ('SingStrAt', 'sing_str_at'), ('Substr', 'substr'), ('PrefixOf', 'prefix_of'), ('SuffixOf', 'suffix_of'),
       ('Contains', 'contains'), ('IndexOf', 'index_of'), ('Replace', 'replace'), ('ReplaceAll', 'replace_all'), ('ReplaceRe', 'replace_re'),
       ('ReplaceReAll', 'replace_re_all'), ('ReCompl', 're_compl'), ('ReDiff', 're_diff'), ('ReKleeneCross', 're_kleene_cross'), ('ReOpt', 're_opt'),
       ('ReRange', 're_range'), ('RePow', 're_pow'), ('ReLoop', 're_loop'), ('IsDigit', 'is_digit'), ('ToCode', 'to_code'), ('FromCode', 'from_code'),
       ('ToInt', 'to_int'), ('FromInt', 'from_int')]
NULLARY = {'ReNone', 'ReAll', 'ReAllChar'}
NAMES = [n for _, n in OPS]
SPEC = r'''
#[verifier::external_body] pub struct Args { x: () }
#[verifier::external_body] pub struct Error { x: () }
#[verifier::external_body] pub fn vx_err() -> (r: Error) { unimplemented!() }
pub enum Flow { Continue, Break }
pub enum StringOp { %(variants)s }
pub enum Op { String(StringOp), Other(Args) }
pub struct IOp(pub Op);
impl IOp {
    pub fn as_ref(&self) -> (r: &Op) ensures *r == self.0 { &self.0 }
    /// assumed (aws-smt-ir, by induction over terms): the visitor counts what is below the operator
    #[verifier::external_body] pub fn super_visit_with(&self, c: &mut StringCounter) -> (r: Flow)
        requires forall|k: int| 0 <= k < %(n)d ==> #[trigger] old(c).count(k) + below(*self, k) <= u64::MAX,
        ensures r is Continue, forall|k: int| 0 <= k < %(n)d ==> #[trigger] final(c).count(k) == old(c).count(k) + below(*self, k) { unimplemented!() }
}
/// how often the k-th operator is applied below an application
pub uninterp spec fn below(op: IOp, k: int) -> nat;
/// the number of the operator in the list of operators
pub open spec fn number(op: Op) -> int { match op { %(number)s Op::Other(_) => %(n)d } }
pub open spec fn occ(op: IOp, k: int) -> nat { if number(op.0) == k { below(op, k) + 1 } else { below(op, k) } }
impl StringCounter { pub open spec fn count(&self, k: int) -> int { %(count)s { 0 } } }
// ---- lines of the output
pub enum Line { Head(Vec<u64>), Row(Vec<u64>) }
impl Line { pub fn as_bytes(self) -> (r: Line) ensures r == self { self } }
pub open spec fn row_of(l: Line, x: StringCounter, h: Seq<u64>) -> bool { l matches Line::Row(v) && v@.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> #[trigger] v@[i] == x.count(h[i] as int) }
pub open spec fn head_of(l: Line, h: Seq<u64>) -> bool { l matches Line::Head(v) && v@ == h }
%(heads)s
pub open spec fn head(d: u64) -> Seq<u64> { %(head)s }
/// the kinds of datasets, numbered: smtcomp, script, kepler, other
pub uninterp spec fn kind_of(s: Seq<char>) -> u64;
#[verifier::external_body] pub fn vx_kind(s: &str) -> (r: u64) ensures r == kind_of(s@) { unimplemented!() }
// ---- files
#[verifier::external_body] pub struct Script { x: () }
/// how often the k-th operator is applied in the assertions of the script
pub uninterp spec fn total(s: Script, k: int) -> nat;
impl StringCounter { #[verifier::external_body] pub fn default() -> (r: StringCounter) ensures forall|k: int| 0 <= k < %(n)d ==> #[trigger] r.count(k) == 0 { unimplemented!() } }
impl Script { #[verifier::external_body] pub fn visit_asserted(&self, c: &mut StringCounter) -> (r: Flow) requires forall|k: int| 0 <= k < %(n)d ==> #[trigger] old(c).count(k) == 0, ensures forall|k: int| 0 <= k < %(n)d ==> #[trigger] final(c).count(k) == total(*self, k) { unimplemented!() } }
/// assumed: what is in the files
pub uninterp spec fn lines_of(path: Seq<char>) -> Seq<String>;
pub uninterp spec fn script_of(path: Seq<char>) -> Script;
#[verifier::external_body] pub struct File { x: () }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn open(p: &String) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.path() == p@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_create(p: &String) -> (r: Result<File, Error>) { unimplemented!() }
}
#[verifier::external_body] pub struct Reader { x: () }
impl Reader { pub uninterp spec fn path(&self) -> Seq<char>; }
pub struct BufReader; 
impl BufReader { #[verifier::external_body] pub fn new(f: &File) -> (r: Reader) ensures r.path() == f.path() { unimplemented!() }  #[verifier::external_body] pub fn vx_of(f: File) -> (r: Reader) ensures r.path() == f.path() { unimplemented!() } }
impl Reader { #[verifier::external_body] pub fn vx_lines(self) -> (r: Vec<String>) ensures r@ == lines_of(self.path()) { unimplemented!() } }
#[verifier::external_body] pub fn vx_parse(r: Reader) -> (s: Result<Script, Error>) ensures s is Ok ==> s->Ok_0 == script_of(r.path()) { unimplemented!() }
#[verifier::external_body] pub struct Writer { x: () }
impl Writer { pub uninterp spec fn view(&self) -> Seq<Line>; #[verifier::external_body] pub fn new(f: &File) -> (r: Writer) ensures r@ == Seq::<Line>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, l: Line) -> (r: Result<(), Error>) ensures r is Ok ==> final(self)@ == old(self)@.push(l) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self)@ == old(self)@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_push_str(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_args() -> (r: Vec<String>) { unimplemented!() }
#[verifier::external_body] pub fn vx_text() -> (r: String) { unimplemented!() }
/// the line of a benchmark: its counts, in the columns of the dataset
pub open spec fn counts(l: Line, s: Script, h: Seq<u64>) -> bool { l matches Line::Row(v) && v@.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> #[trigger] v@[i] == total(s, h[i] as int) }
pub open spec fn good_row(l: Line, d: u64, path: Seq<char>) -> bool { exists|b: Seq<char>| counts(l, script_of(#[trigger] (b + path)), head(d)) }
'''
KINDS = ['smtcomp', 'script', 'kepler', 'other']
def lits(u, path):
    f = u.src(P).fn(path)
    return [t.t for t in f.body if t.k == 'str']
def columns(lit):
    s = lit[1:-1]
    if not s.endswith('\\n'): raise vx.LostAnchor('header literal')
    return [x for x in s[:-2].split(',')]
def build(u):
    # the column lists are read off the header function of the current source: the arms and their literals
    toks = vx.strip_attrs(u.src(P).fn('string_counter_csv_header').body)
    heads, arms, cur = [], {}, []
    for t in toks:
        if t.k == 'str':
            v = t.t[1:-1]
            if ',' in v or '\\n' in v: arms[len(heads)] = cur; heads.append((t.t, columns(t.t))); cur = []
            else: cur.append(v)
        elif t.t == '_': cur.append('_')
    if not heads: raise vx.LostAnchor('no header')
    for _, h in heads:
        if any(x not in NAMES for x in h): raise vx.LostAnchor('a column that is not named after an operator')
    num = lambda h: '[' + ', '.join('%du64' % NAMES.index(x) for x in h) + ']'
    pick = lambda k: next((i for i in arms if k in arms[i]), next(i for i in arms if '_' in arms[i]))
    d = dict(n=len(OPS), variants=', '.join(v if v in NULLARY else v + '(Args)' for v, _ in OPS),
             number=' '.join('Op::String(StringOp::%s%s) => %d,' % (v, '' if v in NULLARY else '(_)', i) for i, (v, _) in enumerate(OPS)),
             count=' '.join('if k == %d { self.%s as int } else' % (i, n) for i, n in enumerate(NAMES)),
             heads='\n'.join('pub open spec fn head_%d() -> Seq<u64> { seq!%s }' % (i, num(h)) for i, (_, h) in enumerate(heads)),
             head=' '.join('if d == %d { head_%d() } else' % (i, pick(k)) for i, k in enumerate(KINDS[:3])) + ' { head_%d() }' % pick('other'))
    u.item(P, 'struct', 'StringCounter', rules=[('type', '$x:id : u64', 'pub $x: u64', '+'), ], prefix='pub ')
    u.add(SPEC % d)
    u.add('impl StringCounter {')
    N = 'forall|k: int| 0 <= k < %d ==> #[trigger] ' % len(OPS)
    u.fn(P, 'Visitor for StringCounter::visit_theory_op', ret='r', requires=N + 'old(self).count(k) + occ(*op, k) <= u64::MAX',
         ensures='r is Continue, ' + N + 'final(self).count(k) == old(self).count(k) + occ(*op, k)',
         pre='proof { let vx_n = number(op.0); if vx_n < %d { assert(self.count(vx_n) + occ(*op, vx_n) <= u64::MAX); } }' % len(OPS),
         rules=[('type', 'ControlFlow < Self :: BreakTy >', 'Flow'), ('type', 'IOp < ALL >', 'IOp')])
    u.add('}')
    K = [('desugar', '"%s"' % k, '%du64' % i, '*') for i, k in enumerate(KINDS)]
    u.fn(P, 'string_counter_csv_header', ret='r', ensures='head_of(r, head(kind_of(d@)))',
         rules=[('type', '-> ( r : String )', '-> (r: Line)')] + K + [('desugar', 'match d {', 'match vx_kind(d) {')] +
         [('desugar', '%s . to_string ( )' % l, 'Line::Head(vec!%s)' % num(h)) for l, h in heads])
    for path, k in (('string_counter_csv_all', 3), ('string_counter_csv_smtcomp', 0), ('string_counter_csv_kepler', 2)):
        ls = lits(u, path)
        if len(ls) != 1 or not re.match(r'^"\{\}(,\{\})*\\n"$', ls[0]): raise vx.LostAnchor('format of a row')
        args = find_args(u, path, ls[0])
        if len(args) != ls[0].count('{}'): raise vx.LostAnchor('arguments of a row')
        n = len(heads[pick(KINDS[k])][1])
        u.fn(P, path, ret='r', ensures='row_of(r, x, head(%d))' % k, rules=[('type', '-> ( r : String )', '-> (r: Line)'),
            ('desugar', 'format ! ( %s , $a* )' % ls[0], '{ let vx_v = vec![$a]; let vx_r = Line::Row(vx_v); «proof { let h = head(%d); assert(h.len() == %d); assert(vx_v@.len() == %d); assert forall|i: int| 0 <= i < h.len() implies #[trigger] vx_v@[i] == x.count(h[i] as int) by { %s } }» vx_r }' %
                (k, n, len(args), ' else '.join('if i == %d { }' % i for i in range(n - 1)) or ''))])
    u.fn(P, 'main', ret='r', ensures='r is Ok ==> true', rules=[
        ('type', 'std :: io :: Result < ( ) >', 'Result<(), Error>'),
        ('desugar', 'env :: args ( ) . collect ( )', 'vx_args()'),
        ('desugar', 'println ! ( $a* ) ;', ';', '*'), ('desugar', 'println ! ( )', '()', '*'), ('desugar', 'eprintln ! ( $a* ) ;', ';', '*'),
        ('desugar', 'exit ( 1 )', 'return Err(vx_err())', '*'),
        ('desugar', 'File :: create ( $a* )', 'File::vx_create(&vx_text())'),
        ('desugar', 'BufWriter :: new', 'Writer::new'), ('desugar', 'BufReader :: new ( $x:id )', 'BufReader::vx_of($x)', '*'),
        ('desugar', 'Script :: < Term > :: parse', 'vx_parse'),
        ('desugar', 'file_name . push_str ( & line ? ) ;', '«let ghost vx_b = file_name@;» vx_push_str(&mut file_name, &line);'),
        ('desugar', 'String :: from ( $x )', 'vx_text()', '*'),
        ('desugar', 'assert_eq ! ( script . visit_asserted ( & mut counter ) , ControlFlow :: CONTINUE ) ;', 'script.visit_asserted(&mut counter);'),
        ] + K + [('desugar', 'match dataset . as_str ( ) {', 'match vx_kind(dataset.as_str()) {', '+'),
        ('desugar', 'for line in list_reader . lines ( ) { $b* }', '''«let ghost vx_d = kind_of(dataset@);» let vx_l = list_reader.vx_lines(); let mut vx_i: usize = 0;
while vx_i < vx_l.len() «invariant vx_i <= vx_l@.len(), vx_d == kind_of(dataset@), out_writer@.len() == vx_i + 1, head_of(out_writer@[0], head(vx_d)), forall|i: int| 0 <= i < vx_i ==> good_row(#[trigger] out_writer@[i + 1], vx_d, vx_l@[i]@), decreases vx_l@.len() - vx_i,»
{ let line = &vx_l[vx_i]; «let ghost vx_o = out_writer@;» vx_i = vx_i + 1; $b «proof { assert(out_writer@.len() == vx_o.len() + 1); assert(good_row(out_writer@[vx_i as int], vx_d, vx_l@[vx_i - 1]@)) by { assert(counts(out_writer@[vx_i as int], script_of(vx_b + vx_l@[vx_i - 1]@), head(vx_d))); } }» }'''),
        ('ghost', 'Ok ( ( ) ) }', '«proof { let vx_o = out_writer@; assert(vx_l@ == lines_of(path@)); assert(vx_o.len() == vx_l@.len() + 1); assert(head_of(vx_o[0], head(kind_of(dataset@)))); assert(forall|i: int| 0 <= i < vx_l@.len() ==> good_row(#[trigger] vx_o[i + 1], kind_of(dataset@), vx_l@[i]@)); }» Ok ( ( ) ) }'),
        ('desugar', 'vx_push_str(&mut file_name, &line);', 'vx_push_str(&mut file_name, line);', '*'),
        ])
def find_args(u, path, lit):
    toks = u.src(P).fn(path).body
    i = next(i for i, t in enumerate(toks) if t.t == lit)
    j = vx.match_close(toks, i - 1)
    out, cur = [], []
    for t in toks[i + 2:j]:
        if t.t == ',': out.append(cur); cur = []
        else: cur.append(t.t)
    if cur: out.append(cur)
    return out
