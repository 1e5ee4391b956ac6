"""Bounded exploration of the string transformer (public API), against independent references."""
import itertools, json, os, random, shutil, subprocess, time
from runner import Shim, Z3, pmap
from sexp import parse_all, show, tokens
from tr_lib import SGen, smtstr

HOW = 'cd /verif/py && python3 ask.py transformer %s FILE (FILE = the JSON input above; the real functions are called)'
KI = ['No', 'AsInts', 'ExactInts']

def run(ctx, items, fn, timeout=30, cwd=None):
    """fn(shim, item) on all items in parallel"""
    exe = ctx.exe('transformer')
    def fac():
        s = Shim(exe, timeout=timeout, cwd=cwd)
        def f(it):
            if ctx.stop(): return None
            return fn(s, it)
        return f, s.stop
    return pmap(fac, items)

def ask(s, op, v):
    t, *o = s.ask(op, json.dumps(v))
    if t == 'OK': return t, json.loads(o[0])
    return t, (o[0] if o else '')

def bad(ctx, what, op, v, detail):
    ctx.violation(what, json.dumps(v, ensure_ascii=False), detail, HOW % op)

# ---------------------------------------------------------------- properties of strings
def all_props(ranges):
    return [None] + [dict(len=l, ranges=rs, keep_ints=k, keep_substrings=a, keep_prefix_suffix=b)
                     for l in (False, True) for rs in ranges for k in KI for a in (False, True) for b in (False, True)]

def norm(p):
    if p is None: return None
    return dict(p, ranges=sorted(map(tuple, p['ranges'])))

def union(a, b):
    if a is None or b is None: return None
    return dict(len=a['len'] or b['len'], ranges=sorted(set(map(tuple, a['ranges'])) | set(map(tuple, b['ranges']))),
                keep_ints=KI[max(KI.index(a['keep_ints']), KI.index(b['keep_ints']))],
                keep_substrings=a['keep_substrings'] or b['keep_substrings'], keep_prefix_suffix=a['keep_prefix_suffix'] or b['keep_prefix_suffix'])

def covers(big, small):
    """every requirement of small is one of big"""
    if big is None: return True
    if small is None: return False
    return norm(union(big, small)) == norm(big)

RANGES = [[], [('a', 'c')], [('a', 'c'), ('x', 'z')], [('0', '9')]]

def t01(ctx):
    ctx.rule('all pairs of required-property sets (97 sets over 4 range sets), KeepInts pairs; properties collected for the literals of random partitions')
    ps = all_props(RANGES)
    def f(s, ab):
        a, b = ab
        t, r = ask(s, 'union', [a, b])
        ctx.count(('u', repr(a), repr(b)), json.dumps([a, b]))
        if t != 'OK': return bad(ctx, 'combination failed', 'union', [a, b], '%s %s' % (t, r))
        if norm(r['r']) != norm(union(a, b)): bad(ctx, 'combination loses or invents a requirement', 'union', [a, b], 'got %s, both require %s' % (r['r'], union(a, b)))
        elif norm(r['a']) != norm(a): bad(ctx, 'combination changes its operand', 'union', [a, b], 'operand became %s' % r['a'])
    run(ctx, list(itertools.product(ps, ps)), f)
    def g(s, ab):
        a, b = ab
        t, r = ask(s, 'merge', [a, b])
        ctx.count(('m', a, b))
        if t != 'OK' or r != KI[max(KI.index(a), KI.index(b))]: bad(ctx, 'stricter digit requirement lost', 'merge', [a, b], '%s %s' % (t, r))
    run(ctx, list(itertools.product(KI, KI)), g)
    # the properties of a literal cover those of every function it is used with
    fs = [n for n in FCTS if n not in ('str.<', 'str.<=')]
    items = []
    for i in range(ctx.n(1500, 30000)):
        r = random.Random(ctx.seed * 7919 + i)
        lits = r.sample(['a', 'b', 'ab', 'abc', 'bcd', 'bc', 'cd', 'xbc', 'bcy', '12', '2345', '2', 'caf', ''], r.choice([2, 3, 4, 5]))
        parts = []
        for _ in range(r.choice([1, 2, 2, 3])):
            f = [[r.choice(fs), []] for _ in range(r.choice([1, 1, 2]))]
            if r.random() < .2: f.append(['re.range', ['a', 'c']])
            f = [[n, (l if n != 're.range' else r.choice([['a', 'c'], ['0', '5'], ['b', 'd']]))] for n, l in f]
            parts.append(dict(fcts=f, lits=r.sample(lits, r.choice([1, 1, 2, min(3, len(lits))])) if len(lits) > 2 else lits, char_level=r.random() < .2))
        items.append(parts)
    def h(s, parts):
        t, r = ask(s, 'litprops', parts)
        ctx.count(json.dumps(parts), json.dumps(parts))
        if t != 'OK': return bad(ctx, 'collecting properties failed', 'litprops', parts, '%s %s' % (t, r))
        for p in parts:
            need = dict(len=False, ranges=[], keep_ints='No', keep_substrings=p['char_level'], keep_prefix_suffix=False)
            for n, l in p['fcts']: need = union(need, required(n, l))
            if {'str.prefixof', 'str.suffixof'} <= set(n for n, _ in p['fcts']): need = union(need, dict(need, len=True))
            for l in p['lits']:
                if l not in r['props'] or not covers(r['props'][l], need):
                    return bad(ctx, 'a requirement of a use of a string is lost', 'litprops', parts,
                               'literal %r: its uses require %s, it got %s' % (l, need, r['props'].get(l, 'nothing')))
    run(ctx, items, h)

# ---------------------------------------------------------------- string functions
N = dict(len=False, ranges=[], keep_ints='No', keep_substrings=False, keep_prefix_suffix=False)
def P(**k): return dict(N, **k)
SUB, LEN, EX, AS = P(keep_substrings=True), P(len=True), P(keep_ints='ExactInts'), P(keep_ints='AsInts')
# name: (result sort, requirement, argument position that needs characters)
FCTS = {
 'str.++': ('String', SUB, 'Any'), 'str.len': ('Int', LEN, 'No'), 'str.<': ('Bool', None, 'No'), 'str.<=': ('Bool', None, 'No'),
 'str.to.re': ('RegLan', SUB, 'No'), 'str.to_re': ('RegLan', SUB, 'No'), 'str.in.re': ('Bool', SUB, 'No'), 'str.in_re': ('Bool', SUB, 'No'),
 're.none': ('RegLan', N, 'No'), 're.nostr': ('RegLan', N, 'No'), 're.all': ('RegLan', N, 'No'), 're.allchar': ('RegLan', N, 'No'),
 're.++': ('RegLan', P(len=True, keep_substrings=True), 'Any'), 're.union': ('RegLan', N, 'No'), 're.inter': ('RegLan', N, 'No'), 're.*': ('RegLan', N, 'No'),
 'str.at': ('String', P(len=True, keep_substrings=True), 'No'), 'str.substr': ('String', SUB, 'RightMost'),
 'str.prefixof': ('Bool', SUB, 'LeftMost'), 'str.suffixof': ('Bool', SUB, 'LeftMost'), 'str.contains': ('Bool', SUB, 'RightMost'),
 'str.indexof': ('Int', P(len=True, keep_substrings=True), 'LeftMost'), 'str.replace': ('String', SUB, 'LeftMost'),
 'str.replace_all': ('String', SUB, 'LeftMost'), 'str.replace_re': ('String', SUB, 'LeftMost'), 'str.replace_re_all': ('String', SUB, 'LeftMost'),
 're.comp': ('RegLan', N, 'No'), 're.diff': ('RegLan', N, 'No'), 're.+': ('RegLan', N, 'No'), 're.opt': ('RegLan', N, 'No'),
 're.range': ('RegLan', SUB, 'No'), 're.^': ('RegLan', LEN, 'No'), 're.loop': ('RegLan', LEN, 'No'), 'str.is_digit': ('Bool', AS, 'No'),
 'str.to_code': ('Int', EX, 'No'), 'str.from_code': ('String', EX, 'No'), 'str.to_int': ('Int', EX, 'No'), 'str.from_int': ('String', EX, 'No'),
 '=': ('Bool', N, 'No'), 'distinct': ('Bool', N, 'No')}

def required(name, lits):
    ret, p, _ = FCTS[name]
    if name == 're.range':
        if len(lits) == 2 and all(len(x) == 1 for x in lits): return dict(p, ranges=[(min(lits), max(lits))])
        return None
    return p

def t02(ctx):
    ctx.rule('every string function name of SMT-LIB (old and new spelling) with no, one and two literal arguments')
    LITS = [[], ['a'], ['abc'], ['a', 'c'], ['c', 'a'], ['a', 'bc'], ['', 'a'], ['0', '9'], ['a', 'b', 'c'], ['a', 'a']]
    items = [(n, l) for n in FCTS for l in LITS]
    def f(s, it):
        n, l = it
        v = dict(name=n, lits=l)
        t, r = ask(s, 'fct', v)
        ctx.count(it, json.dumps(v))
        if t != 'OK': return bad(ctx, 'function table fails', 'fct', v, '%s %s' % (t, r))
        if r is None: return bad(ctx, 'string function not recognised', 'fct', v, n)
        ret, _, pos = FCTS[n]
        need = required(n, l)
        if r['ret'] != ret: bad(ctx, 'wrong result sort', 'fct', v, 'got %s, the signature says %s' % (r['ret'], ret))
        elif not covers(r['props'], need): bad(ctx, 'a needed property is not required', 'fct', v, 'got %s, needs %s' % (r['props'], need))
        elif pos != 'No' and r['pos'] not in (pos, 'Any'): bad(ctx, 'argument position lost', 'fct', v, 'got %s, documented %s' % (r['pos'], pos))
        elif n == 'str.contains' and len(l) == 1 and r['args'] != dict(contains=l[0]): bad(ctx, 'argument of contains lost', 'fct', v, str(r['args']))
    run(ctx, items, f)
    # the whole tool recognises the names: a literal next to the function is mapped, with at least what the function needs kept
    ctx.rule('one query per function: the literal it is applied to is mapped, keeping length and digits where the function needs them')
    q = []
    for n, (ret, need, _) in FCTS.items():
        if need is None or n in ('re.none', 're.nostr', 're.all', 're.allchar', 'str.from_int', 'str.from_code', 're.range'): continue
        for lit in ('hello4you', '1734', 'ab'):
            tore = '(str.to_re "%s")' % lit
            a = {'str.++': '(= x (str.++ "%s" y))', 'str.len': '(= (str.len "%s") i)', 'str.at': '(= x (str.at "%s" 1))', 'str.substr': '(= x (str.substr "%s" 1 1))',
                 'str.indexof': '(= i (str.indexof x "%s" 0))', 'str.is_digit': '(str.is_digit "%s")', 'str.to_code': '(= i (str.to_code "%s"))', 'str.to_int': '(= i (str.to_int "%s"))',
                 'str.in_re': '(str.in_re "%s" re.all)', 'str.in.re': '(str.in.re "%s" re.all)', 're.^': '(str.in_re x ((_ re.^ 2) (str.to_re "%s")))',
                 're.loop': '(str.in_re x ((_ re.loop 1 2) (str.to_re "%s")))', '=': '(= x "%s")', 'distinct': '(distinct x "%s")',
                 'str.to_re': '(str.in_re x (str.to_re "%s"))', 'str.to.re': '(str.in_re x (str.to.re "%s"))'}.get(n)
            if a is None:
                if n.startswith('str.replace_re'): a = '(= x (%s "%%s" re.allchar y))' % n
                elif n.startswith('str.replace'): a = '(= x (%s x "%%s" y))' % n
                elif n.startswith('str.'): a = '(%s "%%s" x)' % n
                elif n in ('re.++', 're.union', 're.inter', 're.diff'): a = '(str.in_re x (%s (str.to_re "%%s") re.allchar))' % n
                else: a = '(str.in_re x (%s (str.to_re "%%s")))' % n
            q.append((n, lit, '(declare-const x String)\n(declare-const y String)\n(declare-const i Int)\n(assert %s)\n(check-sat)' % (a % lit)))
    def g(s, it):
        n, lit, smt = it
        v = dict(smt=smt, c2c=False)
        t, r = ask(s, 'convert', v)
        ctx.count(it, smt)
        if t != 'OK': return bad(ctx, 'the tool fails', 'convert', v, '%s %s' % (t, r))
        sm, need = dict(r['map']['string_map']), FCTS[n][1]
        if r['map']['failed_transformed_constraint_vars'] or r['map']['char_map']: return
        if lit not in sm: return bad(ctx, 'function not recognised in a query', 'convert', v, '%r is not mapped' % lit)
        d = lambda s: [c for c in s if c.isdigit()]
        if need['len'] and len(sm[lit]) != len(lit): bad(ctx, 'length not kept', 'convert', v, '%r -> %r' % (lit, sm[lit]))
        elif need['keep_ints'] == 'ExactInts' and d(sm[lit]) != d(lit): bad(ctx, 'digits not kept', 'convert', v, '%r -> %r' % (lit, sm[lit]))
        elif need['keep_ints'] == 'AsInts' and len(lit) == 1 and lit.isdigit() != sm[lit].isdigit(): bad(ctx, 'digits not kept', 'convert', v, '%r -> %r' % (lit, sm[lit]))
    run(ctx, q, g)

# ---------------------------------------------------------------- character mapping
CHARSETS = ["abcdefz019.-:/X", "abcdefghijklmnopqrstuvwxyz0123456789", "ab", "ABCXYZabcxyz 09", "\u00e9\u00e8ab1", "!#$%&'()*+,-./:;<=>?@[]^_`{|}~", "0123456789", "azAZ09", "\t\u007f a"]
def _int_fns(toks):
    return [t for t in toks if t in ('str.to_int', 'str.from_int', 'str.to_code', 'str.from_code', 'str.at', 'str.indexof')]

def range_pairs(q):
    out = []
    def walk(t):
        if isinstance(t, list):
            if len(t) == 3 and t[0] == 're.range' and all(isinstance(x, str) and x[:1] == '"' for x in t[1:]):
                a, b = (x[1:-1].replace('""', '"') for x in t[1:])
                if len(a) == 1 and len(b) == 1 and ord(a) < 128 and ord(b) < 128: out.append((min(a, b), max(a, b)))
            for x in t: walk(x)
    for c in parse_all(q): walk(c)
    return out

class RGen(SGen):
    """also random ranges"""
    def rng(self):
        if self.r.random() < .4: return SGen.rng(self)
        a = self.r.choice('abcdwxyzABC0123456789!/:~')
        b = chr(min(126, ord(a) + self.r.choice([0, 1, 2, 3, 5, 9, 14, 25])))
        a, b = (x if x not in '"\\' else '#' for x in (a, b))
        return (a, b)

def queries(ctx, n, salt, cls=SGen, **kw):
    out = []
    for i in range(n):
        r = random.Random(ctx.seed * 1000003 + salt * 131071 + i)
        k = dict(kw)
        if k.pop('sets', False): k['chars'] = r.choice(CHARSETS)
        out.append(cls(r, **k).query())
    return out

def check_charmap(q, m):
    """None or what is wrong with the mapping m of query q (char-to-char)"""
    f = {}
    for a, b in m['char_map']:
        if f.setdefault(a, b) != b: return 'character %r is mapped to both %r and %r' % (a, f[a], b)
    inv = {}
    for a, b in f.items():
        if b in inv: return 'characters %r and %r are both mapped to %r' % (inv[b], a, b)
        inv[b] = a
    for k, v in m['string_map']:
        if len(k) != len(v): return 'string %r is mapped to %r, of another length' % (k, v)
        for a, b in zip(k, v):
            if f.get(a, None) != b: return 'in %r -> %r the character %r is not mapped to %r' % (k, v, a, f.get(a))
    toks = tokens(q)
    for a, b in range_pairs(q):
        if a not in f or b not in f: return 'endpoint of the range %r-%r has no image' % (a, b)
        for c in f:
            if (a <= c <= b) != (f[a] <= f[c] <= f[b]):
                return 'range %r-%r goes to %r-%r, but %r goes to %r' % (a, b, f[a], f[b], c, f[c])
    if _int_fns(toks):
        for c in '0123456789':
            if f.get(c, c) != c: return 'the query uses digit values, but %r is mapped to %r' % (c, f[c])
    return None

def t03(ctx):
    ctx.rule('random string queries over nine alphabets with overlapping and nested character ranges and integer conversions, char-to-char mapping of each')
    qs = queries(ctx, ctx.n(4000, 80000), 3, RGen, sets=True, lex=False) + FIX_RANGES
    def f(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        if t != 'OK':
            ctx.count(None)
            return bad(ctx, 'the transformer fails', 'convert', v, '%s %s' % (t, r))
        m = r['map']
        ctx.count(q if m['string_map'] else None, q)
        if m['failed_transformed_constraint_vars']: return
        w = check_charmap(q, m)
        if w: bad(ctx, 'character mapping', 'convert', v, w + '\nmapping: ' + json.dumps(m['char_map']))
    run(ctx, qs, f)

def _rq(rs, lits, extra=''):
    return '(declare-const x String)\n(declare-const i Int)\n' + '\n'.join('(assert (str.in_re x (re.* (re.range "%s" "%s"))))' % r for r in rs) + \
        ''.join('\n(assert (not (= x %s)))' % smtstr(l) for l in lits) + extra + '\n(check-sat)'
FIX_RANGES = [_rq(rs, ls, ex) for rs in ([('a', 'z')], [('a', 'f'), ('c', 'k')], [('A', 'Z'), ('a', 'z')], [('a', 'z'), ('c', 'e'), ('x', 'z')], [('0', '5')], [('!', '/')], [('X', 'b')],
    [('a', 'c'), ('c', 'e'), ('e', 'g')], [('/', ':')], [('0', '9'), ('5', 'C')], [(' ', '~')], [('z', 'a')], [('b', 'b')], [('b', 'b'), ('a', 'c')], [('a', 'b'), ('y', 'z'), ('m', 'n')], [('N', 'f')])
    for ls in (['abcdefghijklmnopqrstuvwxyz'], ['zyx', 'ZY', '0918'], ['hello', 'b1', ''], ["!#$%&'()*+,-./:;<=>?@[]^_`{|}~ ABCXYZ"], ['a\tb', 'az', 'mn05'])
    for ex in ('', '\n(assert (= i (str.to_int x)))', '\n(assert (str.is_digit x))')]

# ---------------------------------------------------------------- reconstruction
def t04(ctx):
    ctx.rule('reverse map of random injective character maps and of the mappings of random queries; string values made of mapped, image and foreign characters')
    items = []
    for i in range(ctx.n(800, 20000)):
        r = random.Random(ctx.seed * 4241 + i)
        src = r.sample('abcdefghijklm0123456789-:/#$%&', r.randrange(0, 9))
        dst = r.sample(src * r.choice([0, 1]) + list('#$%&\'()*+,-./012noz\u00e9'), len(src)) if True else []
        dst = list(dict.fromkeys(dst))
        src = src[:len(dst)]
        items.append([[a, b] for a, b in zip(src, dst)])
    def mk(cm):
        return dict(char_map=cm, string_map=[], affected_constraint_vars=[], failed_transformed_constraint_vars=[], alpha_renaming_map=[], persistent_string_map=[], char_to_char_string_lits=[])
    def check_re(cm, re_):
        for a, b in cm:
            if re_.get(b) != a: return '%r is mapped to %r, which is mapped back to %r' % (a, b, re_.get(b, b))
        if len(set(re_.values())) != len(re_): return 'two characters are mapped back to one'
        if not set(re_.values()) <= set(re_): return 'a character of the reverse map and one that is unchanged become the same: %s' % sorted(set(re_.values()) - set(re_))
        if not set(re_) <= set(a for a, _ in cm) | set(b for _, b in cm): return 'characters that have nothing to do with the mapping are changed'
    def f(s, cm):
        v = dict(map=mk(cm))
        t, r = ask(s, 'remap', v)
        ctx.count(json.dumps(cm), json.dumps(cm))
        if t != 'OK': return bad(ctx, 'reverse map fails', 'remap', v, '%s %s' % (t, r))
        w = check_re(cm, r['re'])
        if w: return bad(ctx, 'reverse map', 'remap', v, w + '\n%s' % r['re'])
        rr = random.Random(len(cm))
        f_ = dict(cm)
        for _ in range(3):
            o = ''.join(rr.choice([a for a, _ in cm] or ['']) for _ in range(5))
            v2 = dict(map=[list(x) for x in r['re'].items()], s=''.join(f_[c] for c in o) + 'Q')
            t2, r2 = ask(s, 'restr', v2)
            if t2 != 'OK' or r2 != o + r['re'].get('Q', 'Q'): bad(ctx, 'string not mapped back', 'restr', v2, 'got %r, should be %r' % (r2, o + r['re'].get('Q', 'Q')))
    run(ctx, items, f)
    # end to end: mapping file, a model of the transformed query, original query with assertions
    ctx.rule('random queries: values for the renamed variables (all literals of the query, mapped) written as a model; the produced query is the original plus the original values before each check-sat')
    os.makedirs(ctx.scratch, exist_ok=True)
    qs = queries(ctx, ctx.n(700, 10000), 4, SGen, sets=True)
    items = list(enumerate(qs))
    def g(s, it):
        i, q = it
        rr = random.Random(i)
        extra = rr.choice(['', '\n(get-model)', '\n(assert p)\n(check-sat)' if '(declare-const p Bool)' in q else '', '\n(exit)'])
        q = q + extra
        if rr.random() < .3: q = q.replace('(check-sat)', '(push 1)\n(check-sat)\n(pop 1)', 1)
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        if t != 'OK': return bad(ctx, 'the transformer fails', 'convert', v, '%s %s' % (t, r))
        m = r['map']
        if m['failed_transformed_constraint_vars']: return ctx.count(None)
        ren = dict(m['alpha_renaming_map'])
        un = {b: a for a, b in ren.items()}
        if len(un) != len(ren): return bad(ctx, 'two variables get one name', 'convert', v, str(ren))
        sm = m['string_map']
        strs = [c[1] for c in parse_all(q) if c[0] in ('declare-const', 'declare-fun') and c[-1] == 'String']
        sv = [ren[x] for x in strs]
        if not sm or not sv: return ctx.count(None)
        vals = {}
        model = ['sat', '(']
        for x in sv:
            k, im = rr.choice(sm)
            if rr.random() < .5:
                k2, im2 = rr.choice(sm); k += k2; im += im2
            vals[x] = k
            model.append('(define-fun %s () String %s)' % (x, smtstr(im)))
        model += ['(define-fun zzz () Int 3)', ')']
        p = os.path.join(ctx.scratch, 'q%d' % i)
        open(p + '.smt2', 'w').write(q); open(p + '_mapping.json', 'w').write(json.dumps(m))
        open(p + '_transformed.out', 'w').write('\n'.join(model) + '\n')
        ctx.count(q, q)
        t, r = ask(s, 'reconstruct', dict(path=p, ext='smt2'))
        det = 'model:\n%s\nmapping: %s\n' % ('\n'.join(model), json.dumps(m))
        if t != 'OK' or 'SatModelBuilt' not in r: return bad(ctx, 'reconstruction fails', 'convert', v, det + '%s %s' % (t, r))
        new = parse_all(open(p + '_recon_check.smt2').read())
        t, echo = ask(s, 'echo', dict(smt=q))
        want = []
        affected = set(m['affected_constraint_vars'])
        # every variable that takes part in a transformed function has to be given its value
        for c in parse_all(echo):
            if c == ['check-sat']:
                want += [['assert', ['=', un[x], smtstr(vals[x])]] for x in sv if x in affected]
            want.append(c)
        if new != want: return bad(ctx, 'the query with assertions is not the original plus the values mapped back', 'convert', v,
                                   det + 'expected:\n%s\ngot:\n%s' % ('\n'.join(map(show, want)), '\n'.join(map(show, new))))
        touched = set()
        for c in parse_all(q):
            if c[0] == 'assert': _touched(c[1], set(strs), touched)
        miss = [x for x in touched if ren[x] not in affected]
        if miss: bad(ctx, 'a variable of a transformed function is not mapped back', 'convert', v, 'not listed as affected: %s' % miss)
        for sfx in ('.smt2', '_mapping.json', '_transformed.out', '_recon_check.smt2'):
            os.unlink(p + sfx)
    run(ctx, items, g)
    # real models
    ctx.rule('random queries whose transformed version is satisfiable: the model z3 finds, mapped back, satisfies the original query')
    qs = queries(ctx, ctx.n(160, 4000), 5, SGen, lex=False, ints=False)
    items = list(enumerate(qs))
    def z3(smt, t=3):
        try: return subprocess.run(['z3-new', '-in', '-T:%d' % t], input=smt, capture_output=True, text=True, timeout=t + 2).stdout
        except subprocess.TimeoutExpired: return 'timeout'
    def h(s, it):
        i, q = it
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        if t != 'OK' or r['map']['failed_transformed_constraint_vars']: return ctx.count(None)
        m = z3(r['out'] + '\n(get-model)\n')
        if not m.startswith('sat') or '\\u{' in m: return ctx.count(None)
        p = os.path.join(ctx.scratch, 'z%d' % i)
        open(p + '.smt2', 'w').write(q); open(p + '_mapping.json', 'w').write(json.dumps(r['map'])); open(p + '_transformed.out', 'w').write(m)
        t, rr = ask(s, 'reconstruct', dict(path=p, ext='smt2'))
        if t != 'OK' or 'SatModelBuilt' not in rr: return bad(ctx, 'reconstruction fails', 'convert', v, 'model:\n%s\n%s %s' % (m, t, rr))
        rq = open(p + '_recon_check.smt2').read()
        ctx.count(q, rq)
        if z3(rq).startswith('unsat'):
            bad(ctx, 'the model mapped back is not a model', 'convert', v, 'transformed:\n%s\nmodel:\n%s\nwith assertions (unsatisfiable):\n%s' % (r['out'], m, rq))
        for sfx in ('.smt2', '_mapping.json', '_transformed.out', '_recon_check.smt2'):
            os.unlink(p + sfx)
    run(ctx, items, h)
    shutil.rmtree(ctx.scratch, ignore_errors=True)

STRF = set(FCTS) - {'=', 'distinct'}
def _touched(t, vars_, out):
    """variables that are direct arguments of a string function that also has a literal"""
    if not isinstance(t, list) or not t: return
    if isinstance(t[0], str) and t[0] in STRF and any(isinstance(x, str) and x[:1] == '"' for x in t[1:]):
        for x in t[1:]:
            if isinstance(x, str) and x in vars_: out.add(x)
    for x in t: _touched(x, vars_, out)

# ---------------------------------------------------------------- whole transformation
def t05(ctx):
    ctx.rule('random queries (char-to-char): the output with variable names and literals mapped back is the input; z3 agrees on satisfiability (no code or order functions)')
    qs = queries(ctx, ctx.n(2500, 50000), 6, RGen, sets=True) + [REUSE % a for a in ('(str.++ x "ab")', '(str.len x)', '(str.replace x "a" "b")')] + T05_EXTRA
    def unmap(t, un, inv):
        if isinstance(t, str):
            if t.startswith('"'):
                return '"' + ''.join(inv.get(c, '<?%s>' % c) for c in t[1:-1].replace('""', '"')).replace('"', '""') + '"'
            t = bare(t)
            return un.get(t, t)
        return [unmap(x, un, inv) for x in t]
    def bare(t):
        if isinstance(t, list): return [bare(x) for x in t]
        return t[1:-1] if t[:1] == '|' else t
    def split(cmds):
        """set-*, then declarations, then the rest; an equation of a term with itself says nothing"""
        cmds = [c for c in cmds if not (c[0] == 'assert' and c[1][0] == '=' and all(a == c[1][1] for a in c[1][2:]))]
        a = [c for c in cmds if c[0] in ('set-logic', 'set-info', 'set-option')]
        d = [c for c in cmds if c[0] in ('declare-const', 'declare-fun')]
        return a, d, [c for c in cmds if c not in a and c not in d]
    def f(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        if t != 'OK':
            ctx.count(None)
            return bad(ctx, 'the transformer fails', 'convert', v, '%s %s' % (t, r))
        m = r['map']
        uns = any(x in ('str.<', 'str.<=') for x in tokens(q))
        if m['failed_transformed_constraint_vars']: return ctx.count(None)
        t, echo = ask(s, 'echo', dict(smt=q))
        un = {b: a for a, b in m['alpha_renaming_map']}
        inv = {b: a for a, b in m['char_map']}
        ctx.count(q if m['string_map'] else None, q)
        if uns and m['string_map']:
            # strings of a query that compares by order are only mapped if no order function sees them
            return
        # `(= x y)` over strings etc. come back as they were
        got = [unmap(c, un, inv) if c[0] not in ('set-info', 'set-option', 'set-logic') else c for c in parse_all(r['out'])]
        if split(bare(got)) != split(bare(parse_all(echo))):
            return bad(ctx, 'the output is not the input up to renaming', 'convert', v, 'mapped back:\n%s\ninput:\n%s\noutput:\n%s\nmapping %s' %
                       ('\n'.join(map(show, got)), echo, r['out'], json.dumps(m['char_map'])))
        w = check_charmap(q, m)
        if w: return bad(ctx, 'not one injective character mapping', 'convert', v, w)
        # the flat form has to mean the same: every new variable is declared once and defined once
        flat = parse_all(r['flat'])
        new = [c[1] for c in flat if c[0] == 'declare-const' and c[1].startswith('new_var')]
        if len(new) != len(set(new)): bad(ctx, 'a definition is introduced twice', 'convert', v, r['flat'])
    run(ctx, qs, f)
    # unsupported functions are reported
    ctx.rule('queries with a lexicographic comparison of each mapped variable: reported as failed')
    def g(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        ctx.count(q, q)
        if t == 'OK' and not r['map']['failed_transformed_constraint_vars']:
            bad(ctx, 'a query with an unsupported function is output as transformed', 'convert', v, r['out'])
    run(ctx, ['(declare-const x String)\n(declare-const y String)\n(assert %s)\n(assert %s)\n(check-sat)' % (a, b)
              for a in ('(str.< x "abc")', '(str.<= "abc" x)', '(not (str.< x "b"))', '(str.< (str.++ x "a") y)', '(str.<= x "")')
              for b in ('true', '(= x "q")', '(= y (str.++ x "zz"))', '(str.contains y "k")')], g)
    def ordered(i):
        r = random.Random('T05o/%d/%d' % (ctx.seed, i))
        word = lambda: '"%s"' % ''.join(r.choice('abcxyz09 ') for _ in range(r.randrange(1, 4)))
        def st(d, must):
            if d == 0 or (must and r.random() < .25): return word() if must or r.random() < .5 else r.choice('xy')
            k = r.choice(['++', '++', '++', 'replace', 'substr', 'at'])
            if k == '++':
                n = r.choice([2, 3, 3, 4]); j = r.randrange(n)
                return '(str.++ %s)' % ' '.join(st(d - 1, must and i == j) for i in range(n))
            if k == 'replace': return '(str.replace %s %s %s)' % (st(d - 1, must), st(d - 1, False), st(d - 1, False))
            if k == 'substr': return '(str.substr %s 0 2)' % st(d - 1, must)
            return '(str.at %s 0)' % st(d - 1, must)
        a, b = st(r.randrange(3), True), st(r.randrange(3), False)
        if r.random() < .5: a, b = b, a
        c = '(%s %s %s)' % (r.choice(['str.<', 'str.<=']), a, b)
        e = '(= %s %s)' % (r.choice('xy'), st(2, True))
        c = r.choice(['%s', '(not %s)', '(and %s true)', '(or %s p)', '(ite p %s p)', '(=> %s p)', '(= p %s)']) % c
        l = ['(assert %s)' % c, '(assert %s)' % e]
        r.shuffle(l)
        return '(declare-const x String)\n(declare-const y String)\n(declare-const p Bool)\n%s\n(check-sat)' % '\n'.join(l)
    run(ctx, [ordered(i) for i in range(ctx.n(500, 8000))], g)
    # literals in places that are not arguments of a string function
    for q in UNMAPPED:
        def k(s, q):
            v = dict(smt=q, c2c=True)
            t, r = ask(s, 'convert', v)
            ctx.count(q)
            if t != 'OK' or r['map']['failed_transformed_constraint_vars']: return
            un = {b: a for a, b in r['map']['alpha_renaming_map']}
            inv = {b: a for a, b in r['map']['char_map']}
            t, echo = ask(s, 'echo', dict(smt=q))
            if split([unmap(c, un, inv) for c in parse_all(r['out'])]) != split(bare(parse_all(echo))):
                ctx.violation('literal outside a string function is not mapped', json.dumps(v), r['out'], HOW % 'convert', finding='unmapped-literal')
        run(ctx, [q], k)
    # a bound variable with the name of a declared one
    def sh(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        ctx.count(q)
        if t != 'OK' or r['map']['failed_transformed_constraint_vars']: return
        z = Z3(timeout_ms=5000, exe='z3-new')
        try: a, b = z.check(q), z.check(r['out'])
        finally: z.p and z.p.kill()
        if a != b: ctx.violation('a bound variable is renamed like the declared variable of that name', json.dumps(v), '%s\nz3: %s before, %s after' % (r['out'], a, b), HOW % 'convert', finding='bound-variable')
    run(ctx, ['(declare-const x String)\n(define-fun g ((x Int)) Int (+ x 1))\n(assert (= (g (str.len x)) 5))\n(assert (= (str.at x 0) "a"))\n(check-sat)'], sh)
    # symbols declared again after a pop
    def redecl(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        ctx.count(q)
        if t != 'OK': return bad(ctx, 'the transformer fails', 'convert', v, '%s %s' % (t, r))
        d = [c[1] for c in parse_all(r['out']) if c[0] in ('declare-const', 'declare-fun')]
        if len(set(d)) != len(d): bad(ctx, 'two declared variables have the same new name', 'convert', v, r['out'])
    run(ctx, REDECLARED, redecl)
    def esc(s, q):
        v = dict(smt=q, c2c=True)
        t, r = ask(s, 'convert', v)
        ctx.count(q)
        if t == 'OK' and not r['map']['failed_transformed_constraint_vars'] and '\\u' not in r['out']:
            ctx.violation('escape sequence mapped character by character', json.dumps(v), r['out'], HOW % 'convert', finding='escape-sequence')
    run(ctx, ['(declare-const x String)\n(assert (= x "\\u{41}b"))\n(assert (= (str.len x) 2))\n(check-sat)'], esc)
    # equisatisfiability
    exe = ctx.exe('transformer')
    qs = queries(ctx, ctx.n(250, 6000), 7, SGen, lex=False, ints=False)
    def fac():
        s = Shim(exe, timeout=15); z = Z3(timeout_ms=1000, exe='z3-new')
        def f(q):
            if ctx.stop(): return
            v = dict(smt=q, c2c=True)
            t, r = ask(s, 'convert', v)
            if t != 'OK' or r['map']['failed_transformed_constraint_vars']: return ctx.count(None)
            a = z.check(q.replace('(check-sat)', '')); b = z.check(r['out'].replace('(check-sat)', ''))
            ctx.count(('z', q))
            if 'sat' in (a, b) and 'unsat' in (a, b): bad(ctx, 'not equisatisfiable', 'convert', v, 'original %s, transformed %s\n%s' % (a, b, r['out']))
        return f, s.stop
    pmap(fac, qs)

REUSE = '(declare-const x String)\n(declare-const y String)\n(declare-const p Bool)\n(assert (= y "ab"))\n(assert (or p (= (str.len %s) (str.len %%s))))\n(check-sat)' % 'y'
UNMAPPED = [
 '(declare-const x String)\n(assert (let ((u (str.++ x "k")) (w (str.len x))) (and (= u "jk") (= w 1))))\n(check-sat)',
 '(declare-const x String)\n(declare-const p Bool)\n(assert (= (ite p "abc" x) "def"))\n(check-sat)',
 '(declare-const x String)\n(declare-fun f (String) Bool)\n(assert (f "abc"))\n(assert (= x "abc"))\n(check-sat)',
 '(declare-const x String)\n(define-fun g () String "abc")\n(assert (= g x))\n(assert (= x "abc"))\n(check-sat)',
]
REDECLARED = [
 '(push 1)\n(declare-const x String)\n(assert (= x "abc"))\n(check-sat)\n(pop 1)\n(push 1)\n(declare-const x String)\n(declare-const y String)\n(assert (= x "abc"))\n(assert (= y "abd"))\n(check-sat)\n(pop 1)',
 '(declare-const z Int)\n(push 1)\n(declare-fun x () Int)\n(assert (= x 1))\n(check-sat)\n(pop 1)\n(declare-fun x () String)\n(declare-fun y () String)\n(declare-const w Bool)\n(assert (= x (str.++ y "a")))\n(check-sat)',
]
T05_EXTRA = [
 '(declare-fun f (Int) String)\n(declare-const y String)\n(declare-const i Int)\n(assert (= (str.++ (f i) y) "abd"))\n(assert (not (= (f 2) (f 3))))\n(check-sat)',
 '(declare-fun p (String Int) Bool)\n(declare-const y String)\n(assert (p (str.++ y "ab") (str.len y)))\n(assert (not (p y 2)))\n(check-sat)',
 '(declare-const x String)\n(assert (let ((u (str.++ x "k")) (w (str.len x))) (and (= u (str.++ "j" x)) (= w 1))))\n(check-sat)',
 '(declare-const x String)\n(declare-const y String)\n(assert (= x (str.++ y "a")))\n(assert (= x (str.++ y "a")))\n(assert (not (= x (str.++ y "b"))))\n(check-sat)\n(get-model)',
 '(set-logic QF_S)\n(set-info :status sat)\n(set-option :produce-models true)\n(declare-fun a1 () String)\n(declare-fun a0 () String)\n(assert (= a0 "a1"))\n(assert (= a1 "a0"))\n(check-sat)\n(exit)',
 '(declare-const x String)\n(declare-const b Bool)\n(assert (= b (str.prefixof "ab" x)))\n(assert b)\n(check-sat)',
 '(declare-const x String)\n(assert (str.prefixof "ab" x))\n(assert (not (str.prefixof "ab" x)))\n(check-sat)',
 '(declare-const x String)\n(assert (= (str.prefixof "ab" x) (str.suffixof "b" x)))\n(check-sat)',
 '(declare-const x String)\n(assert (= (str.len x) (str.indexof x "b" 0)))\n(push 1)\n(assert (= x "ab"))\n(check-sat)\n(pop 1)\n(check-sat)',
 '(declare-const x String)\n(assert (str.in_re x (re.++ (re.* (re.range "a" "f")) (str.to_re "zz") (re.opt (str.to_re "a")))))\n(check-sat)',
 '(declare-const x String)\n(assert (exists ((z String)) (= x (str.++ z "ab"))))\n(check-sat)',
]

# ---------------------------------------------------------------- JSON
def t06(ctx):
    ctx.rule('every combination of required properties; random mappings with every kind of character; mappings of random queries, through a file')
    def f(s, p):
        t, r = ask(s, 'propsjson', p)
        ctx.count(json.dumps(p), json.dumps(p))
        if t != 'OK' or norm(r) != norm(p): bad(ctx, 'properties changed by the round trip', 'propsjson', p, '%s %s' % (t, r))
    run(ctx, [p for p in all_props(RANGES + [[('"', '\\')], [('\u0000', '\uffff'), ('a', 'c'), ('\U0001F600', '\U0010FFFF')]]) if p], f)
    CH = ['a', '"', '\\', '\n', '\u0000', '\u001f', '\u007f', '\u00e9', '\u2028', '\U0001F600', '/', ' ', "'", '{', '\\u0041']
    def rs(r, n=6): return ''.join(r.choice(CH) for _ in range(r.randrange(n)))
    SYM = ['x', 'a0', 'new_var17', '_p.q', 'x!1']
    items = []
    pr = [p for p in all_props(RANGES) if p]
    for i in range(ctx.n(600, 20000)):
        r = random.Random(ctx.seed * 31 + i)
        items.append(dict(
            char_map=[[a, r.choice(CH[:-1])] for a in r.sample(CH[:-1], r.randrange(8))],
            string_map=[[k, rs(r)] for k in {rs(r) for _ in range(r.randrange(6))}],
            affected_constraint_vars=r.sample(SYM, r.randrange(4)), failed_transformed_constraint_vars=r.sample(SYM, r.randrange(4)),
            alpha_renaming_map=[[k, rs(r)] for k in {rs(r) for _ in range(r.randrange(4))}],
            persistent_string_map=[[k, dict(req_props=dict(json.loads(json.dumps(r.choice(pr))), keep_ints='"%s"' % r.choice(KI)), prefix=rs(r), suffix=rs(r), mid_strings=[rs(r) for _ in range(r.randrange(3))], mapped_to=rs(r))]
                                   for k in {rs(r) for _ in range(r.randrange(4))}],
            char_to_char_string_lits=sorted({rs(r) for _ in range(r.randrange(3))})))
    os.makedirs(ctx.scratch, exist_ok=True)
    def canon(m):
        m = json.loads(json.dumps(m))
        for _, p in m['persistent_string_map']: p['req_props']['ranges'] = sorted(p['req_props']['ranges'])
        return {k: sorted(json.dumps(x, sort_keys=True) for x in v) if k != 'char_map' else v for k, v in m.items()}
    def g(s, it):
        i, m = it
        v = dict(map=m, path=os.path.join(ctx.scratch, 'm%d.json' % i))
        t, r = ask(s, 'mapround', v)
        ctx.count(json.dumps(m), json.dumps(m))
        if os.path.exists(v['path']): os.unlink(v['path'])
        if t != 'OK': return bad(ctx, 'mapping does not survive', 'mapround', v, '%s %s' % (t, r))
        for k in ('again', 'rebuilt'):
            if canon(r[k]) != canon(m): return bad(ctx, 'mapping changed by the round trip', 'mapround', v, '%s: %s' % (k, json.dumps(r[k])))
        if sorted(map(list, r['re'].items())) and not all(r['re'].get(b) == a for a, b in m['char_map'] if [y for _, y in m['char_map']].count(b) == 1): bad(ctx, 'reverse map changed', 'mapround', v, str(r['re']))
    run(ctx, list(enumerate(items)), g)
    qs = queries(ctx, ctx.n(300, 5000), 8, SGen, sets=True)
    def h(s, it):
        i, q = it
        t, r = ask(s, 'convert', dict(smt=q, c2c=bool(i % 2)))
        if t != 'OK': return
        v = dict(map=r['map'], path=os.path.join(ctx.scratch, 'q%d.json' % i))
        t, b = ask(s, 'mapround', v)
        ctx.count(q, q)
        if os.path.exists(v['path']): os.unlink(v['path'])
        if t != 'OK' or canon(b['again']) != canon(r['map']) or canon(b['rebuilt']) != canon(r['map']): bad(ctx, 'mapping changed by the round trip', 'mapround', v, '%s %s' % (t, b))
        elif dict(b['unalpha']) != {y: x for x, y in r['map']['alpha_renaming_map']}: bad(ctx, 'renaming changed', 'mapround', v, str(b['unalpha']))
        # what the mapping says is what was done to the query
        un = dict(r['map']['string_map'])
        lits = set(t[1:-1].replace('""', '"') for t in tokens(r['out']) if t[:1] == '"')
        if not r['map']['failed_transformed_constraint_vars'] and not lits <= set(un.values()):
            bad(ctx, 'a literal of the output is missing from the string map', 'convert', dict(smt=q, c2c=bool(i % 2)), '%s not in %s' % (lits - set(un.values()), un))
    run(ctx, list(enumerate(qs)), h)
    shutil.rmtree(ctx.scratch, ignore_errors=True)

# ---------------------------------------------------------------- call graph
def t07(ctx):
    ctx.rule('random sequences of forest operations against a reference model; random well-typed call graphs, propagated, against reachability computed independently')
    def fitem(i):
        r = random.Random(ctx.seed * 77 + i)
        ops, on = [], lambda k: r.choice([None] * k + [r.randrange(6)])
        for _ in range(r.randrange(4, 25)):
            k = r.random()
            if k < .3: ops.append(['new', r.randrange(6), 'd%d' % r.randrange(9)])
            elif k < .38: ops.append(['get', r.randrange(7)])
            elif k < .42: ops.append(['set', r.randrange(6), r.randrange(6), 'e%d' % r.randrange(9)])
            else: ops.append(['upd', r.randrange(7), on(1), on(1), r.choice([None, None, 'u%d' % r.randrange(9)]), r.choice([None, [r.randrange(6) for _ in range(r.randrange(4))]])])
            if r.random() < .3: ops.append(['dump'])
        return ops + [['dump']]
    def fref(ops):
        m, log = {}, []
        for o in ops:
            if o[0] == 'new': m[o[1]] = [o[1], o[2], set(), set(), set()]
            elif o[0] == 'get': log.append(m[o[1]][1] if o[1] in m else None)
            elif o[0] == 'set': m[o[1]] = [o[2], o[3], set(), set(), set()]
            elif o[0] == 'upd':
                if o[1] not in m: log.append(False); continue
                n = m[o[1]]
                if o[2] is not None: n[2].add(o[2])
                if o[3] is not None: n[3].add(o[3])
                if o[4] is not None: n[1] = o[4]
                if o[5] is not None: n[4] |= set(o[5]); n[4].discard(n[0])
                log.append(True)
            else: log.append([[k, n[0], n[1], sorted(n[2]), sorted(n[3]), sorted(n[4])] for k, n in sorted(m.items())])
        return log
    def f(s, ops):
        t, r = ask(s, 'forest', ops)
        ctx.count(json.dumps(ops), json.dumps(ops))
        w = fref(ops)
        if t != 'OK' or r != w: bad(ctx, 'node updates', 'forest', ops, '%s got %s\nreference %s' % (t, json.dumps(r), json.dumps(w)))
    run(ctx, [fitem(i) for i in range(ctx.n(2000, 40000))], f)
    # call graphs
    SF = {'String': ['str.++', 'str.substr', 'str.at', 'str.replace', 'str.from_int'], 'Int': ['str.len', 'str.to_int', 'str.indexof'],
          'RegLan': ['str.to_re', 're.++', 're.*', 're.union', 're.range'], 'Bool': ['=', 'str.prefixof', 'str.contains', 'str.in_re', 'str.is_digit', 'distinct']}
    ARGS = {'str.++': ['String'], 'str.substr': ['String'], 'str.at': ['String'], 'str.replace': ['String'], 'str.from_int': ['Int'], 'str.len': ['String'], 'str.to_int': ['String'],
            'str.indexof': ['String'], 'str.to_re': ['String'], 're.++': ['RegLan'], 're.*': ['RegLan'], 're.union': ['RegLan'], 're.range': [], '=': ['String'], 'str.prefixof': ['String'],
            'str.contains': ['String'], 'str.in_re': ['String', 'RegLan'], 'str.is_digit': ['String'], 'distinct': ['String']}
    RET = {n: k for k, v in SF.items() for n in v}
    def gitem(i):
        r = random.Random(ctx.seed * 99 + i)
        ops, typ, fct, lits, ch, fresh = [], {}, {}, {}, {}, []
        order = []
        for k in range(r.randrange(1, 4)):
            n = 'v%d' % k; ops.append(['var', n]); typ[n] = 'String'; fct[n] = 'NO_OP'; lits[n] = set(); ch[n] = set(); order.append(n)
        for k in range(r.randrange(1, 8)):
            f = r.choice(sorted(ARGS))
            n = 'f%d' % k
            pool = [x for x in order if typ[x] in ARGS[f]]
            kids = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2, 2, 3])))
            ls = r.sample(['a', 'b', 'c', 'd'], r.choice([0, 0, 1, 1, 2])) if f != 're.range' else r.choice([['a', 'c'], ['b', 'd']])
            ops.append(['call', n, f, sorted(ls)])
            for x in kids: ops.append(['pc', n, x])
            if r.random() < .9: ops.append(['sib', kids, sorted(ls)]); sib = True
            else: sib = False
            typ[n], fct[n], lits[n], ch[n] = RET[f], f, set(ls), set(kids)
            if sib:
                for x in kids:
                    if fct[x] == 'NO_OP': lits[x] |= set(ls)
            order.append(n)
            if r.random() < .15: ops.append(['pc', r.choice(order), 'nosuch']); ops.append(['pc', 'nosuch', r.choice(order)]); ops.append(['sib', [r.choice(order), 'nosuch'], ['z']])
        pre = len(ops)
        ops.append(['prop'])
        for n in order: ops.append(['data', n])
        ops.append(['parts'])
        for n in order: ops.append(['cvars', n])
        return ops, typ, fct, lits, ch, order
    def pair(n, fct, lits):
        # rendering of (StringFct, StringFctArgs)
        return n
    def g(s, it):
        ops, typ, fct, lits, ch, order = it
        t, log = ask(s, 'graph', ops)
        ctx.count(json.dumps(ops), json.dumps(ops))
        if t != 'OK': return bad(ctx, 'call graph fails', 'graph', ops, '%s %s' % (t, log))
        idx = {id(o): k for k, o in enumerate(ops)}
        for o, l in zip(ops, log):
            if o[0] in ('pc', 'sib'):
                ok = 'nosuch' not in (o[1:] if o[0] == 'pc' else o[1])
                if l != ok: return bad(ctx, 'unknown nodes have to be rejected, known ones accepted', 'graph', ops, '%s -> %s' % (o, l))
        par = {n: {p for p in order if n in ch[p]} for n in order}
        prop = lambda n: typ[n] != 'Bool'
        def reach(rel):
            memo = {}
            def go(n):
                if n not in memo:
                    v, fn, ls = set(rel[n]), {n} | set(rel[n]), set(lits[n])
                    for c in rel[n]:
                        if prop(c):
                            a, b, d = go(c); v |= a; fn |= b; ls |= d
                    memo[n] = (v, fn, ls)
                return memo[n]
            return {n: go(n) for n in order}
        down, up = reach(ch), reach(par)
        res = dict((o[1], l) for o, l in zip(ops, log) if o[0] == 'data')
        if [l for o, l in zip(ops, log) if o[0] == 'prop'] != ['ok']: return bad(ctx, 'propagation fails', 'graph', ops, str(log))
        own = {}
        for n in order:
            d = res[n]
            if d is None: return bad(ctx, 'a node is lost', 'graph', ops, n)
            if set(d['lits']) != lits[n]: return bad(ctx, 'literals of a node', 'graph', ops, '%s has %s, should have %s' % (n, d['lits'], sorted(lits[n])))
        # the function (with arguments) of each node, taken from a node that only has itself
        for n in order:
            d = res[n]
            for key, want in (('down', down[n]), ('up', up[n])):
                x = d[key]
                if x is None: return bad(ctx, 'no information propagated', 'graph', ops, '%s %s' % (n, key))
                if set(x['vars']) != want[0]: return bad(ctx, 'wrong nodes after propagation', 'graph', ops, '%s %s: %s, should be %s' % (n, key, x['vars'], sorted(want[0])))
                if set(x['lits']) != want[2]: return bad(ctx, 'wrong literals after propagation', 'graph', ops, '%s %s: %s, should be %s' % (n, key, x['lits'], sorted(want[2])))
                fn = {y.split(',')[0].strip('(') for y in x['fcts']}
                wf = {d2['fct'] for k2, d2 in res.items() if k2 in want[1]}
                if fn != wf: return bad(ctx, 'wrong functions after propagation', 'graph', ops, '%s %s: %s, should be %s' % (n, key, sorted(fn), sorted(wf)))
        parts = [l for o, l in zip(ops, log) if o[0] == 'parts'][0]
        # what a variable, or a term made of literals only, is used in (however deep) and what it is used with
        for c in order:
            if ch[c]: continue
            for f in up[c][0]:
                if not any(f in p['vars'] and c in p['vars'] and lits[f] | lits[c] <= set(p['lits']) and
                           any(y.startswith('(%s,' % res[f]['fct']) for y in p['fcts']) for p in parts):
                    return bad(ctx, 'a variable or literal does not see the function it is used in', 'graph', ops, '%s in %s; partitions %s' % (c, f, json.dumps(parts)))
        for n in order:
            if not any(n in p['vars'] and lits[n] <= set(p['lits']) for p in parts): return bad(ctx, 'a node is in no partition', 'graph', ops, '%s %s' % (n, json.dumps(parts)))
        # variables reported as affected with a node
        cv = dict((o[1], l) for o, l in zip(ops, log) if o[0] == 'cvars')
        for n in order:
            want = sorted({x for p in parts if n in p['vars'] for x in p['vars'] if fct[x] == 'NO_OP'})
            if cv[n] != want: return bad(ctx, 'constraint variables of the partition', 'graph', ops, '%s: %s, should be %s' % (n, cv[n], want))
            if not {x for x in down[n][0] if fct[x] == 'NO_OP' } <= set(cv[n]) and prop(n) and False: return
    run(ctx, [gitem(i) for i in range(ctx.n(2500, 50000))], g)

# ---------------------------------------------------------------- subformulas
def t08(ctx):
    ctx.rule('random queries: list of subformulas against an independent enumeration')
    r0 = random.Random(ctx.seed)
    def gen(i):
        r = random.Random(ctx.seed * 555 + i)
        q = SGen(r, lex=True).query()
        if r.random() < .3:
            q = q.replace('(check-sat)', '(declare-fun ff (String Int) Bool)\n(declare-const k Int)\n(assert (=> (ff x k) (ite (< k 3) (ff x 2) (xor (ff "u" k) (= k (- k 1))))))\n(check-sat)') if '(declare-' in q and ' x ' in q else q
        if r.random() < .2:
            q = q.replace('(check-sat)', '(declare-const k1 Int)\n(declare-const k2 Int)\n(declare-const k3 Int)\n(assert (< k1 k2 k3 k1))\n(assert (= (+ k2 (* 2 k1)) (- k3 k2 k1)))\n(check-sat)')
        return q
    CONST = {'true', 'false'}
    def subs(t, out):
        if isinstance(t, str):
            if t in ('re.all', 're.allchar', 're.none', 're.nostr'): out.append(t)
            return
        for x in t[1:]: subs(x, out)
        out.append(t)
    def ren(t, m, top=True):
        if isinstance(t, str):
            if t[:1] in '"0123456789#' or t in CONST or t in ('re.all', 're.allchar', 're.none', 're.nostr'): return t
            if t not in m: m[t] = 'v%d' % len(m)
            return m[t]
        h = t[0]
        return [h] + [ren(x, m, False) for x in t[1:]]
    def f(s, q):
        t, r = ask(s, 'subformulas', dict(smt=q))
        if t != 'OK': return bad(ctx, 'listing fails', 'subformulas', dict(smt=q), '%s %s' % (t, r))
        t, echo = ask(s, 'echo', dict(smt=q))
        want = []
        for c in parse_all(echo):
            if c[0] == 'assert': subs(c[1], want)
        want = [show(ren(x, {})) for x in want]
        got = [show(parse_all(x)[0]) for x in r['sub_formula_list']]
        ctx.count(q if want else None, q)
        if got != want: bad(ctx, 'subformula list', 'subformulas', dict(smt=q), 'got\n%s\nexpected\n%s' % ('\n'.join(got), '\n'.join(want)))
    run(ctx, [gen(i) for i in range(ctx.n(2500, 50000))], f)

# ---------------------------------------------------------------- compressing mapping
def direct(q):
    """requirements that reach a literal through functions applied to the literal or to a variable next to it"""
    vars_ = set(c[1] for c in parse_all(q) if c[0] in ('declare-const', 'declare-fun') and c[-1] == 'String')
    apps = []
    def walk(t):
        if not isinstance(t, list) or not t: return
        h = t[0] if isinstance(t[0], str) else (t[0][1] if t[0] and t[0][0] == '_' else None)
        if h in FCTS and h not in ('re.range',):
            if h != '=' or all(isinstance(x, str) and (x in vars_ or x[:1] == '"') or isinstance(x, list) and isinstance(x[0], str) and x[0] in STRF for x in t[1:]):
                apps.append((h, [x[1:-1].replace('""', '"') for x in t[1:] if isinstance(x, str) and x[:1] == '"'], [x for x in t[1:] if isinstance(x, str) and x in vars_]))
        for x in t: walk(x)
    for c in parse_all(q):
        if c[0] == 'assert': walk(c[1])
    byvar = {}
    for h, ls, vs in apps:
        for v in vs: byvar[v] = union(byvar.get(v, N), required(h, ls))
    need = {}
    for h, ls, vs in apps:
        p = required(h, ls)
        for v in vs: p = union(p, byvar[v])
        for l in ls: need[l] = union(need.get(l, N), p)
    return need

def check_norec(q, m):
    sm = dict(m['string_map'])
    lits = set(t[1:-1].replace('""', '"') for t in tokens(q) if t[0] == '"')
    sm = {k: v for k, v in sm.items() if k in lits}
    inv = {}
    for k, v in sm.items():
        if v in inv: return 'strings %r and %r are both mapped to %r' % (inv[v], k, v)
        inv[v] = k
        if (k == '') != (v == ''): return 'string %r is mapped to %r' % (k, v)
    need = direct(q)
    for k, v in sm.items():
        n = need.get(k)
        if not n: continue
        if n['len'] and len(k) != len(v): return 'length of %r is needed, but it is mapped to %r' % (k, v)
        if n['keep_ints'] == 'ExactInts' and [c for c in k if c in '0123456789'] != [c for c in v if c in '0123456789']:
            return 'digits of %r are needed, but it is mapped to %r' % (k, v)
        if n['keep_ints'] == 'AsInts' and sum(c in '0123456789' for c in k) != sum(c in '0123456789' for c in v):
            return 'digits of %r have to stay digits, but it is mapped to %r' % (k, v)
    return None

def t09(ctx):
    ctx.rule('random queries in no-reconstruct mode (also with up to 300 unconstrained literals, with the mapping of an earlier query as global map)')
    qs = queries(ctx, ctx.n(3000, 60000), 9, RGen, sets=True)
    for n in (1, 19, 23, 60, 99, 100, 101, 102, 103, 120, 160, 300):
        for pat in ('l%d', '%d', 'k%dq'):
            qs.append('(declare-const x String)\n' + '\n'.join('(assert (distinct x "%s"))' % (pat % i) for i in range(n)) + '\n(check-sat)')
            if n <= 120: qs.append('(declare-const x String)\n(declare-const y String)\n(assert (str.in_re x (re.range "a" "f")))\n' + '\n'.join('(assert (distinct y "%s"))' % (pat % i) for i in range(n)) + '\n(check-sat)')
        if n <= 60:
            qs.append('(declare-const x String)\n(assert (> (str.len x) 2))\n' + '\n'.join('(assert (distinct x "%s%s"))' % (chr(97 + i // 26), chr(97 + i % 26)) for i in range(n)) + '\n(check-sat)')
            qs.append('(declare-const x String)\n(assert (str.is_digit x))\n' + '\n'.join('(assert (distinct x "%d"))' % i for i in range(n)) + '\n(check-sat)')
    D1, D2 = '(declare-const x String)\n', '(declare-const x String)\n(declare-const y String)\n'
    lit = lambda v, ls: ''.join('(assert (distinct %s %s))\n' % (v, smtstr(l)) for l in ls)
    al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    # one and two characters with a length: the perturbations run out, characters are mapped one by one
    for n in (80, 95, 101, 110, 120, 150, 200, 300):
        for k in (1, 2, 3):
            ls = [''.join(random.Random('%d/%d/%d' % (n, k, i)).choice(al + '.-+#@') for _ in range(k)) for i in range(n)]
            qs.append(D1 + '(assert (> (str.len x) 2))\n' + lit('x', sorted(set(ls))) + '(check-sat)')
    ints = ['(assert (> (str.to_int x) 2))', '(assert (str.is_digit x))', '(assert (= x (str.from_int 5)))', '(assert (> (str.len x) 2))(assert (> (str.to_int x) 2))']
    for h in ints:
        for n in (2, 10, 52):
            qs.append(D1 + h + lit('x', ['%s1' % c for c in al[:n]]) + '(check-sat)')
        for rg in ('"0" "z"', '"5" "z"', '"+" "7"', '"+" "z"', '"a" "f"', '"0" "9"', '"3" "6"'):
            for ls in (['a'], ['a1'], ['ab'], ['ab', '7'], ['a1', 'b1', '-1'], ['0', '1'], ['%s1' % c for c in al[:30]]):
                qs.append(D2 + '(assert (str.in_re y (re.range %s)))' % rg + h + lit('x', ls) + '(check-sat)')
                qs.append(D1 + '(assert (str.in_re x (re.range %s)))' % rg + h + lit('x', ls) + '(check-sat)')
    for ls, ms in ((['1'], ['0']), (['2'], ['0', '1']), (['0', '5'], ['3', '1', '9'])):
        qs.append(D2 + '(assert (and (str.is_digit x) %s))(assert (and (str.is_digit y) %s))(check-sat)' % (' '.join('(distinct x "%s")' % l for l in ls), ' '.join('(distinct y "%s")' % l for l in ms)))
    def judge(s, v, q):
        t, r = ask(s, 'convert', v)
        if t == 'TIMEOUT': return bad(ctx, 'the mapping does not end', 'convert', v, 'no answer within %d s' % s.timeout)
        if t != 'OK':
            ctx.count(None)
            return bad(ctx, 'the transformer fails', 'convert', v, '%s %s' % (t, r))
        m = r['map']
        if m['failed_transformed_constraint_vars'] or m['char_map']:
            ctx.count(None)
            if not m['failed_transformed_constraint_vars'] and m['char_map']:
                w = check_charmap(q, m)
                if w: bad(ctx, 'the fall back is not a char-to-char mapping', 'convert', v, w)
            return None
        ctx.count(q if m['string_map'] else None, q)
        w = check_norec(q, m)
        if w: bad(ctx, 'compressing mapping', 'convert', v, w + '\nstring map: ' + json.dumps(m['string_map']))
        return m
    run(ctx, qs, lambda s, q: judge(s, dict(smt=q, c2c=False), q), timeout=40)
    # with a persistent map from another query
    os.makedirs(ctx.scratch, exist_ok=True)
    exe = ctx.exe('transformer')
    def fac():
        d = os.path.join(ctx.scratch, 'w%d' % random.SystemRandom().getrandbits(60))
        os.makedirs(d)
        s = Shim(exe, timeout=40, cwd=d)
        def f(it):
            q1 = it[0]
            if ctx.stop(): return
            t, r = ask(s, 'convert', dict(smt=q1, c2c=False))
            if t != 'OK': return
            for q2 in it[1:]:
                json.dump(r['map'], open(os.path.join(d, 'global_mapping.json'), 'w'))
                v = dict(smt=q2, c2c=False)
                t, r2 = ask(s, 'convert', dict(v, **{'global': True}))
                before = 'with the global mapping of\n%s\n%s\n' % (q1, json.dumps(r['map']['persistent_string_map']))
                if t == 'TIMEOUT': return bad(ctx, 'the mapping does not end', 'convert', v, before)
                if t != 'OK': return bad(ctx, 'the transformer fails', 'convert', v, before + '%s %s' % (t, r2))
                m = r2['map']
                if m['failed_transformed_constraint_vars'] or m['char_map']: return ctx.count(None)
                ctx.count((q1, q2))
                w = check_norec(q2, m)
                if w: return bad(ctx, 'compressing mapping with a global map', 'convert', v, w + '\n' + before + 'string map: %s' % json.dumps(m['string_map']))
                q1, r = q1 + '\nand then\n' + q2, r2
        return f, s.stop
    base = queries(ctx, ctx.n(1200, 30000), 10, SGen, sets=False, chars='abcz01.')
    def chain(i):
        r = random.Random('T09c/%d/%d' % (ctx.seed, i))
        words = [''.join(r.choice('abz01') for _ in range(r.randrange(1, 5))) for _ in range(7)]
        def q():
            ws = r.sample(words, r.randrange(1, 6))
            f = r.choice(['(= x %s)', '(distinct y %s)', '(str.contains x %s)', '(= (str.len x) (str.len %s))', '(= y (str.++ x %s))', '(str.in_re x (str.to_re %s))'])
            g = lambda w: (f if r.random() < .6 else '(= x %s)') % smtstr(w)
            return '(declare-const x String)\n(declare-const y String)\n(assert (or %s))\n(check-sat)' % ' '.join(map(g, ws))
        return [q() for _ in range(r.choice([2, 2, 3, 4]))]
    def later_range(i):
        # the range of the second query comes after the strings that are taken over from the first one
        r = random.Random('T09r/%d/%d' % (ctx.seed, i))
        fm = r.choice(['A%d', '%d', 'A%dq', 'w%d', '%da'])
        f = r.choice(['(assert (distinct y %s))\n', '(assert (str.prefixof y %s))\n', '(assert (str.contains y %s))\n'])
        A = ''.join(f % smtstr(fm % k) for k in range(r.choice([3, 10, 20, 30, 45])))
        lo, hi = r.choice(['ah', 'AF', '09', 'az', '!/', 'mp'])
        R = '(assert (str.in_re x (re.range "%s" "%s")))\n' % (lo, hi) + r.choice(['', '(assert (distinct x "%s"))\n' % lo, '(assert (distinct y "%s" "%s"))\n' % (lo, hi)])
        q = [D2 + A + '(check-sat)', D2 + A + R + '(check-sat)']
        if r.random() < .3: q.reverse()
        if r.random() < .3: q.append(q[0])
        return q
    pmap(fac, list(zip(base[::2], base[1::2])) + [chain(i) for i in range(ctx.n(1200, 30000))] + [later_range(i) for i in range(ctx.n(60, 600))])
    shutil.rmtree(ctx.scratch, ignore_errors=True)
