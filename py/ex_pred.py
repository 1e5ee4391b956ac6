"""Bounded exploration of the feature counter: the real binary, run in a scratch directory."""
import random, os, subprocess, shutil
import runner
from sexp import parse_all

COL = {'str_concat': 'str.++', 'len': 'str.len', 'lex_ord': 'str.<', 'to_re': 'str.to_re', 'in_re': 'str.in_re', 're_none': 're.none',
       're_all': 're.all', 're_all_char': 're.allchar', 're_concat': 're.++', 're_union': 're.union', 're_intersect': 're.inter',
       're_kleene_star': 're.*', 'ref_clos_lex_ord': 'str.<=', 'sing_str_at': 'str.at', 'substr': 'str.substr', 'prefix_of': 'str.prefixof',
       'suffix_of': 'str.suffixof', 'contains': 'str.contains', 'index_of': 'str.indexof', 'replace': 'str.replace', 'replace_all': 'str.replace_all',
       'replace_re': 'str.replace_re', 'replace_re_all': 'str.replace_re_all', 're_compl': 're.comp', 're_diff': 're.diff',
       're_kleene_cross': 're.+', 're_opt': 're.opt', 're_range': 're.range', 're_pow': 're.^', 're_loop': 're.loop', 'is_digit': 'str.is_digit',
       'to_code': 'str.to_code', 'from_code': 'str.from_code', 'to_int': 'str.to_int', 'from_int': 'str.from_int'}
OPS = set(COL.values())
# the columns the tool documents for each kind of dataset (README: only columns with a non-zero value somewhere)
NEED = {'smtcomp': 17, 'script': 17, 'kepler': 2, 'other': 35}

def cnt(t, c):
    if isinstance(t, str):
        if t in OPS: c[t] = c.get(t, 0) + 1
        return
    if not t: return
    if t[0] == 'let':
        for _, e in t[1]: cnt(e, c)
        return cnt(t[2], c)
    if t[0] in ('forall', 'exists'): return cnt(t[2], c)
    if t[0] == '!': return cnt(t[1], c)
    if isinstance(t[0], list) and t[0][0] == '_':
        if t[0][1] in OPS: c[t[0][1]] = c.get(t[0][1], 0) + 1
    elif isinstance(t[0], str): cnt(t[0], c)
    for x in t[1:]: cnt(x, c)

class Gen:
    def __init__(s, r, bias): s.r, s.bias = r, bias
    def pick(s, l):
        b = [k for k in l if k in s.bias]
        return s.r.choice(b) if b and s.r.random() < .6 else s.r.choice(l)
    def S(s, d):
        r = s.r
        if d <= 0: return r.choice(['x', 'y', '"a"', '"str.++"', '"re.all"', '(ite p x "b")'])
        k = s.pick(['str.++', 'str.at', 'str.substr', 'str.replace', 'str.replace_all', 'str.replace_re', 'str.replace_re_all', 'str.from_code', 'str.from_int', 'leaf', 'let'])
        if k == 'leaf': return s.S(0)
        if k == 'let': return '(let ((v %s)) (str.++ v v %s))' % (s.S(d - 1), s.S(d - 1))
        if k == 'str.++': return '(str.++ %s)' % ' '.join(s.S(d - 1) for _ in range(r.choice([2, 2, 3, 4])))
        if k == 'str.at': return '(str.at %s %s)' % (s.S(d - 1), s.I(d - 1))
        if k == 'str.substr': return '(str.substr %s %s %s)' % (s.S(d - 1), s.I(d - 1), s.I(d - 1))
        if k in ('str.replace', 'str.replace_all'): return '(%s %s %s %s)' % (k, s.S(d - 1), s.S(d - 1), s.S(d - 1))
        if k in ('str.replace_re', 'str.replace_re_all'): return '(%s %s %s %s)' % (k, s.S(d - 1), s.R(d - 1), s.S(d - 1))
        return '(%s %s)' % (k, s.I(d - 1))
    def I(s, d):
        r = s.r
        if d <= 0: return r.choice(['0', '1', 'n', '7'])
        k = s.pick(['str.len', 'str.indexof', 'str.to_code', 'str.to_int', '+', '-', 'leaf'])
        if k == 'leaf': return s.I(0)
        if k == 'str.indexof': return '(str.indexof %s %s %s)' % (s.S(d - 1), s.S(d - 1), s.I(d - 1))
        if k in '+-': return '(%s %s %s)' % (k, s.I(d - 1), s.I(d - 1))
        return '(%s %s)' % (k, s.S(d - 1))
    def R(s, d):
        r = s.r
        if d <= 0: return r.choice(['re.none', 're.all', 're.allchar', '(str.to_re "k")', '(re.range "a" "z")'])
        k = s.pick(['re.++', 're.union', 're.inter', 're.*', 're.comp', 're.diff', 're.+', 're.opt', 're.range', 're.^', 're.loop', 'str.to_re', 'leaf'])
        if k == 'leaf': return s.R(0)
        if k == 'str.to_re': return '(str.to_re %s)' % s.S(d - 1)
        if k == 're.range': return '(re.range %s %s)' % (s.S(0), s.S(0))
        if k in ('re.++', 're.union', 're.inter', 're.diff'): return '(%s %s)' % (k, ' '.join(s.R(d - 1) for _ in range(r.choice([2, 2, 3]))))
        if k == 're.^': return '((_ re.^ %d) %s)' % (r.randrange(5), s.R(d - 1))
        if k == 're.loop': return '((_ re.loop %d %d) %s)' % (r.randrange(3), 3 + r.randrange(3), s.R(d - 1))
        return '(%s %s)' % (k, s.R(d - 1))
    def B(s, d):
        r = s.r
        k = s.pick(['=', 'distinct', 'str.<', 'str.<=', 'str.prefixof', 'str.suffixof', 'str.contains', 'str.in_re', 'str.is_digit', 'and', 'or', 'not', '=>', '>', 'ite', 'let', 'q'])
        if k in ('and', 'or', 'not', '=>', 'ite', 'let', 'q') and d <= 0: return 'p'
        if k in ('=', 'distinct'): return '(%s %s %s)' % (k, s.S(d - 1), s.S(d - 1))
        if k in ('str.<', 'str.<='): return '(%s %s)' % (k, ' '.join(s.S(d - 1) for _ in range(r.choice([2, 2, 3]))))
        if k in ('str.prefixof', 'str.suffixof', 'str.contains'): return '(%s %s %s)' % (k, s.S(d - 1), s.S(d - 1))
        if k == 'str.in_re': return '(str.in_re %s %s)' % (s.S(d - 1), s.R(d - 1))
        if k == 'str.is_digit': return '(str.is_digit %s)' % s.S(d - 1)
        if k == 'not': return '(not %s)' % s.B(d - 1)
        if k == '>': return '(> %s %s)' % (s.I(d - 1), s.I(d - 1))
        if k == 'ite': return '(ite %s %s %s)' % (s.B(d - 1), s.B(d - 1), s.B(d - 1))
        if k == 'let': return '(let ((w %s) (u %s)) (and w (= u %s)))' % (s.B(d - 1), s.S(d - 1), s.S(d - 1))
        if k == 'q': return '(%s ((z String)) (or (= z %s) %s))' % (r.choice(['forall', 'exists']), s.S(d - 1), s.B(d - 1))
        return '(%s %s)' % (k, ' '.join(s.B(d - 1) for _ in range(r.choice([2, 3]))))
    def script(s):
        r = s.r
        out = ['(declare-const x String)', '(declare-fun y () String)', '(declare-const p Bool)', '(declare-const n Int)']
        if r.random() < .3: out.append('(define-fun f ((a String)) String (str.++ a "q"))')
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])): out.append('(assert %s)' % s.B(r.choice([0, 1, 2, 3])))
        if r.random() < .5: out.append('(check-sat)')
        return '\n'.join(out) + '\n'

def build():
    tgt = os.path.join(runner.VERIF, 'build', 'pred')
    e = runner.cargo_env(); e['CARGO_TARGET_DIR'] = tgt
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(runner.REPO, 'amzn-smt-prediction', 'Cargo.toml')],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise runner.BuildError(r.stdout[-6000:])
    return os.path.join(tgt, 'debug', 'amzn-smt-prediction')

def p01(ctx):
    """rows of the CSV against counts made by an independent reader"""
    ctx.rule('random benchmark lists for every dataset kind, biased towards one operator at a time; the real binary is run in a scratch directory; '
             'key = the rows it wrote')
    exe = build()
    rnd = random.Random(ctx.seed * 7919 + 3)
    how = 'write the benchmarks, one path per line in a list, and run: amzn-smt-prediction <dataset> list out; look at off_features_out.csv'
    os.makedirs(ctx.scratch, exist_ok=True)
    try:
        for i in range(ctx.n(140, 2500)):
            if ctx.stop(): return
            ds = ['script', 'other', 'smtcomp', 'kepler'][i % 4]
            d = os.path.join(ctx.scratch, 'r%d' % i)
            os.makedirs(d)
            pre = 'SMT_Comp_2020' if ds in ('smtcomp', 'kepler') else './'
            want, texts, names = [], [], []
            for j in range(rnd.choice([1, 2, 3, 6])):
                bias = set(rnd.sample(sorted(OPS), 3)) | {'re.^' if i % 3 else 're.loop'}
                t = Gen(rnd, bias).script()
                name = rnd.choice(['b%d.smt2', 'z%d.smt2', 'a%d.smt2']) % j
                if rnd.random() < .2 and names:
                    name = rnd.choice(names)        # the same benchmark listed twice
                    t = open(os.path.join(d, pre + name)).read()
                open(os.path.join(d, pre + name), 'w').write(t)
                names.append(name); texts.append(t)
                c = {}
                for cmd in parse_all(t):
                    if cmd[0] == 'assert': cnt(cmd[1], c)
                want.append(c)
            open(os.path.join(d, 'list'), 'w').write('\n'.join(names) + rnd.choice(['', '\n']))
            r = subprocess.run([exe, ds, 'list', 'out'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            inp = 'dataset %s\n' % ds + ''.join('--- %s\n%s' % x for x in zip(names, texts))
            if r.returncode:
                ctx.violation('the feature counter fails on a valid list', inp, (r.stdout + r.stderr)[-1500:], how); continue
            rows = open(os.path.join(d, 'off_features_out.csv')).read().split('\n')
            head = rows[0].split(',')
            body = rows[1:-1]
            ctx.count((ds, tuple(body)), inp + '=> ' + '\n'.join(rows))
            if rows[-1] != '' or len(body) != len(names):
                ctx.violation('one row per listed benchmark', inp, 'rows: %r' % rows, how); continue
            if len(set(head)) != len(head) or any(h not in COL for h in head) or len(head) != NEED[ds]:
                ctx.violation('header', inp, 'header: %r' % head, how); continue
            for k, (b, c) in enumerate(zip(body, want)):
                v = b.split(',')
                w = [str(c.get(COL[h], 0)) for h in head]
                if v != w:
                    ctx.violation('a count is wrong or in another column', inp,
                                  'row %d (%s): ' % (k + 1, names[k]) + '; '.join('%s: counted %s, the benchmark has %s' % (h, a, e) for h, a, e in zip(head, v + ['-'] * 40, w) if a != e) +
                                  ('' if len(v) == len(w) else '; %d values under %d headers' % (len(v), len(w))), how)
                    break
            shutil.rmtree(d)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
