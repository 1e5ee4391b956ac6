"""Bounded exploration of the string-function updater (public API), against an independent reference."""
import random, re, time
from runner import Shim, pmap
from sexp import parse_all, show

HOW = 'cd /verif/py && python3 ask.py updater modernize FILE (FILE = the input; the real parse + modernize_string_fcts is called; the binary prints the same)'
HEX = '0123456789abcdefABCDEF'
LETTER = dict(a='07', b='08', f='0C', n='0A', r='0D', t='09', v='0B')

def z3conv(s):
    out, i = [], 0
    while i < len(s):
        if s[i] != '\\': out.append(s[i]); i += 1
        elif i + 1 == len(s): out.append('\\'); i += 1
        elif s[i+1] in LETTER: out.append('\\u{%s}' % LETTER[s[i+1]]); i += 2
        elif s[i+1] == 'x' and i + 3 < len(s) and s[i+2] in HEX and s[i+3] in HEX: out.append('\\u{%s}' % s[i+2:i+4]); i += 4
        else: out.append(s[i:i+2]); i += 2
    return ''.join(out)

def conv_lit(tok):
    body = tok[1:-1].replace('""', '"')
    return '"' + z3conv(body).replace('"', '""') + '"'

REN = {'str.to.re': ('str.to_re', 1), 'str.in.re': ('str.in_re', 2), 'str.to.int': ('str.to_int', 1), 'int.to.str': ('str.from_int', 1)}

def conv(t, bound=frozenset()):
    """reference translation of a term"""
    if isinstance(t, str):
        if t.startswith('"'): return conv_lit(t)
        return 're.none' if t == 're.nostr' else t
    if not t: return t
    if t[0] == 'let': return ['let', [[n, conv(e)] for n, e in t[1]], conv(t[2])]
    if t[0] in ('forall', 'exists'): return [t[0], t[1], conv(t[2])]
    if t[0] == '_': return t
    a = [conv(x) for x in t[1:]]
    if isinstance(t[0], str) and t[0] in REN: return [REN[t[0]][0]] + a
    if t[0] == 're.loop' and len(a) == 3: return [['_', 're.loop', a[1], a[2]], a[0]]
    return [t[0] if isinstance(t[0], str) else t[0]] + a

ARITH = {'+', '-', '*', '>=', '>', '<=', '<'}
def has_arith(t):
    if isinstance(t, str): return False
    if t and t[0] == 'let': return any(has_arith(e) for _, e in t[1]) or has_arith(t[2])
    if t and t[0] in ('forall', 'exists'): return has_arith(t[2])
    return bool(t) and ((isinstance(t[0], str) and t[0] in ARITH) or any(has_arith(x) for x in t[1:]))

def conv_script(cmds):
    out, arith, logic = [], False, False
    for c in cmds:
        if c[0] in ('assert',): arith |= has_arith(c[1]); out.append([c[0], conv(c[1])])
        elif c[0] in ('define-fun', 'define-fun-rec'): arith |= has_arith(c[4]); out.append(c[:4] + [conv(c[4])])
        elif c[0] == 'get-value' or c[0] == 'check-sat-assuming': out.append(c)
        elif c[0] == 'set-logic': logic = True; out.append(c)
        else: out.append(c)
    if not logic and out:
        i = 0
        while i < len(out) and out[i][0] == 'set-option': i += 1
        out.insert(i, ['set-logic', 'QF_SLIA' if arith else 'QF_S'])
    return out

class UGen:
    def __init__(self, r): self.r = r
    def lit(self):
        r = self.r
        pieces = ['\\', '\\\\', '\\x', '\\x4', '\\x41', '\\xfF', '\\xg0', '\\x0g', '\\a', '\\b', '\\f', '\\n', '\\r', '\\t', '\\v', '\\u{41}', '\\u0041', '\\e', '\\"',
                  'a', 'x', 'b', '4', '1', 'n', 'hello', ' ', '""', ';', '|', '(', 'é', '日', '\U0001F600', '\\x\\n', '\\x4\\x41', '\\\\n', '\\A', '\\X41']
        s = ''.join(r.choice(pieces) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        if s.count('"') % 2: s = s.replace('\\"', '')
        return '"%s"' % s.replace('\\"', '')
    def S(self, d):
        r = self.r
        if d <= 0 or r.random() < .3: return r.choice(['x', 'y', '|a b|']) if r.random() < .5 else self.lit()
        k = r.choice(['++', 'from', 'from_int', 'at', 'replace', 'ite', 'let', 'uf', 'substr'])
        if k == '++': return '(str.++ %s)' % ' '.join(self.S(d-1) for _ in range(r.choice([2, 3])))
        if k == 'from': return '(int.to.str %s)' % self.I(d-1)
        if k == 'from_int': return '(str.from_int %s)' % self.I(d-1)
        if k == 'at': return '(str.at %s %s)' % (self.S(d-1), self.I(d-1))
        if k == 'substr': return '(str.substr %s %s %s)' % (self.S(d-1), self.I(0), self.I(0))
        if k == 'replace': return '(str.replace %s %s %s)' % (self.S(d-1), self.S(0), self.S(d-1))
        if k == 'ite': return '(ite %s %s %s)' % (self.B(d-1), self.S(d-1), self.S(d-1))
        if k == 'let': return '(let ((w %s)) (str.++ w %s))' % (self.S(d-1), self.S(d-1))
        return '(myfun %s)' % self.S(d-1)
    def I(self, d):
        r = self.r
        if d <= 0 or r.random() < .4: return r.choice(['i', '0', '1', '12', 'i'])
        k = r.choice(['len', 'to', 'to_int', 'indexof', 'code'] + (['+', '-', '*', 'neg'] if self.arith else []))
        if k == 'len': return '(str.len %s)' % self.S(d-1)
        if k == 'to': return '(str.to.int %s)' % self.S(d-1)
        if k == 'to_int': return '(str.to_int %s)' % self.S(d-1)
        if k == 'indexof': return '(str.indexof %s %s %s)' % (self.S(d-1), self.S(0), self.I(0))
        if k == 'code': return '(str.to_code %s)' % self.S(d-1)
        if k == 'neg': return '(- %s)' % self.I(d-1)
        return '(%s %s %s)' % (k, self.I(d-1), self.I(d-1))
    def R(self, d):
        r = self.r
        if d <= 0 or r.random() < .3: return r.choice(['re.nostr', 're.none', 're.all', 're.allchar', '(str.to.re %s)' % self.lit(), '(str.to_re %s)' % self.lit(), '(re.range "a" "z")'])
        k = r.choice(['loop', 'loop', 'iloop', '++', 'union', '*', 'opt', 'comp', 'tore', 'pow'])
        if k == 'loop': return '(re.loop %s %d %d)' % (self.R(d-1), r.choice([0, 1, 2, 3, 9, 12, 100]), r.choice([0, 3, 12, 2**40]))
        if k == 'iloop': return '((_ re.loop %d %d) %s)' % (r.randrange(3), r.randrange(5), self.R(d-1))
        if k == 'pow': return '((_ re.^ %d) %s)' % (r.randrange(5), self.R(d-1))
        if k == 'tore': return '(str.to.re %s)' % self.S(d-1)
        if k in ('++', 'union'): return '(re.%s %s %s)' % (k, self.R(d-1), self.R(d-1))
        return '(re.%s %s)' % (k, self.R(d-1))
    def B(self, d):
        r = self.r
        ks = ['=', 'in.re', 'in.re', 'in_re', 'prefixof', 'contains', 'not', 'and', 'or', 'p', 'q', 'forall', 'let', '=>', 'inteq', 'digit', 'ann' if 0 else 'p'] + (['<=', '>=', '<', '>'] if self.arith else [])
        k = r.choice(ks)
        if d <= 0 and k in ('not', 'and', 'or', 'forall', 'let', '=>'): k = 'p'
        if k == 'p': return 'p'
        if k == 'q': return r.choice(['(pred %s)' % self.S(d-1), '(predi %s)' % self.I(d-1)])
        if k == '=': return '(= %s %s)' % (self.S(d-1), self.S(d-1))
        if k == 'inteq': return '(= %s %s)' % (self.I(d-1), self.I(d-1))
        if k in ('in.re', 'in_re'): return '(str.%s %s %s)' % (k, self.S(d-1), self.R(d))
        if k in ('prefixof', 'contains'): return '(str.%s %s %s)' % (k, self.S(d-1), self.S(d-1))
        if k == 'digit': return '(str.is_digit %s)' % self.S(d-1)
        if k == 'not': return '(not %s)' % self.B(d-1)
        if k == 'forall': return '(%s ((v String)) %s)' % (r.choice(['forall', 'exists']), self.B(d-1))
        if k == 'let': return '(let ((w %s) (k %s)) (and p %s))' % (self.S(d-1), self.I(d-1), self.B(d-1))
        if k in ('<=', '>=', '<', '>'): return '(%s %s %s)' % (k, self.I(d-1), self.I(d-1))
        return '(%s %s %s)' % (k, self.B(d-1), self.B(d-1))
    def script(self):
        r = self.r
        self.arith = r.random() < .5
        out = []
        opts = ['(set-option :produce-models true)', '(set-option :timeout 5)', '(set-option :a "b\\n")']
        for _ in range(r.choice([0, 0, 1, 2])): out.append(r.choice(opts[:2]))
        if r.random() < .25: out.append('(set-logic %s)' % r.choice(['ALL', 'QF_S', 'QF_SLIA']))
        if r.random() < .3: out.append('(set-info :status sat)')
        if r.random() < .15: return '\n'.join(out)
        out += ['(declare-const x String)', '(declare-fun y () String)', '(declare-const |a b| String)', '(declare-const i Int)', '(declare-const p Bool)',
                '(declare-fun myfun (String) String)', '(declare-fun pred (String) Bool)', '(declare-fun predi (Int) Bool)']
        if r.random() < .2: out.append('(define-fun ff ((v String)) Bool %s)' % self.B(2))
        if r.random() < .15: out.append(r.choice(opts[:2]))
        for _ in range(r.choice([1, 1, 2, 3])): out.append('(assert %s)' % self.B(r.choice([1, 2, 3, 4])))
        if r.random() < .1: out.append('(set-logic ALL)')
        if r.random() < .3: out.append('(push 1)')
        out += ['(check-sat)'] + (['(get-model)', '(exit)'] if r.random() < .3 else [])
        return '\n'.join(out)

def _diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return 'command %d: expected %s\n   got %s' % (i, show(x)[:1500], show(y)[:1500])
    return 'expected %d commands, got %d' % (len(a), len(b))

def _strip(cmds, mode):
    return cmds

def _updater(ctx, mode):
    exe = ctx.exe('updater')
    def fac():
        s = Shim(exe, timeout=20)
        def f(i):
            if ctx.stop(): return
            r = random.Random('%s/%d/%d' % (mode, ctx.seed, i))
            smt = UGen(r).script() if mode != 'U01' else \
                '(declare-const x String)\n(assert (= x %s))\n(assert (str.in_re x (str.to_re %s)))\n(check-sat)' % (UGen(r).lit(), UGen(r).lit())
            e = s.ask('echo', smt)
            if e[0] != 'OK': return
            m = s.ask('modernize', smt)
            if m[0] != 'OK':
                ctx.violation('the updater fails', smt, ' '.join(m), HOW); return
            try: src, got = parse_all(e[1]), parse_all(m[1])
            except Exception as x:
                ctx.violation('the output is not a script', smt, m[1], HOW); return
            want = conv_script(src)
            ctx.count(smt, smt)
            L = lambda c: c[0] == 'set-logic'
            if mode == 'U03':
                w, g = [c if c[0] in ('set-logic', 'set-option') else c[0] for c in want], [c if c[0] in ('set-logic', 'set-option') else c[0] for c in got]
                if w != g: ctx.violation('wrong logic, or wrong place for it', smt, _diff(want, got), HOW)
                return
            w, g = [c for c in want if not L(c)], [c for c in got if not L(c)]
            if mode == 'U02':
                # literals are the business of U01
                blank = lambda t: ('""' if t.startswith('"') else t) if isinstance(t, str) else [blank(x) for x in t]
                w, g = blank(w), blank(g)
            if mode == 'U01':
                lits = lambda t: ([t] if t.startswith('"') else []) if isinstance(t, str) else [y for x in t for y in lits(x)]
                w, g = [[x] for x in lits(w)], [[x] for x in lits(g)]
            if w != g: ctx.violation('the output differs from the reference translation', smt, _diff(w, g), HOW)
        return f, s.stop
    pmap(fac, range(ctx.n(6000, 100000)), deadline=time.time() + (200 if not ctx.thorough else 1500))

def u01(ctx):
    ctx.rule('literals made of complete, incomplete and nested escape sequences; the literals of the output equal the reference conversion of those of the input')
    _updater(ctx, 'U01')
    # every string of length <= 4 over the characters the scanner distinguishes, in one script per batch
    import itertools
    exe = ctx.exe('updater'); s = Shim(exe, timeout=30)
    al = '\\xan4gF'
    allw = [''.join(t) for n in range(0, 6 if ctx.thorough else 5) for t in itertools.product(al, repeat=n)]
    ctx.rule('exhaustive: all strings of length <= %d over {\\ x a n 4 g F}' % (5 if ctx.thorough else 4))
    for k in range(0, len(allw), 400):
        b = allw[k:k+400]
        smt = '(declare-const x String)\n' + '\n'.join('(assert (= x "%s"))' % w for w in b)
        m = s.ask('modernize', smt)
        if m[0] != 'OK': ctx.violation('the updater fails', smt, ' '.join(m), HOW); break
        got = [c[1][2] for c in parse_all(m[1]) if c[0] == 'assert']
        for w, g in zip(b, got):
            ctx.count(w)
            if g != '"%s"' % z3conv(w):
                ctx.violation('a literal is converted wrongly', '(declare-const x String)\n(assert (= x "%s"))' % w, 'expected "%s", got %s' % (z3conv(w), g), HOW); break
    s.stop()
def u02(ctx):
    ctx.rule('random scripts with old and new string functions nested in all term forms; the output (without literals and set-logic) equals an independent reference translation')
    _updater(ctx, 'U02')
    # the known limitation: the parser drops attributes
    s = Shim(ctx.exe('updater'), timeout=20)
    smt = '(declare-const p Bool)\n(assert (! p :named a1))\n(check-sat)'
    m = s.ask('modernize', smt)
    if m[0] == 'OK' and ':named' not in m[1]:
        ctx.violation('the name of an assertion is lost', smt, m[1], HOW, finding='named-attribute')
    s.stop()
def u03(ctx):
    ctx.rule('random scripts with/without options, set-logic (anywhere) and arithmetic (anywhere in a term); set-logic and set-option commands and the command order of the output equal the reference')
    _updater(ctx, 'U03')
