"""Mechanical extraction of Rust items from /repo's current source, rewriting by token patterns, and
running Verus on the result.

The extraction works on tokens: comments and layout are dropped, everything else is kept.  A rewrite
rule has a `find` pattern over tokens (metavariables `$x` = balanced token sequence, `$x:id` = one
identifier, `$x:tt` = one token tree, `$x*` = possibly empty sequence) and a `put` text.  Rules are of
three kinds:
  ghost    inserts specification text only: `put` with the «...» parts removed must be token for token
           equal to `find` (checked here), so the executable text is untouched;
  desugar  replaces an expression form the verifier has no support for by an equivalent one;
  type     replaces a type or a path by the stand-in the prelude declares for it.
A rule that does not match as often as it says raises LostAnchor: the code no longer has the shape the
contract was written for, which says nothing about the property.
"""
import re, os, json, subprocess, time, hashlib

REPO = os.environ.get('VX_REPO', '/repo')

class LostAnchor(Exception):
    pass

# ---------------------------------------------------------------- tokens
PUNCT = ['<==>', '=~~=', '==>', '<==', '=~=', '!==', '===', '&&&', '|||', '<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
         '%=', '^=', '&=', '|=', '..', '<<']  # '>>' is left split (generics); joined when printed adjacent
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>b?r(?P<h>\#*)")
 |(?P<str>b?c?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<meta>\$[A-Za-z_]\w*(?::id|:tt|\*)?)
 |(?P<g>[«»])
 |(?P<p>%s|.)
''' % '|'.join(re.escape(p) for p in PUNCT), re.X | re.S)

class Tok:
    __slots__ = ('k', 't', 'line', 'adj')
    def __init__(s, k, t, line, adj):
        s.k, s.t, s.line, s.adj = k, t, line, adj
    def __repr__(s):
        return s.t

def tokenize(src):
    i, line, out, adj = 0, 1, [], False
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'raw'
        if m.group('raw') is not None:
            end = src.index('"' + m.group('h'), m.end()) + 1 + len(m.group('h'))
            t = src[i:end]; k = 'str'
        elif m.group('bc') is not None:
            d, j = 1, i + 2
            while d:
                a, b = src.find('/*', j), src.find('*/', j)
                if a != -1 and a < b: d += 1; j = a + 2
                else: d -= 1; j = b + 2
            line += src.count('\n', i, j); i = j; adj = False
            continue
        else:
            t = m.group(0)
        if k in ('ws', 'lc'):
            adj = False
        else:
            out.append(Tok(k, t, line, adj)); adj = True
        line += t.count('\n')
        i += len(t)
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].t in OPEN: d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LostAnchor('unbalanced')

def render(toks):
    out, line = [], None
    for i, t in enumerate(toks):
        if line and t.line and t.line != line:
            out.append('\n')
        elif out and not (t.k == 'p' and t.t == '>' and t.adj and toks[i-1].t == '>'):
            out.append(' ')
        if t.line: line = t.line
        out.append(t.t)
    return ''.join(out)

def texts(toks):
    return [t.t for t in toks]

# ---------------------------------------------------------------- items
class Source:
    def __init__(self, rel):
        self.rel = rel
        p = os.path.join(REPO, rel)
        try:
            self.toks = tokenize(open(p, encoding='utf-8').read())
        except OSError as e:
            raise LostAnchor('%s: %s' % (rel, e))

    def _impl_ranges(self, toks, name):
        """bodies of `impl ... name ... {`; name is 'Type' or 'Trait for Type'."""
        want = name.split()
        i = 0
        while i < len(toks):
            if toks[i].k == 'id' and toks[i].t in ('impl', 'trait') and (i == 0 or toks[i-1].t in ('}', ';', ']', '{', 'pub')):
                j = i + 1
                hdr = []
                while not (toks[j].k == 'p' and toks[j].t == '{'):
                    if toks[j].t in ('(', '['):
                        j = match_close(toks, j)
                    hdr.append(toks[j].t); j += 1
                if 'where' in hdr: hdr = hdr[:hdr.index('where')]
                # drop generics
                flat, d = [], 0
                for t in hdr:
                    if t == '<': d += 1
                    elif t == '>': d -= 1
                    elif d == 0 and not t.startswith("'"): flat.append(t)
                e = match_close(toks, j)
                if 'for' in want:
                    w = want; f = [x for x in flat]
                    ok = ('for' in f and f[:f.index('for')][-1:] == w[:1] and f[f.index('for')+1:][-1:] == w[-1:])
                else:
                    ok = ('for' not in flat and flat[-1:] == want)
                if ok: yield (j + 1, e)
                i = e
            i += 1

    def fn(self, path):
        """path: 'name' | 'Type::name' | 'Trait for Type::name', optionally '/nested' for a nested fn."""
        head, *nested = path.split('/')
        toks = self.toks
        if '::' in head:
            imp, name = head.rsplit('::', 1)
            ranges = list(self._impl_ranges(toks, imp))
        else:
            name, ranges = head, [(0, len(toks))]
        res = None
        for a, b in ranges:
            res = self._fn_in(toks, a, b, name, top=('::' not in head))
            if res: break
        if not res:
            raise LostAnchor('function %s not found in %s' % (path, self.rel))
        for nm in nested:
            a, ob, cb = res
            r2 = self._fn_in(toks, ob + 1, cb, nm, top=False, deep=True)
            if not r2: raise LostAnchor('nested function %s not found in %s' % (path, self.rel))
            res = r2
        a, ob, cb = res
        return Fn(path, self.rel, toks[a:ob], toks[ob:cb + 1])

    def _fn_in(self, toks, a, b, name, top, deep=False):
        i, depth = a, 0
        while i < b:
            t = toks[i]
            if t.k == 'p' and t.t in OPEN and not deep:
                # skip nested bodies unless searching deeply; mod bodies are not searched
                i = match_close(toks, i) + 1
                continue
            if t.k == 'id' and t.t == 'fn' and toks[i+1].t == name:
                s = i
                while s > a and toks[s-1].t in ('pub', 'const', 'unsafe', 'async', ')') :
                    if toks[s-1].t == ')':
                        k = s - 1
                        while toks[k].t != '(': k -= 1
                        if toks[k-1].t != 'pub': break
                        s = k - 1
                    else: s -= 1
                j = i
                while not (toks[j].k == 'p' and toks[j].t == '{'):
                    if toks[j].t in ('(', '['): j = match_close(toks, j)
                    if toks[j].t == ';': break
                    j += 1
                if toks[j].t == ';': i = j; continue
                return (s, j, match_close(toks, j))
            i += 1
        return None

    def item(self, kind, name):
        """struct / enum / const / type item text (tokens)."""
        toks = self.toks
        for i in range(len(toks) - 1):
            if toks[i].t == kind and toks[i+1].t == name:
                j = i
                while not (toks[j].k == 'p' and toks[j].t in ('{', ';')):
                    if toks[j].t in ('(', '['): j = match_close(toks, j)
                    j += 1
                e = match_close(toks, j) if toks[j].t == '{' and kind != 'const' else j
                if kind == 'const':
                    j = i
                    while toks[j].t != ';':
                        if toks[j].t in OPEN: j = match_close(toks, j)
                        j += 1
                    e = j
                return toks[i:e + 1]
        raise LostAnchor('%s %s not found in %s' % (kind, name, self.rel))

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i+1].t == '[':
            i = match_close(toks, i + 1) + 1
            continue
        out.append(toks[i]); i += 1
    return out

# ---------------------------------------------------------------- patterns
def _pat(s):
    return tokenize(s)

def _match_at(p, pi, toks, i, end, env):
    """match pattern p[pi:] at toks[i:end]; yields end index (first solution only)."""
    if pi == len(p):
        return i, env
    t = p[pi]
    if t.k == 'meta':
        name = t.t[1:]
        mode = 'seq1'
        if name.endswith(':id'): name, mode = name[:-3], 'id'
        elif name.endswith(':tt'): name, mode = name[:-3], 'tt'
        elif name.endswith('*'): name, mode = name[:-1], 'seq0'
        if name in env:
            prev = texts(env[name])
            n = len(prev)
            if texts(toks[i:i+n]) == prev:
                return _match_at(p, pi + 1, toks, i + n, end, env)
            return None
        if mode == 'id':
            if i < end and toks[i].k == 'id':
                return _match_at(p, pi + 1, toks, i + 1, end, dict(env, **{name: toks[i:i+1]}))
            return None
        if mode == 'tt':
            if i >= end: return None
            j = match_close(toks, i) + 1 if toks[i].t in OPEN and toks[i].k == 'p' else i + 1
            if toks[i].k == 'p' and toks[i].t in CLOSE: return None
            return _match_at(p, pi + 1, toks, j, end, dict(env, **{name: toks[i:j]}))
        j = i
        if mode == 'seq0':
            r = _match_at(p, pi + 1, toks, j, end, dict(env, **{name: []}))
            if r: return r
        while j < end:
            if toks[j].k == 'p' and toks[j].t in CLOSE: return None
            j = match_close(toks, j) + 1 if (toks[j].k == 'p' and toks[j].t in OPEN) else j + 1
            r = _match_at(p, pi + 1, toks, j, end, dict(env, **{name: toks[i:j]}))
            if r: return r
        return None
    if i < end and toks[i].t == t.t:
        return _match_at(p, pi + 1, toks, i + 1, end, env)
    return None

def find_all(toks, pat):
    p = _pat(pat)
    out, i = [], 0
    while i < len(toks):
        r = _match_at(p, 0, toks, i, len(toks), {})
        if r and r[0] > i:
            out.append((i, r[0], r[1])); i = r[0]
        else:
            i += 1
    return out

def _subst(put, env, line):
    out = []
    def raw(m):
        name = re.sub(r'(:id|:tt|\*)$', '', m.group(0)[1:])
        return ' '.join(texts(env[name]))
    for chunk in re.split(r'(«.*?»)', put, flags=re.S):
        if chunk.startswith('«'):
            body = re.sub(r'\$[A-Za-z_]\w*(?::id|:tt)?', raw, chunk[1:-1])
            if body.strip(): out.append(Tok('ghost', '\n' + body.strip() + '\n', 0, False))
            continue
        for t in tokenize(chunk):
            if t.k == 'meta':
                name = re.sub(r'(:id|:tt|\*)$', '', t.t[1:])
                out.extend(env[name])
            else:
                out.append(Tok(t.k, t.t, 0, t.adj))
    return out

def _no_ghost(s):
    return re.sub(r'«.*?»', ' ', s, flags=re.S)

def apply_rules(toks, rules, where):
    for r in rules:
        kind, find, put = r[0], r[1], r[2]
        want = r[3] if len(r) > 3 else 1
        if kind == 'ghost':
            if re.sub(r'(:id|:tt|\*)(?=\s|$)', '', ' '.join(texts(tokenize(_no_ghost(put))))) != \
               re.sub(r'(:id|:tt|\*)(?=\s|$)', '', ' '.join(texts(tokenize(find)))):
                raise AssertionError('ghost rule changes code: %s' % find)
        ms = find_all(toks, find)
        if want == '*': pass
        elif want == '+':
            if not ms: raise LostAnchor('%s: no match for `%s`' % (where, find))
        elif len(ms) != want:
            raise LostAnchor('%s: %d matches (expected %d) for `%s`' % (where, len(ms), want, find))
        for a, b, env in reversed(ms):
            toks = toks[:a] + _subst(put, env, toks[a].line) + toks[b:]
    return toks

class Fn:
    def __init__(self, path, rel, sig, body):
        self.path, self.rel, self.sig, self.body = path, rel, sig, body
        self.line = sig[0].line
        self.sha = hashlib.sha256(' '.join(texts(sig + body)).encode()).hexdigest()[:16]

    def emit(self, contract='', rules=(), ret=None, prefix='', proof_pre=''):
        sig = self.sig
        if ret:
            ms = find_all(sig, '->')
            if ms:
                a = ms[-1][0]
                # where clause
                w = [i for i, t in enumerate(sig) if t.t == 'where' and i > a]
                e = w[0] if w else len(sig)
                l = sig[a].line
                sig = sig[:a+1] + [Tok('p', '(', l, False), Tok('id', ret, l, False), Tok('p', ':', l, False)] + \
                      sig[a+1:e] + [Tok('p', ')', l, False)] + sig[e:]
        body = self.body
        if proof_pre: body = body[:1] + [Tok('ghost', '\n' + proof_pre + '\n', 0, False)] + body[1:]
        toks = sig + [Tok('g', '«CONTRACT»', sig[-1].line, False)] + body
        toks = apply_rules(toks, rules, self.path)
        s = render(toks)
        assert '«CONTRACT»' in s, self.path
        return prefix + s.replace('«CONTRACT»', '\n' + contract + '\n')

# ---------------------------------------------------------------- Verus
VERUS = '/usr/local/bin/verus'
UNDECIDED = ('rlimit', 'resource limit', 'not supported', 'unsupported', 'could not', 'internal error',
             'has been killed', 'panicked')
FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
        'arithmetic underflow/overflow', 'decreases not satisfied', 'division by zero', 'unreachable',
        'assertion not satisfied', 'bit shift', 'loop invariant', 'failed precondition', 'possible',
        'unable to prove', 'may be out of range', 'could not prove termination', 'not satisfied', 'assert_by', 'by(')

def run_verus(text, workdir, name, rlimit=60, timeout=300, extra=()):
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, name + '.rs')
    open(path, 'w').write(text)
    t0 = time.time()
    cmd = [VERUS, '--crate-type=lib', path, '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', '4',
           '--error-format=json'] + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', reason='timeout after %ds' % timeout, cmd=' '.join(cmd), wall=time.time() - t0,
                    verified=0, errors=0, failures=[], path=path)
    wall = time.time() - t0
    diags = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
            if isinstance(d, dict) and d.get('level') in ('error', 'error: internal compiler error') :
                diags.append(d)
        except ValueError:
            continue
    js = {}
    try:
        js = json.loads(p.stdout[p.stdout.index('{'):])
    except ValueError:
        pass
    vr = js.get('verification-results', {})
    res = dict(cmd=' '.join(cmd), wall=wall, path=path, verified=vr.get('verified', 0), errors=vr.get('errors', 0),
               smt_ms=js.get('times-ms', {}).get('smt', {}).get('smt-run', 0) if isinstance(js.get('times-ms', {}).get('smt'), dict) else 0,
               failures=[], diags=diags, raw=p.stderr[-4000:] if not js else '')
    if vr.get('success') and p.returncode == 0:
        res['status'] = 'verified'
        return res
    msgs = []
    for d in diags:
        m = d.get('message', '')
        if m.startswith('aborting due to') : continue
        spans = [(s['line_start'], s.get('label'), ''.join(x['text'] for x in s.get('text', [])).strip(), s.get('is_primary')) for s in d.get('spans', [])]
        msgs.append((m, spans, d.get('code'), d.get('rendered', '')))
    compile_err = vr.get('encountered-vir-error') or not vr or 'verified' not in vr
    und = [m for m in msgs if any(u in m[0].lower() for u in ('rlimit', 'resource limit'))]
    real = [m for m in msgs if m not in und and any(f in m[0].lower() for f in FAIL) and not m[2]]
    other = [m for m in msgs if m not in und and m not in real]
    if compile_err or (other and not real):
        res['status'] = 'lost'
        res['reason'] = '; '.join(m[0] for m in (other or msgs))[:800] or p.stderr[-800:]
    elif real and not other:
        res['status'] = 'failed'
        res['failures'] = real
        res['reason'] = '; '.join(m[0] for m in real)[:400]
    elif real:
        res['status'] = 'lost'
        res['reason'] = '; '.join(m[0] for m in other)[:800]
    else:
        res['status'] = 'undecided'
        res['reason'] = '; '.join(m[0] for m in und)[:400]
    return res
