"""A proof unit = one Verus file assembled from functions extracted from /repo plus contracts."""
import re, os, importlib, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx

class U:
    """Collects the parts of a unit. `reach` adds to every extracted function a postcondition that nothing
    can prove (an uninterpreted predicate of its own): the vacuity guard expects every one of them to fail."""
    def __init__(self, reach=False):
        self.parts, self.fns, self.rules, self.reach, self.trusted_notes = [], [], [], reach, []
        self.preds = []
        self._src = {}

    def src(self, rel):
        if rel not in self._src: self._src[rel] = vx.Source(rel)
        return self._src[rel]

    def add(self, text):
        self.parts.append(text)

    def item(self, rel, kind, name, rules=(), prefix=''):
        toks = vx.apply_rules(vx.strip_attrs(self.src(rel).item(kind, name)), rules, name)
        self.parts.append(prefix + vx.render(toks))

    def fn(self, rel, path, requires='', ensures='', tail='', rules=(), ret='ret', prefix='', wrap=None, pre='', case=None):
        """case = (suffix, condition): one case of a case split over the precondition; the function is emitted under the name with the suffix"""
        if case: requires = requires.strip().rstrip(',') + ', ' + case[1]
        f = self.src(rel).fn(path)
        k = len(self.fns)
        ens = ensures.strip()
        if self.reach:
            p = 'vx_reach_%d' % k
            self.preds.append('pub uninterp spec fn %s() -> bool;' % p)
            ens = (ens.rstrip().rstrip(',') + ',\n' if ens else '') + p + '()'
        c = ''
        if requires.strip(): c += '    requires ' + requires.strip().rstrip(',') + ',\n'
        if ens: c += '    ensures ' + ens.rstrip(',') + ',\n'
        if tail.strip(): c += '    ' + tail.strip()
        f.sig = vx.strip_attrs(f.sig)
        text = f.emit(contract=c, rules=rules, ret=ret, prefix=prefix, proof_pre=pre)
        if case:
            nm = path.split('::')[-1].split('/')[-1]; assert re.search(r'fn %s\b' % nm, text); text = re.sub(r'fn %s\b' % nm, 'fn %s_%s' % (nm, case[0]), text, count=1)
        if wrap: text = wrap % text
        self.fns.append(dict(path=path, file=rel, line=f.line, sha=f.sha))
        self.rules += [dict(fn=path, kind=r[0], find=r[1], put=r[2]) for r in rules]
        self.parts.append('// VXFN %d %s\n' % (k, path) + text + '\n// VXEND %d\n' % k)

    def text(self):
        return '#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_must_use, unreachable_patterns, unused_assignments, non_camel_case_types)]\n' \
               'use vstd::prelude::*;\nverus! {\n' + '\n'.join(self.preds) + '\n' + '\n'.join(self.parts) + '\n} // verus!\n'

TRUST = re.compile(r'external_body|assume_specification|\badmit\s*\(|\bassume\s*\(|\baxiom\b|external_type_specification|external_trait|external\]')

def scan_trusted(text):
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if TRUST.search(l):
            ctx = l.strip()
            if ctx.startswith('//'): continue
            if ('external_body' in l or 'axiom' in l) and not re.search(r'\b(fn|struct)\b', l):
                for j in range(i + 1, min(i + 4, len(lines))):
                    if re.search(r'\b(fn|struct|impl)\b', lines[j]):
                        ctx += ' ' + lines[j].strip(); break
            out.append(ctx[:160])
    return out

def load(name):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'proofs')
    if d not in sys.path: sys.path.insert(0, d)
    return importlib.import_module(name)

def which_fn(text, line):
    cur = None
    for i, l in enumerate(text.split('\n'), 1):
        m = re.match(r'// VXFN (\d+) (.*)', l)
        if m: cur = m.group(2)
        if l.startswith('// VXEND'):
            if i >= line and cur: return cur
            cur = None
        if i >= line: return cur or 'lemma/spec'
    return cur or 'lemma/spec'

def run(name, workdir, rlimit=None, timeout=None, reach=True, retry=True):
    """Returns a dict: status verified|failed|undecided|lost|vacuous, functions, obligations, ..."""
    mod = load(name)
    rl = rlimit or getattr(mod, 'RLIMIT', 60)
    to = timeout or getattr(mod, 'TIMEOUT', 240)
    try:
        u = U(); mod.build(u); text = u.text()
    except vx.LostAnchor as e:
        return dict(unit=name, status='lost', reason='lost anchor: %s' % e, functions=[], obligations=0, discharged=0, wall=0)
    box = {}
    if reach:
        u2 = U(reach=True); mod.build(u2)
        t2 = u2.text()
        th = threading.Thread(target=lambda: box.update(r=vx.run_verus(t2, workdir, name + '_reach', rlimit=rl, timeout=to)))
        th.start()
    r = vx.run_verus(text, workdir, name, rlimit=rl, timeout=to)
    if r['status'] == 'failed' and retry:
        # a brittle query is not a violation: try again with another solver seed and more resources
        r2 = vx.run_verus(text, workdir, name, rlimit=rl * 3, timeout=to, extra=['--smt-option', 'smt.random_seed=7'])
        if r2['status'] != 'failed': r = r2
    out = dict(unit=name, status=r['status'], reason=r.get('reason', ''), functions=u.fns,
               obligations=r['verified'] + r['errors'], discharged=r['verified'], wall=r['wall'], smt_ms=r.get('smt_ms', 0),
               cmd=r['cmd'], trusted=scan_trusted(text), notes=getattr(mod, 'NOTES', ''), desugar=[x for x in u.rules if x['kind'] != 'ghost'],
               failures=[])
    for m, spans, code, rendered in r['failures']:
        ln = [s for s in spans if s[3]] or spans
        fnn = which_fn(text, ln[0][0]) if ln else '?'
        out['failures'].append(dict(message=m, function=fnn, at=[dict(line=s[0], label=s[1], text=s[2]) for s in spans], rendered=rendered[:1500]))
    if r['status'] == 'verified':
        if r['verified'] == 0:
            out['status'] = 'vacuous'; out['reason'] = 'no obligations'
        elif reach:
            th.join()
            r2 = box['r']
            bad = set()
            for d in r2['diags']:
                for s in d.get('spans', []):
                    for x in s.get('text', []):
                        for mm in re.finditer(r'vx_reach_(\d+)', x['text']): bad.add(int(mm.group(1)))
            miss = [u2.fns[k]['path'] for k in range(len(u2.fns)) if k not in bad]
            und = any('rlimit' in d.get('message', '').lower() or 'resource' in d.get('message', '').lower() for d in r2['diags'])
            out['reach'] = dict(expected=len(u2.fns), refuted=len(bad), missing=miss, wall=r2['wall'])
            if miss and not und and r2['status'] == 'failed':
                out['status'] = 'vacuous'; out['reason'] = 'end not reachable: ' + ', '.join(miss)
            elif r2['status'] == 'verified':
                out['status'] = 'vacuous'; out['reason'] = 'every end unreachable'
    return out

if __name__ == '__main__':
    import json
    for n in sys.argv[1:]:
        r = run(n, '/tmp/vxwork', retry=False)
        fl = r.pop('failures', [])
        print(json.dumps({k: v for k, v in r.items() if k not in ('desugar', 'functions', 'trusted', 'cmd')}, indent=1)[:3000])
        for f in fl: print('FAIL', f['function'], f['message']); print(f['rendered'])
        if r['status'] in ('lost', 'undecided'):
            t = '/tmp/vxwork/' + n + '.rs'
