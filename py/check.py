#!/usr/bin/env python3
"""check.py <PROPERTY> — decides one property on /repo's current tree.

1. every proof unit of the property is regenerated from the current source and given to Verus;
2. the bounded explorers of the property drive the real code (shims built from the current source);
3. a concrete failing input is a violation with a replay file; an obligation that fails without one is
   reported with `no-failing-input-found`; lost anchors, unsupported constructs and resource limits say
   nothing about the property and are only noted.
Exit codes: 0 and 1 only.
"""
import sys, os, json, time, traceback, threading, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, unit, plan
from concurrent.futures import ThreadPoolExecutor

VERIF = runner.VERIF
CORES = min(8, os.cpu_count() or 4)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.deep = False
        self.exes = {}
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rules = []
        self.bad = []
        self.notes = []
        self.findings = []
        self.scratch = os.path.join(VERIF, 'build', 'scratch', '%s-%d' % (prop, os.getpid()))

    def exe(self, name):
        """path of the shim, or raises BuildError"""
        if name not in self.exes:
            self.exes[name] = runner.build(name)
        return self.exes[name]

    def n(self, quick, thorough=None, deep=None):
        if self.thorough: return thorough if thorough is not None else quick * 20
        if self.deep: return deep if deep is not None else quick * 6
        return quick

    def count(self, key, sample=None, n=1):
        with self.lock:
            self.evals += n
            if key is not None: self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
            if sample is not None and len(self.samples) < 4: self.samples.append(str(sample)[:1500])

    def violation(self, what, inp, detail, how='', finding=None):
        """what: short kind; inp: the input; detail: what went wrong."""
        with self.lock:
            (self.findings if finding else self.bad).append(dict(what=what, input=inp, detail=detail, how=how, finding=finding))

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def stop(self):
        return len(self.bad) >= 5


def run_units(names, work):
    res = []
    with ThreadPoolExecutor(max_workers=max(1, CORES // 4)) as ex:
        for r in ex.map(lambda n: safe_unit(n, work), names):
            res.append(r)
    return res

def safe_unit(n, work):
    try:
        return unit.run(n, work)
    except Exception as e:
        return dict(unit=n, status='undecided', reason='internal: %r' % e + traceback.format_exc()[-800:], functions=[],
                    obligations=0, discharged=0, wall=0, failures=[])

def explore(ctx, fns):
    for f in fns:
        if ctx.stop(): break
        try:
            f(ctx)
        except runner.BuildError as e:
            ctx.notes.append('%s: the driver does not build against this tree: %s' % (f.__name__, str(e)[-1500:]))
        except Exception:
            ctx.notes.append('%s: internal error of the explorer: %s' % (f.__name__, traceback.format_exc()[-1500:]))

def known(prop):
    """findings listed in known_findings.txt: key -> description"""
    out, fixed = {}, []
    for l in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8'):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            k, d = l.split(' ', 3)[2:4]
            out[k[len('key='):]] = d
        elif l.startswith('fixed: property=%s ' % prop):
            fixed.append(l)
    return out, fixed

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    p = plan.PLAN[prop]
    ctx = Ctx(prop, tier, seed)
    work = os.path.join(VERIF, 'build', 'vx', prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    known_f, fixed = known(prop)
    units = []
    th = None
    if p['units']:
        th = threading.Thread(target=lambda: units.extend(run_units(p['units'], work)))
        th.start()
    explore(ctx, p['explore'])
    if th: th.join()
    failed = [u for u in units if u['status'] == 'failed']
    if failed and not ctx.bad:
        # an obligation failed: look harder for a concrete input before reporting it
        ctx.deep = True
        ctx.seed += 1000
        explore(ctx, p['explore'])
        ctx.seed -= 1000
    lines, nviol = [], 0
    def replay(name, text):
        path = os.path.join(VERIF, 'evidence', 'replay', name)
        open(path, 'w', encoding='utf-8').write(text)
        return path
    # findings that are listed are not alarms; findings that are not listed are
    for f in list(ctx.findings):
        if f['finding'] not in known_f:
            ctx.bad.append(f); ctx.findings.remove(f)
    if ctx.bad:
        f = min(ctx.bad, key=lambda b: len(b['input']))
        t = 'property %s: %s\n\n== input ==\n%s\n\n== what happened ==\n%s\n\n== replay ==\n%s\n' % (prop, f['what'], f['input'], f['detail'], f['how'])
        for u in failed:
            for x in u['failures']: t += '\n== failed obligation (%s, %s) ==\n%s\n' % (u['unit'], x['function'], x['rendered'])
        path = replay(prop + '.txt', t)
        print('%s: %s\n--- input\n%s\n--- %s' % (prop, f['what'], f['input'][:3000], f['detail'][:3000]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        nviol = len(ctx.bad)
    elif failed:
        t = 'property %s: an obligation that holds on the committed tree is refused for this tree.\n' % prop
        for u in failed:
            t += '\nunit %s, generated file regenerated by: cd /verif/py && python3 unit.py %s\nverifier: %s\n' % (u['unit'], u['unit'], u['cmd'])
            for x in u['failures']: t += '\nobligation: %s, in %s\n%s\n' % (x['message'], x['function'], x['rendered'])
        path = replay(prop + '.txt', t)
        for u in failed:
            for x in u['failures']: print('%s: obligation refused: %s in %s' % (u['unit'], x['message'], x['function']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        nviol = len(failed)
    for k, d in known_f.items():
        seen = [f for f in ctx.findings if f['finding'] == k]
        print('KNOWN-FINDING: property=%s %s%s' % (prop, d, '' if seen else ' (not met in this run)'))
    for u in units:
        print('unit %s: %s, %d/%d obligations, %.1f s%s' % (u['unit'], u['status'], u['discharged'], u['obligations'], u['wall'],
              (' — ' + u['reason'][:300]) if u.get('reason') else ''))
    for nt in ctx.notes: print('note: ' + nt)
    print('%s: %d evaluations, %d distinct, %.1f s' % (prop, ctx.evals, len(ctx.distinct), time.time() - ctx.t0))
    level = p['level']
    cov = dict(
        evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct),
        rule=' | '.join(ctx.rules) or 'no exploration', samples=ctx.samples or ['(none)'],
        obligations=sum(u['obligations'] for u in units), discharged=sum(u['discharged'] for u in units),
        checker_cmd=units[0].get('cmd', 'verus') if units else 'none',
        trusted_base=sorted(set(x for u in units for x in u.get('trusted', []))) + plan.TRUSTED,
        units=[dict(unit=u['unit'], status=u['status'], reason=u.get('reason', ''), obligations=u['obligations'], discharged=u['discharged'],
                    wall_s=round(u['wall'], 1), smt_ms=u.get('smt_ms'), back_end='Verus/Z3', reachability_guard=u.get('reach'),
                    functions_under_contract=[dict(function=f['path'], file=f['file'], line=f['line'], sha=f['sha']) for f in u['functions']],
                    extraction_drops=['comments, attributes, layout'], rewrites=u.get('desugar', []), notes=u.get('notes', '')) for u in units],
        bounded='the explorers are bounded checks of the real code; they are not counted as proved', notes=ctx.notes,
        fixed_defects=fixed)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 1),
              assumptions=p['assumptions'], violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    sys.stdout.flush()
    os._exit(1 if lines else 0)

if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        # an error of the machinery decides nothing
        traceback.print_exc()
        print('note: the machinery failed; nothing was decided')
        sys.stdout.flush()
        os._exit(0)
