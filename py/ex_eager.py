"""Bounded exploration of the arithmetic solver through its public API (and two guarded hooks)."""
import random, re, time, itertools
from runner import Shim, Z3, pmap
from eager_lib import (Gen, judge, model_satisfies, EvalError, ev, parse_model, default)
from sexp import parse_all, show

HOW = ('Save the input as a file and run the solver on it: the shim /verif/runner/eager (op "solve") calls '
       'amzn_smt_eager_arithmetic::solve_with_varisat on exactly this text. Reproduce with: cd /verif/py && python3 ask.py eager %s FILE')

def _run(ctx, items, fn, deadline_s=240):
    exe = ctx.exe('eager')
    dl = time.time() + (deadline_s if not ctx.thorough else 2400)
    def fac():
        s, z = Shim(exe, timeout=20), Z3()
        def f(it):
            if ctx.stop(): return None
            return fn(s, z, it)
        return f, s.stop
    return pmap(fac, items, deadline=dl)

def _gen(ctx, n, kinds=None, tweak=None):
    out = []
    for i in range(n):
        g = Gen(random.Random('%s/%d/%d' % (ctx.prop, ctx.seed, i)))
        out.append(g.any(kinds))
    return out

def _solve(ctx, want):
    """random scripts of every kind: want = 'model' (E01) or 'unsat' (E02)"""
    ctx.rule('random scripts (general, growth chains near the solution bound, separation/equality logic, constants up to 2^130, bit-vectors, '
             'Boolean structure); non-trivial = distinct script that the solver answered')
    items = _gen(ctx, ctx.n(9000, 120000))
    def f(s, z, it):
        kind, smt = it
        st, d = judge(s, z, smt)
        if st == 'viol-sat' and want == 'model':
            ctx.violation('the reported model is wrong', smt, d, HOW % 'solve')
        elif st == 'viol-unsat' and want == 'unsat':
            ctx.violation('a satisfiable script is reported unsatisfiable', smt, d, HOW % 'solve')
        elif st in ('panic', 'err'):
            if kind != 'bv' or 'unsupported' not in d:
                if want == 'unsat' and z.check(smt) == 'sat':
                    ctx.violation('a satisfiable supported script gets no answer', smt, '%s: %s' % (st, d), HOW % 'solve')
                elif want == 'model' and st == 'panic' and 'decode' in d:
                    ctx.violation('no model', smt, d, HOW % 'solve')
        if st == 'ok': ctx.count(smt, smt if d == 'sat' else None)
    _run(ctx, items, f)

def e01(ctx): _solve(ctx, 'model')
def e02(ctx): _solve(ctx, 'unsat')

def lit(n): return str(n) if n >= 0 else '(- %d)' % -n

def _val(r):
    k = r.random()
    if k < .55: return r.randint(-9, 9)
    if k < .8:
        e = r.choice([3, 4, 5, 7, 8, 15, 16, 31, 32, 33])
        return r.choice([-1, 1]) * (2**e + r.choice([-1, 0, 1]))
    if k < .93: return r.randint(-300, 300)
    e = r.choice([52, 62, 63, 64, 65, 70])
    return r.choice([-1, 1]) * (2**e + r.choice([-1, 0, 1]))

def _expr(r, names, d):
    if d == 0 or r.random() < .2:
        return r.choice(names) if r.random() < .8 else lit(_val(r))
    k = r.random()
    if k < .4: return '(+ %s)' % ' '.join(_expr(r, names, d - 1) for _ in range(r.choice([2, 2, 2, 3, 4])))
    if k < .65: return '(- %s)' % ' '.join(_expr(r, names, d - 1) for _ in range(r.choice([2, 2, 3])))
    if k < .8: return '(- %s)' % _expr(r, names, d - 1)
    c = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, -1, -2, -3, -5, -7])
    v = r.choice(names)
    return '(* %s %s)' % ((lit(c), v) if r.random() < .7 else (v, lit(c)))

def _pinned(r, n):
    names = ['x', 'y', 'z', 'u'][:n]
    vals = {v: _val(r) for v in names}
    pins = []
    for v in names:
        a = lit(vals[v])
        pins.append(r.choice(['(assert (= %s %s))', '(assert (= %s %s))', '(assert (and (>= %s %s) (<= {v} {a})))']) % (v, a))
        pins[-1] = pins[-1].replace('{v}', v).replace('{a}', a)
    return names, vals, pins

def e03(ctx):
    ctx.rule('operands pinned to values (widths 1..71 bits, both signs), a sum/difference/negation/constant multiple of them, nested to depth 3, '
             'equated with an unconstrained unknown: the script is satisfiable and the model value is the mathematical result')
    items = []
    # all small operand pairs for the basic operators
    small = [(a, b, op) for a in range(-4, 5) for b in range(-4, 5) for op in '+-']
    for i, (a, b, op) in enumerate(small):
        if not ctx.thorough and (i + ctx.seed) % 2: continue
        items.append((dict(x=a, y=b), '(%s x y)' % op, ['(assert (= x %s))' % lit(a), '(assert (= y %s))' % lit(b)]))
    for i in range(ctx.n(8000, 80000)):
        r = random.Random('%d/%d' % (ctx.seed, i))
        names, vals, pins = _pinned(r, r.choice([1, 2, 2, 3, 4]))
        items.append((vals, _expr(r, names, r.choice([1, 1, 2, 3])), pins))
    def f(s, z, it):
        vals, e, pins = it
        want = ev(parse_all(e)[0], vals, {})
        decl = ''.join('(declare-const %s Int)\n' % v for v in list(vals) + ['res'])
        r = random.Random(repr(it))
        tie = r.choice(['(assert (= res %s))', '(assert (= res %s))', '(assert (= (- res %s) 0))', '(assert (and (>= res %s) (<= res {e})))']) % e
        smt = decl + '\n'.join(pins) + '\n' + tie.replace('{e}', e) + '\n'
        t = s.ask('solve', smt)
        if t[0] == 'SAT':
            env, fns = parse_model(t[1])
            got = ev(env['res'], {}, fns) if 'res' in env else None
            got = 0 if got is None and want == 0 else got
            ctx.count(smt, smt)
            if got != want: ctx.violation('wrong value of %s' % e, smt, 'expected %d, the model gives %s' % (want, got), HOW % 'solve')
        elif t[0] in ('UNSAT', 'PANIC', 'ERR'):
            ctx.violation('no assignment for %s' % e, smt, 'expected res = %d, the solver says %s' % (want, ' '.join(t)), HOW % 'solve')
    _run(ctx, items, f)

RELS = {'>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '=': lambda a, b: a == b}

def e04(ctx):
    ctx.rule('operands pinned to values (integers of different widths and signs, bit-vectors of 1..80 bits), a Boolean defined by a (chained) '
             'comparison of terms over them: the value of the Boolean is the value of the relation')
    items = []
    for i in range(ctx.n(8000, 80000)):
        r = random.Random('%d/%d' % (ctx.seed, i))
        if r.random() < .25:
            w = r.choice([1, 1, 2, 3, 4, 8, 31, 32, 33, 63, 64, 65, 80])
            def v():
                return r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.randrange(1 << w), r.randrange(1 << w)]) % (1 << w)
            a = v(); b = r.choice([a, v(), (a + 1) % (1 << w), a ^ (1 << r.randrange(w))])
            items.append(('bv', w, a, b, r.randrange(4)))
        else:
            names, vals, pins = _pinned(r, r.choice([1, 2, 2, 3]))
            if len(names) > 1 and r.random() < .4:
                vals[names[1]] = vals[names[0]] + r.choice([-1, 0, 0, 1])
                pins = ['(assert (= %s %s))' % (n, lit(vals[n])) for n in names]
            n = r.choice([2, 2, 2, 3, 4])
            items.append(('int', vals, pins, r.choice(list(RELS)), [_expr(r, names, r.choice([0, 0, 1, 2])) for _ in range(n)], None))
    def f(s, z, it):
        if it[0] == 'bv':
            _, w, a, b, form = it
            la, lb = '#b' + format(a, '0%db' % w), '(_ bv%d %d)' % (b, w)
            e = ['(bvule s t)', '(bvule s %s)' % lb, '(bvule %s t)' % la, '(not (not (bvule s t)))'][form]
            smt = ('(declare-const s (_ BitVec %d))\n(declare-const t (_ BitVec %d))\n(declare-const p Bool)\n'
                   '(assert (bvule s %s))\n(assert (bvule %s s))\n(assert (bvule t %s))\n(assert (bvule %s t))\n(assert (= p %s))\n') % (w, w, la, la, lb, lb, e)
            want = a <= b
        else:
            _, vals, pins, rel, es, _x = it
            v = [ev(parse_all(e)[0], vals, {}) for e in es]
            want = all(RELS[rel](v[i], v[i + 1]) for i in range(len(v) - 1))
            smt = ''.join('(declare-const %s Int)\n' % n for n in vals) + '(declare-const p Bool)\n' + '\n'.join(pins) + \
                  '\n(assert (= p (%s %s)))\n' % (rel, ' '.join(es))
        t = s.ask('solve', smt)
        if t[0] == 'SAT':
            env, fns = parse_model(t[1])
            got = ev(env['p'], {}, fns) if 'p' in env else None
            ctx.count(smt, smt)
            if got is not want: ctx.violation('a comparison has the wrong truth value', smt, 'expected p = %s, the model gives %s' % (want, got), HOW % 'solve')
        elif t[0] in ('UNSAT', 'PANIC', 'ERR'):
            ctx.violation('no assignment', smt, 'expected p = %s, the solver says %s' % (want, ' '.join(t)), HOW % 'solve')
    _run(ctx, items, f)

def _is_const(t):
    return (isinstance(t, str) and t.isdigit()) or (isinstance(t, list) and t[0] == '-' and len(t) == 2 and isinstance(t[1], str) and t[1].isdigit())

def summand(t):
    """(variable, coefficient) of a summand in normal form, or None"""
    num = lambda c: int(c) if isinstance(c, str) else -int(c[1])
    if isinstance(t, str): return None if t.isdigit() else (t, 1)
    if t[0] == '-' and len(t) == 2 and isinstance(t[1], str) and not t[1].isdigit(): return (t[1], -1)
    if t[0] == '*' and len(t) == 3 and _is_const(t[1]) and isinstance(t[2], str) and not t[2].isdigit(): return (t[2], num(t[1]))
    return None

def normal_form_error(lhs, rhs):
    if not (isinstance(lhs, list) and lhs[0] == '+'): return 'the left side %s is not a sum' % show(lhs)
    seen = set()
    for t in lhs[1:]:
        sm = summand(t)
        if sm is None: return 'summand %s' % show(t)
        if sm[1] == 0: return 'cancelled summand %s' % show(t)
        if sm[0] in seen: return 'two summands for %s' % sm[0]
        seen.add(sm[0])
    if _is_const(rhs): return None
    sm = summand(rhs)
    if sm is None: return 'right side %s' % show(rhs)
    if sm[0] in seen: return 'right side %s repeats a variable' % show(rhs)
    return None

def atoms(t, ints, out):
    """integer relations of a term"""
    if isinstance(t, str): return
    if t[0] in ('>=', '>', '<=', '<'): out.append(t); return
    if t[0] == '=' and isinstance(t[1], list) and t[1] and t[1][0] in ('+', '-', '*'): out.append(t); return
    if t[0] == '=' and (isinstance(t[1], str) and (t[1] in ints or t[1].isdigit())): out.append(t); return
    for x in t[1:]: atoms(x, ints, out)

def e05(ctx):
    ctx.rule('random constraints; original and normalised script (guarded hook) evaluated under random integer assignments (assertion by assertion '
             'without ite; with ite: z3 finds the value of the introduced variables), and the shape of every normalised relation checked')
    items = []
    for i in range(ctx.n(6000, 60000)):
        r = random.Random('%d/%d' % (ctx.seed, i))
        g = Gen(r)
        ite = r.random() < .3
        if r.random() < .8:
            g.setup(r.choice([1, 2, 2, 3, 4]), r.choice([0, 1, 2]), 0, 0, ite, r.random() < .3)
            items.append((i, g.script([g.bterm(r.choice([0, 0, 1, 2])) for _ in range(r.choice([1, 2]))])))
        else:
            k = r.choice(['growth', 'separation']); items.append((i, getattr(g, k)()))
    def f(s, z, it):
        i, smt = it
        t = s.ask('normalized', smt)
        if t[0] != 'OK':
            if t[0] in ('PANIC', 'ERR'):
                ctx.violation('a supported script cannot be normalised', smt, ' '.join(t), HOW % 'normalized')
            return
        orig, new = parse_all(smt), parse_all(t[1])
        oa = [c[1] for c in orig if c[0] == 'assert']; na = [c[1] for c in new if c[0] == 'assert']
        ints = [c[1] for c in orig if c[0] == 'declare-const' and c[2] == 'Int']; bools = [c[1] for c in orig if c[0] == 'declare-const' and c[2] == 'Bool']
        fresh = set(re.findall(r'@\d+', t[1]))
        ctx.count(smt, smt + '\n; normalised:\n' + t[1])
        for a in na:
            rel = []
            atoms(a, set(ints) | fresh, rel)
            for q in rel:
                e = normal_form_error(q[1], q[2]) if len(q) == 3 else 'not binary'
                if e: ctx.violation('not in normal form', smt, '%s: %s' % (show(q), e), HOW % 'normalized'); return
        r = random.Random(i)
        for _ in range(12 if not fresh else 3):
            env = {v: r.choice([r.randint(-3, 3), r.randint(-3, 3), r.randint(-40, 40), _val(r)]) for v in ints}
            env.update({b: r.random() < .5 for b in bools})
            want = [ev(a, env, {}) for a in oa]
            if not fresh:
                try: got = [ev(a, env, {}) for a in na]
                except EvalError as e: ctx.violation('cannot evaluate', smt, '%s\n%s' % (e, t[1]), HOW % 'normalized'); return
                if got != want:
                    ctx.violation('normalisation changes the meaning', smt, 'under %s the assertions are %s, normalised %s\n%s' % (env, want, got, t[1]), HOW % 'normalized'); return
            else:
                txt = ''.join('(declare-const %s Int)\n' % v for v in ints) + ''.join('(declare-const %s Bool)\n' % v for v in bools)
                txt += ''.join('(declare-const fresh_%s Int)\n' % v[1:] for v in sorted(fresh))
                txt += ''.join('(assert (= %s %s))\n' % (v, lit(env[v]) if v in ints else str(env[v]).lower()) for v in ints + bools)
                txt += ''.join('(assert %s)\n' % re.sub(r'@(\d+)', r'fresh_\1', show(a)) for a in na)
                got = z.check(txt)
                if got in ('sat', 'unsat') and (got == 'sat') != all(want):
                    ctx.violation('normalisation changes the meaning', smt, 'under %s the assertions are %s; normalised: %s\n%s' % (env, want, got, t[1]), HOW % 'normalized'); return
    _run(ctx, items, f)

def e06(ctx):
    ctx.rule('an unknown equated with a literal of 1..300 bits of either sign (through =, >= and <=, and arithmetic that keeps the value): the model shows that '
             'value; a bit-vector of 1..200 bits pinned to a binary or (_ bvN w) literal: the model shows exactly those bits')
    items = []
    for i in range(ctx.n(4000, 40000)):
        r = random.Random('%d/%d' % (ctx.seed, i))
        if r.random() < .55:
            w = r.choice([1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 53, 62, 63, 64, 65, 66, 100, 127, 128, 129, 300]) if r.random() < .6 else r.randint(1, 40)
            n = r.choice([(1 << w) - 1, 1 << w, (1 << w) + 1, r.randrange(1 << w), 1 << (w - 1)])
            items.append(('int', r.choice([-1, 1]) * n, r.randrange(5)))
        else:
            w = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 200])
            n = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.randrange(1 << w), r.randrange(1 << w)])
            items.append(('bv', w, n, r.randrange(2)))
    for n in range(-40, 41): items.append(('int', n, 0))
    for w in (1, 2, 3, 4):
        for n in range(1 << w): items += [('bv', w, n, 0), ('bv', w, n, 1)]
    def f(s, z, it):
        if it[0] == 'int':
            _, n, form = it
            smt = '(declare-const x Int)\n' + ['(assert (= x {n}))', '(assert (= {n} x))', '(assert (>= x {n}))(assert (<= x {n}))', '(assert (= (+ x 0) {n}))',
                                              '(assert (not (< x {n})))(assert (not (> x {n})))'][form].replace('{n}', lit(n)) + '\n'
            var = 'x'
        else:
            _, w, n, form = it
            l = '#b' + format(n, '0%db' % w) if form == 0 else '(_ bv%d %d)' % (n, w)
            smt = '(declare-const s (_ BitVec %d))\n(assert (bvule s %s))\n(assert (bvule %s s))\n' % (w, l, l)
            var = 's'
        t = s.ask('solve', smt)
        if t[0] == 'SAT':
            env, fns = parse_model(t[1])
            got = env.get(var)
            if it[0] == 'int':
                got = ev(got, {}, fns) if got is not None else None
                bad = got != n and not (got is None and n == 0)
                want = n
            else:
                want = '#b' + format(n, '0%db' % w)
                bad = got != want
            ctx.count(smt, smt)
            if bad: ctx.violation('wrong value read back', smt, 'expected %s, the model gives %s' % (want, got), HOW % 'solve')
        elif t[0] in ('UNSAT', 'PANIC', 'ERR'):
            ctx.violation('no assignment', smt, 'the solver says %s' % ' '.join(t), HOW % 'solve')
    _run(ctx, items, f)

def documented_bound(cons):
    """cons: normalised relations (sexps) of one partition -> (bits, description)"""
    num = lambda c: int(c) if isinstance(c, str) else -int(c[1])
    uniq = {}
    for c in cons: uniq[show(c)] = c
    vars_, mu_a, mu_b, w, k = set(), 1, 0, 1, 0
    eq = True
    for c in uniq.values():
        lhs, rhs = [summand(t) for t in c[1][1:]], c[2]
        width = len(lhs)
        rs = None
        if _is_const(rhs): mu_b = max(mu_b, abs(num(rhs)))
        else: rs = summand(rhs); width += 1
        for v, a in lhs + ([rs] if rs else []):
            vars_.add(v); mu_a = max(mu_a, abs(a))
        w = max(w, width)
        if c[0] != '=': eq = False
        terms = lhs + ([(rs[0], -rs[1])] if rs else [])
        co = sorted(a for _, a in terms)
        sep = co in ([1], [-1], [-1, 1])
        if not sep: k += 1
    n, m = len(vars_), len(uniq)
    if k == 0 and eq and mu_b == 0: d = n
    elif k == 0: d = min(n, m) * (mu_b + 1)
    else: d = (mu_a * w) ** k * (n + 2) * min(n + 1, m) * (mu_b + 1)
    return (d + 1).bit_length() + 1, 'n=%d m=%d a=%d b=%d w=%d k=%d: search [-%d, %d]' % (n, m, mu_a, mu_b, w, k, d, d), d

def e07(ctx):
    ctx.rule('random scripts; partitions (union of variables over shared constraints) and the documented bound recomputed from the normalised script; '
             'the width of every unknown in the encoding must cover it')
    items = _gen(ctx, ctx.n(9000, 60000), ['general', 'growth', 'growth', 'separation', 'separation', 'bigconst'])
    def f(s, z, it):
        smt = it[1]
        a = s.ask('normalized', smt); b = s.ask('layout', smt)
        if a[0] != 'OK' or b[0] != 'OK': return
        new = parse_all(a[1])
        # fresh names (@k) may be numbered differently in the two runs: compare per partition of script constants
        rel = []
        ints = set(re.findall(r'@\d+', a[1])) | set(c[1] for c in new if c[0] in ('declare-const', 'declare-fun') and c[-1] == 'Int')
        for c in new:
            if c[0] == 'assert': atoms(c[1], ints, rel)
        par = {}
        def find(v):
            par.setdefault(v, v)
            while par[v] != v: v = par[v]
            return v
        cons = []
        for c in rel:
            vs = [summand(t)[0] for t in c[1][1:]] + ([] if _is_const(c[2]) else [summand(c[2])[0]])
            if not c[1][1:]: continue
            for v in vs: par[find(v)] = find(vs[0])
            cons.append((vs[0], c))
        width = {}
        for l in b[1].split('\n'):
            if l.startswith('c\t'):
                _, name, first, w = l.split('\t'); width[name] = int(w)
        ctx.count(smt, smt)
        for root in set(find(v) for v in par):
            bits, desc, d = documented_bound([c for v, c in cons if find(v) == root])
            for v in par:
                if find(v) == root and not v.startswith('@') and v in width and width[v] < bits:
                    ctx.violation('the search width is below the documented bound', smt,
                                  '%s has %d bits, the documented bound for its partition (%s) needs %d\nnormalised:\n%s' % (v, width[v], desc, bits, a[1]), HOW % 'layout')
                    return
    _run(ctx, items, f)

def e08(ctx):
    ctx.rule('random scripts with many constants of all sorts; the layout of the encoding (guarded hook): ranges disjoint, none contains 0, widths as declared, '
             'every constant has one range')
    items = _gen(ctx, ctx.n(9000, 60000), ['general', 'general', 'growth', 'separation', 'bv', 'boolean'])
    def f(s, z, it):
        smt = it[1]
        b = s.ask('layout', smt)
        if b[0] != 'OK': return
        rng, names = [], {}
        for l in filter(None, b[1].split('\n')):
            k, name, first, w = l.split('\t'); first, w = int(first), int(w)
            if k in 'cb':
                if (k, name) in names: ctx.violation('two ranges for one constant', smt, b[1], HOW % 'layout'); return
                names[(k, name)] = (first, w)
            if k in 'ivb': rng.append((first, w, k, name))
        rng.sort()
        ctx.count(smt, smt)
        for i, (f0, w, k, n) in enumerate(rng):
            if f0 == 0: ctx.violation('a propositional variable is numbered 0', smt, b[1], HOW % 'layout'); return
            if w == 0: ctx.violation('an unknown without bits', smt, b[1], HOW % 'layout'); return
            if i and rng[i-1][0] + rng[i-1][1] > f0:
                ctx.violation('two unknowns share bits', smt, '%s and %s overlap\n%s' % (rng[i-1], rng[i], b[1]), HOW % 'layout'); return
        ir = {(a, w) for a, w, k, n in rng if k == 'i'}
        used = [v for (k, n), v in names.items() if k == 'c']
        if len(set(used)) != len(used) or any(u not in ir for u in used):
            ctx.violation('two integer constants share one range', smt, b[1], HOW % 'layout'); return
        for c in parse_all(smt):
            if c[0] == 'declare-const' and isinstance(c[2], list):
                for a, w, k, n in rng:
                    if k == 'v' and n == c[1] and w != int(c[2][2]):
                        ctx.violation('wrong bit-vector width', smt, '%s has %d bits' % (n, w), HOW % 'layout'); return
    _run(ctx, items, f)
