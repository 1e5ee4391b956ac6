"""Random SMT inputs in the supported fragment, an independent evaluator, and the judge for solve()."""
import random
from sexp import parse_all, show


class EvalError(Exception):
    pass


def to_num(tok):
    return int(tok)


def ev(t, env, fns, loc=None):
    loc = loc or {}
    if isinstance(t, str):
        if t in loc:
            return loc[t]
        if t == "true":
            return True
        if t == "false":
            return False
        if t.isdigit():
            return int(t)
        if t.startswith("#b"):
            return ("bv", len(t) - 2, int(t[2:], 2))
        if t in env:
            return env[t]
        raise EvalError("unbound " + t)
    h = t[0]
    if h == "let":
        new = dict(loc)
        for (n, e) in t[1]:
            new[n] = ev(e, env, fns, loc)
        return ev(t[2], env, fns, new)
    if isinstance(h, list) or (h == "_" and t[1].startswith("bv")):
        if h == "_":
            return ("bv", int(t[2]), int(t[1][2:]) % (1 << int(t[2])))
        raise EvalError(show(t))
    if h == "ite":
        return ev(t[2] if ev(t[1], env, fns, loc) else t[3], env, fns, loc)
    a = [ev(x, env, fns, loc) for x in t[1:]]
    ch = lambda f: all(f(a[i], a[i + 1]) for i in range(len(a) - 1))
    if h == "+":
        return sum(a)
    if h == "-":
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
    if h == "*":
        r = 1
        for x in a:
            r *= x
        return r
    if h == ">=":
        return ch(lambda x, y: x >= y)
    if h == ">":
        return ch(lambda x, y: x > y)
    if h == "<=":
        return ch(lambda x, y: x <= y)
    if h == "<":
        return ch(lambda x, y: x < y)
    if h == "=":
        return ch(lambda x, y: x == y)
    if h == "distinct":
        return len(set(a)) == len(a)
    if h == "not":
        return not a[0]
    if h == "and":
        return all(a)
    if h == "or":
        return any(a)
    if h == "xor":
        r = a[0]
        for x in a[1:]:
            r = r != x
        return r
    if h == "=>":
        r = a[-1]
        for x in reversed(a[:-1]):
            r = (not x) or r
        return r
    if h == "bvule":
        return a[0][2] <= a[1][2]
    if h in fns:
        ps, body = fns[h]
        if body is None:
            return 0
        return ev(body, env, fns, dict(zip(ps, a)))
    raise EvalError("op " + str(h))


def parse_model(text):
    """'( (define-fun x () Int 3) ... )' -> (consts, fns) as sexps."""
    top = parse_all(text)
    defs = top[0] if top else []
    env, fns = {}, {}
    for d in defs:
        assert d[0] == "define-fun", show(d)
        _, name, params, _sort, body = d
        if params:
            fns[name] = ([p[0] for p in params], body)
        else:
            env[name] = body
    return env, fns


def default(sort):
    if sort == "Int":
        return 0
    if sort == "Bool":
        return False
    if isinstance(sort, list) and sort[:2] == ["_", "BitVec"]:
        return ("bv", int(sort[2]), 0)
    raise EvalError("sort")


def model_satisfies(smt, model_text):
    """None if the model satisfies every assertion of smt, else a reason."""
    cmds = parse_all(smt)
    env0, fns = parse_model(model_text)
    env = {}
    for k, b in env0.items():
        env[k] = ev(b, {}, fns)
    for c in cmds:
        if c[0] == "declare-const":
            env.setdefault(c[1], default(c[2]))
        elif c[0] == "declare-fun":
            if c[2]:
                if c[1] not in fns:
                    fns[c[1]] = ([str(i) for i in range(len(c[2]))], None if c[3] == "Int" else "false")
            else:
                env.setdefault(c[1], default(c[3]))
    for c in cmds:
        if c[0] == "declare-const" and isinstance(c[2], list):
            v = env[c[1]]
            if not (isinstance(v, tuple) and v[1] == int(c[2][2])):
                return "model gives %s the value %s, not of sort %s" % (c[1], v, show(c[2]))
        if c[0] == "declare-const" and c[2] == "Int" and type(env[c[1]]) is not int:
            return "model gives %s a non-integer value" % c[1]
        if c[0] == "assert":
            if ev(c[1], env, fns) is not True:
                return "assertion %s is false under the model %s" % (show(c[1])[:400], " ".join(model_text.split())[:600])
    return None


# ------------------------------------------------------------------ generators
class Gen:
    def __init__(self, rng, big=False):
        self.r = rng
        self.big = big

    def const(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            n = r.randint(0, 4)
        elif k < 0.95:
            n = r.choice([5, 7, 8, 15, 16, 17, 31, 64, 100, 127, 128, 255, 256])
        else:
            n = r.choice([2**31 - 1, 2**31, 2**32, 2**40]) if self.big else r.randint(0, 40)
        return n

    def lit(self):
        n = self.const()
        return str(n) if self.r.random() < 0.6 or n == 0 else "(- %d)" % n

    def iterm(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            return r.choice(self.ints) if r.random() < 0.75 else self.lit()
        k = r.random()
        if k < 0.3:
            return "(+ %s)" % " ".join(self.iterm(d - 1) for _ in range(r.choice([1, 2, 2, 2, 3, 4])))
        if k < 0.5:
            return "(- %s)" % " ".join(self.iterm(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k < 0.62:
            return "(- %s)" % self.iterm(d - 1)
        if k < 0.78:
            c = str(r.choice([0, 1, 2, 3, 4, 5])) if r.random() < .6 else "(- %d)" % r.choice([1, 2, 3, 5])
            # products of two constants are outside the supported terms, also when a let hides one of them
            v = r.choice([x for x in self.ints if x not in self.noprod])
            return "(* %s %s)" % ((c, v) if r.random() < .7 else (v, c))
        if k < 0.86 and self.use_ite:
            return "(ite %s %s %s)" % (self.bterm(d - 1), self.iterm(d - 1), self.iterm(d - 1))
        if k < 0.93 and self.funs:
            f = r.choice(self.funs)
            return "(%s %s)" % (f[0], " ".join(self.iterm(d - 2) for _ in range(f[1])))
        return r.choice(self.ints)

    def atom(self, d):
        r = self.r
        k = r.random()
        if k < 0.08 and self.bools:
            return r.choice(self.bools)
        if k < 0.14 and self.bvs:
            def bvt():
                w = self.bvw
                if r.random() < 0.35:
                    n = r.randrange(1 << w)
                    return "#b" + format(n, "0%db" % w) if r.random() < .5 else "(_ bv%d %d)" % (n, w)
                return r.choice(self.bvs)
            a, b = bvt(), bvt()
            if a in self.bvs or b in self.bvs:
                return "(bvule %s %s)" % (a, b)
        op = r.choice([">=", ">=", ">", "<=", "<", "=", "=", "distinct"])
        n = r.choice([2, 2, 2, 2, 3, 4]) if r.random() < .25 else 2
        if op == "distinct" and n > 2:
            n = 3
        return "(%s %s)" % (op, " ".join(self.iterm(d) for _ in range(n)))

    def bterm(self, d):
        r = self.r
        if d <= 0:
            return self.atom(1)
        k = r.random()
        if k < 0.35:
            return self.atom(d)
        if k < 0.5:
            return "(and %s)" % " ".join(self.bterm(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k < 0.65:
            return "(or %s)" % " ".join(self.bterm(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k < 0.77:
            return "(not %s)" % self.bterm(d - 1)
        if k < 0.83:
            return "(=> %s %s)" % (self.bterm(d - 1), self.bterm(d - 1))
        if k < 0.88:
            return "(xor %s %s)" % (self.bterm(d - 1), self.bterm(d - 1))
        if k < 0.92:
            return "(= %s %s)" % (self.bterm(d - 1), self.bterm(d - 1))
        if k < 0.96 and self.use_ite:
            return "(ite %s %s %s)" % (self.bterm(d - 1), self.bterm(d - 1), self.bterm(d - 1))
        if self.use_let:
            v = r.choice(["?l", "?m"])
            e = self.iterm(1)
            old, np = self.ints, self.noprod
            self.ints = old + [v]
            self.noprod = np - {v} if e in old and e not in np or e.startswith("(+ ") and sum(e.count(x) for x in old) == 1 and "(*" not in e else np | {v}
            b = self.bterm(d - 1)
            self.ints, self.noprod = old, np
            return "(let ((%s %s)) %s)" % (v, e, b)
        return self.atom(d)

    def script(self, body):
        out = []
        for v in self.ints:
            out.append("(declare-const %s Int)" % v)
        for v in self.bools:
            out.append("(declare-const %s Bool)" % v)
        for v in self.bvs:
            out.append("(declare-const %s (_ BitVec %d))" % (v, self.bvw))
        for f, n in self.funs:
            out.append("(declare-fun %s (%s) Int)" % (f, " ".join(["Int"] * n)))
        out += ["(assert %s)" % b for b in body]
        return "\n".join(out) + "\n"

    def setup(self, nints, nbools=0, nbvs=0, funs=0, ite=False, let=False, bvw=4):
        self.ints = ["x", "y", "z", "u", "v", "w", "a", "b", "c", "d", "e", "f1", "g1"][:nints]
        self.bools = ["p", "q"][:nbools]
        self.bvs = ["s", "t"][:nbvs]
        self.bvw = bvw
        self.funs = [("f", 1), ("g", 2)][:funs]
        self.use_ite, self.use_let = ite, let
        self.noprod = frozenset()

    def general(self):
        r = self.r
        self.setup(r.choice([1, 2, 2, 3]), r.choice([0, 0, 1, 2]), r.choice([0, 0, 0, 2]), r.choice([0, 0, 0, 0, 1]),
                   r.random() < .35, r.random() < .3, r.choice([1, 2, 3, 8, 33, 64, 65]))
        return self.script([self.bterm(r.choice([0, 1, 1, 2])) for _ in range(r.choice([1, 2, 2, 3]))])

    def growth(self):
        """equality chains forcing solutions near the solution-size bound"""
        r = self.r
        n = r.randint(2, 8)
        self.setup(n)
        out = []
        v = self.ints
        k = r.random()
        if k < .4:
            for i in range(n - 1):
                c = r.choice([2, 3, 5]) if n <= 5 else 2
                l, rr = v[i], "(* %d %s)" % (c, v[i + 1])
                if r.random() < .5:
                    l, rr = rr, l
                form = r.choice(["(= %s %s)", "(= (- %s %s) 0)", "(and (>= %s %s) (<= {0} {1}))", "(not (distinct %s %s))"]) % (l, rr)
                out.append(form.replace("{0}", l).replace("{1}", rr))
            out.append(r.choice(["(>= %s 1)", "(<= %s (- 1))", "(> %s 0)", "(< %s 0)"]) % v[n - 1])
        elif k < .8:
            for i in range(n - 2):
                form = r.choice(["(= %s (+ %s %s))", "(>= (- %s %s) %s)", "(= (- %s %s %s) 0)", "(>= (- %s %s %s) 0)", "(>= %s (+ %s %s 1))"])
                out.append(form % (v[i], v[i + 1], v[i + 2]))
            out.append("(>= %s 1)" % v[n - 1])
            if n > 1:
                out.append("(>= %s 1)" % v[n - 2])
            if r.random() < .5:
                out.append("(<= %s %d)" % (v[0], r.choice([3, 8, 13, 21, 34, 60])))
        else:
            for i in range(n - 1):
                out.append("(= (+ %s %s) 0)" % (v[i], v[i + 1]) if r.random() < .5 else "(>= (+ %s %s) %d)" % (v[i], v[i + 1], r.randint(0, 3)))
            out.append("(>= %s %d)" % (v[0], r.randint(1, 9)))
        r.shuffle(out)
        return self.script(out)

    def separation(self):
        r = self.r
        n = r.randint(1, 7)
        self.setup(n)
        v = self.ints
        out = []
        b = r.choice([0, 1, 1, 3, 7, 8])
        k = r.random()
        if k < .5:
            for i in range(n - 1):
                x, y = v[i], v[i + 1]
                c = r.choice([b, b, r.randint(0, b)])
                out.append(r.choice(["(>= (- %s %s) %d)", "(> (- %s %s) %d)", "(not (<= (- %s %s) %d))", "(= (- %s %s) %d)", "(>= %s (+ %s %d))", "(not (> (+ (- %s) %s) (- %d)))"]) % (x, y, c))
            out.append(r.choice(["(>= %s %d)", "(> %s %d)", "(= %s %d)", "(not (<= %s %d))"]) % (v[n - 1], b))
            if r.random() < .3:
                out.append("(<= %s %d)" % (v[0], r.choice([b * n, b * n - 1, b * n + n, b * (n - 1)]) if b * n > 0 else 0))
        elif k < .75:
            m = r.randint(1, n + 3)
            for _ in range(m):
                x, y = r.choice(v), r.choice(v)
                c = r.randint(0, b)
                out.append(r.choice(["(>= (- %s %s) %d)", "(< (- %s %s) %d)", "(= (- %s %s) %d)", "(distinct (- %s %s) %d)", "(<= (- %s %s) (- %d))"]) % (x, y, c))
        else:
            # equality logic
            if n >= 2:
                out.append("(distinct %s)" % " ".join(v))
                if r.random() < .5:
                    out.append("(not (= %s 0))" % v[0])
                for _ in range(r.randint(0, 2)):
                    x, y = r.sample(v, 2)
                    out.append("(or (= %s %s) (= %s 0))" % (x, y, r.choice(v)))
            else:
                out.append("(not (= %s 0))" % v[0])
        r.shuffle(out)
        return self.script(out)

    def bigconst(self):
        r = self.r
        self.setup(r.choice([1, 2]), 1)
        e = r.choice([30, 31, 32, 52, 61, 62, 63, 64, 65, 66, 100, 130])
        c = 2**e + r.choice([-1, 0, 1])
        v = self.ints
        x, y = v[0], v[-1]
        f = r.choice(["(>= {x} {c})", "(<= {x} (- {c}))", "(= {x} {c})", "(= {x} (- {c}))", "(and (> {x} {c}) (< {x} (+ {c} 2)))",
                      "(>= (- {x} {y}) {c})", "(= (+ {x} {y}) {c})", "(and (= {x} (- {c})) (= {y} {c}))", "(distinct {x} {c} (- {c}))",
                      "(and (>= {x} {c}) (not (>= {x} {c})))"])
        return self.script([f.format(x=x, y=y, c=c)])

    def bv(self):
        r = self.r
        w = r.choice([1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 63, 64, 65, 80])
        self.setup(r.choice([0, 1]), r.choice([0, 1]), 2, bvw=w)

        def lit():
            n = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.randrange(1 << w)]) % (1 << w)
            return "#b" + format(n, "0%db" % w) if r.random() < .6 else "(_ bv%d %d)" % (n, w)

        def at():
            a, b = r.choice(self.bvs), (lit() if r.random() < .6 else r.choice(self.bvs))
            if r.random() < .5:
                a, b = b, a
            s = "(bvule %s %s)" % (a, b)
            return "(not %s)" % s if r.random() < .35 else s
        return self.script([at() if r.random() < .7 else "(or %s %s)" % (at(), at()) for _ in range(r.randint(1, 4))])

    def boolean(self):
        r = self.r
        self.setup(0, 2)
        def b(d):
            if d == 0:
                return r.choice(["p", "q", "true", "false", "(not p)"])
            o = r.choice(["and", "or", "not", "xor", "=>", "=", "ite"])
            n = {"not": 1, "ite": 3}.get(o, r.choice([2, 2, 3]) if o in ("and", "or", "xor") else 2)
            return "(%s %s)" % (o, " ".join(b(d - 1) for _ in range(n)))
        return self.script([b(r.choice([0, 1, 2, 3])) for _ in range(r.randint(1, 2))])

    KINDS = ["general", "growth", "separation", "bigconst", "bv", "boolean"]

    def any(self, kinds=None):
        k = self.r.choices(kinds or self.KINDS, [5, 3, 3, 1, 1, .7] if not kinds else None)[0]
        return k, getattr(self, k)()


def judge(shim, z3, smt):
    """-> (status, detail); status in ok / viol / skip"""
    tag, body = shim.ask("solve", smt)[:2]
    if tag == "SAT":
        try:
            bad = model_satisfies(smt, body)
        except EvalError as e:
            bad = "cannot evaluate the model: %s (%s)" % (e, body[:300])
        if bad:
            return ("viol-sat", bad)
        return ("ok", "sat")
    if tag == "UNSAT":
        r = z3.check(smt)
        if r == "sat":
            return ("viol-unsat", "solve() answers unsat, but the formula is satisfiable (z3: sat)")
        return ("ok" if r == "unsat" else "skip", "unsat/" + r)
    if tag == "ERR":
        return ("err", body)
    if tag == "PANIC":
        return ("panic", body)
    return ("skip", tag + " " + body)
