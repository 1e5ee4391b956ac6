"""Random string queries for the transformer, and judges that compare its output with the input."""
import json, random
from sexp import parse_all, show   # noqa

ALPHA = "abcdefz019.-:/X"


def smtstr(s):
    return '"' + s.replace('"', '""') + '"'


class SGen:
    def __init__(self, rnd, c2c=True, chars=ALPHA, ints=True, ranges=True, lex=False):
        self.r, self.chars, self.ints, self.ranges, self.lex = rnd, chars, ints, ranges, lex
        self.lits = []

    def lit(self, n=None):
        r = self.r
        if self.lits and r.random() < 0.4:
            s = r.choice(self.lits)
            k = r.random()
            if k < 0.5:
                return s
            if k < 0.8 and len(s) > 1:
                i = r.randrange(len(s)); j = r.randrange(i, len(s)) + 1
                return s[i:j]
            t = s + r.choice(self.chars)
            self.lits.append(t)
            return t
        s = "".join(r.choice(self.chars) for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4])))
        self.lits.append(s)
        return s

    def S(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.35:
            return r.choice(self.vars) if r.random() < 0.6 else smtstr(self.lit())
        k = r.choice(["++", "++", "at", "substr", "replace"] + (["from_int"] if self.ints else []))
        if k == "++":
            return "(str.++ %s)" % " ".join(self.S(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k == "at":
            return "(str.at %s %d)" % (self.S(d - 1), r.randrange(3))
        if k == "substr":
            return "(str.substr %s %d %d)" % (self.S(d - 1), r.randrange(3), r.randrange(4))
        if k == "replace":
            return "(str.replace %s %s %s)" % (self.S(d - 1), self.S(0), self.S(0))
        if k == "ite":
            return "(ite %s %s %s)" % (self.B(d - 1), self.S(d - 1), self.S(d - 1))
        return "(str.from_int %s)" % self.I(d - 1)

    def I(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return str(r.randrange(6))
        k = r.choice(["len", "len", "indexof", "+"] + (["to_int", "to_code"] if self.ints else []))
        if k == "len":
            return "(str.len %s)" % self.S(d - 1)
        if k == "indexof":
            return "(str.indexof %s %s 0)" % (self.S(d - 1), self.S(0))
        if k == "+":
            return "(+ %s %s)" % (self.I(d - 1), self.I(d - 1))
        if k == "to_code":
            return "(str.to_code %s)" % self.S(d - 1)
        return "(str.to_int %s)" % self.S(d - 1)

    def rng(self):
        r = self.r
        return r.choice([("a", "c"), ("a", "f"), ("a", "z"), ("0", "9"), ("0", "9"), ("A", "Z"), ("b", "d"), ("d", "f"), ("0", "5"), ("c", "a")])

    def R(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            if self.ranges and r.random() < 0.4:
                return '(re.range "%s" "%s")' % self.rng()
            if r.random() < 0.15:
                return "re.allchar"
            if r.random() < 0.08:
                return "re.none"
            return "(%s %s)" % (self.tore, smtstr(self.lit()))
        k = r.choice(["++", "++", "union", "*", "+", "opt", "inter", "loop", "comp"])
        if k == "++":
            return "(re.++ %s)" % " ".join(self.R(d - 1) for _ in range(r.choice([2, 2, 3])))
        if k in ("union", "inter"):
            return "(re.%s %s %s)" % (k, self.R(d - 1), self.R(d - 1))
        if k == "loop":
            a = r.randrange(3)
            return "((_ re.loop %d %d) %s)" % (a, a + r.randrange(3), self.R(d - 1))
        return "(re.%s %s)" % (k, self.R(d - 1))

    def B(self, d):
        r = self.r
        k = r.choice(["=", "=", "prefixof", "suffixof", "contains", "in", "in", "bool", "int", "not", "or", "and", "distinct"])
        if d <= 0 and k in ("not", "or", "and"):
            k = "="
        if k == "=":
            return "(= %s %s)" % (self.S(d - 1), self.S(d - 1))
        if k == "distinct":
            return "(distinct %s %s)" % (self.S(d - 1), self.S(d - 1))
        if k in ("prefixof", "suffixof", "contains"):
            return "(str.%s %s %s)" % (k, self.S(d - 1), self.S(d - 1))
        if k == "in":
            return "(%s %s %s)" % (self.inre, self.S(d - 1), self.R(d))
        if k == "bool":
            return r.choice(self.bools)
        if k == "int":
            return "(%s %s %s)" % (r.choice(["=", "<", ">=", ">"]), self.I(d - 1), self.I(d - 1))
        if k == "not":
            return "(not %s)" % self.B(d - 1)
        if self.lex and r.random() < 0.3:
            return "(str.< %s %s)" % (self.S(d - 1), self.S(d - 1))
        return "(%s %s %s)" % (k, self.B(d - 1), self.B(d - 1))

    def query(self):
        r = self.r
        self.tore, self.inre = r.choice([("str.to_re", "str.in_re"), ("str.to.re", "str.in.re")])
        self.vars = r.choice([["x"], ["x", "y"], ["x", "y", "z"], ["a1", "a0"]])
        self.bools = ["p"] if "x" in self.vars else ["|p q|"]
        out = []
        if r.random() < 0.3:
            out.append("(set-logic ALL)")
        for v in self.vars:
            out.append("(declare-const %s String)" % v if r.random() < 0.5 else "(declare-fun %s () String)" % v)
        out.append("(declare-const %s Bool)" % self.bools[0])
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            out.append("(assert %s)" % self.B(r.choice([1, 2, 2, 3])))
        out.append("(check-sat)")
        return "\n".join(out)
