"""P04: expressions."""
import copy
import itertools
from fractions import Fraction

from vf.model import LP, RP, dec, num, op, ref
from vf.num import q, qs

ENV = {"SIM;OIL": [Fraction(0), Fraction(3), Fraction(5, 4)], "$var.x": [Fraction(2), Fraction(-1, 2), Fraction(0)],
       "GAS-A:B;P+Q*R/S": [Fraction(1), Fraction(0), Fraction(-4)]}


class Gen:
    def __init__(self, r):
        self.r = r

    def leaf(self):
        if self.r.random() < 0.45:
            return [ref(self.r.choice(list(ENV)))], 5, True
        return [num(Fraction(self.r.randint(0, 32), 4))], 5, True

    def expr(self, depth):
        """(tokens, significant bits needed, exactly representable)"""
        if depth == 0 or self.r.random() < 0.15:
            t, b, x = self.leaf()
        else:
            t, b, x = self.binary(depth)
        if len(t) > 1 and self.r.random() < 0.45 or self.r.random() < 0.05:
            t = [LP] + t + [RP]
        return t, b, x

    def binary(self, depth):
        # Without parentheses the operators regroup, so parenthesise operands unless everything stays exact and small anyway.
        a, ba, xa = self.expr(depth - 1)
        o = self.r.choice(["{+}", "{-}", "{*}", "{+}", "{-}", "{*}", "{/}", "{^}", "<", "<=", ">", ">=", "==", "!="])
        if o == "{^}":
            if ba > 16 or not xa:
                o = "{+}"
            else:
                k = self.r.choice([0, 1, 2, 2, 3])
                return self.par(a, 0.7) + [op("{^}")] + [num(k)], ba * max(1, k), True
        b, bb, xb = self.expr(depth - 1)
        if o == "{/}":
            if not (xa and xb) or ba + bb > 40:
                o = "{-}"
            else:
                d = self.r.choice([b, [num(0)], [num(2)], [num(Fraction(1, 4))]])
                exact = d is not b
                return [LP] + self.par(a, 1) + [op(o)] + self.par(d, 1) + [RP], ba + 6, exact
        if o in ("<", "<=", ">", ">=", "==", "!=") and not (xa and xb):
            o = "{+}"
        if o == "{*}" and ba + bb > 44:
            o = "{+}"
        return self.safe(a, xa) + [op(o)] + self.safe(b, xb), (ba + bb if o == "{*}" else max(ba, bb) + 1) if o[0] == "{" else 2, xa and xb

    def par(self, t, p):
        return [LP] + t + [RP] if len(t) > 1 and self.r.random() <= p else t

    def safe(self, t, exact):
        return t if exact else self.par(t, 1)

    def flat(self):
        """a chain without parentheses: precedence and associativity"""
        n = self.r.randint(2, 5)
        t = self.leaf()[0]
        for _ in range(n):
            t = t + [op(self.r.choice(["{+}", "{-}", "{*}", "{*}", "<", ">", "<=", ">=", "==", "!="]))] + self.leaf()[0]
        if self.r.random() < 0.3:
            t = [num(self.r.choice([2, 3])), op("{^}"), num(self.r.choice([0, 1, 2])), op("{^}"), num(self.r.choice([0, 1, 2, 3])), op("{-}")] + t
        if self.r.random() < 0.3:
            t = t + [op("{*}"), num(self.r.choice([4, 8])), op("{/}"), num(2), op("{/}"), num(2)] if not any(
                x["k"] == "o" and x["v"] not in ("{+}", "{-}", "{*}") for x in t) else t
        return t


def number(r, v):
    f = Fraction(v)
    s = dec(v)
    k = r.random()
    if k < 0.12 and f:
        for m in range(1, 4):
            if f.denominator == 1 and f.numerator % 10 ** m == 0:
                return f"{f.numerator // 10 ** m}e{m}"
        return f"{dec(q(f * 1000))}e-3" if "." not in dec(q(f * 1000)) else s
    if k < 0.2 and "." in s:
        return s + "00"
    if k < 0.25:
        return "0" + s
    return s


def render(r, x):
    out = ""
    style = r.choice(["spaced", "tight", "mixed", "lines"])
    for i, t in enumerate(x):
        w = number(r, t["v"]) if t["k"] == "n" else t["v"]
        prev = x[i - 1] if i else None
        need = prev is not None and prev["k"] in ("n", "r") and t["k"] in ("n", "r")
        gap = {"spaced": " ", "tight": "", "mixed": r.choice(["", " ", "   ", "\t"]), "lines": r.choice([" ", "\n", " \n  "])}[style]
        out += (gap or (" " if need else "")) + w if i else w
    if r.random() < 0.2:
        out = " " + out + r.choice([" ", "\n"])
    return out


def observe(x, textual, n=3, env=None):
    from libecalc.expression.expression import Expression, InvalidExpressionError
    env = ENV if env is None else env
    vals = {k: [float(a) for a in v] for k, v in env.items()}
    e = {"x": x, "text": textual, "n": n, "env": {k: qs(v) for k, v in env.items()}, "res": "rejected", "v": [], "refs": [], "again": []}
    try:
        ex = Expression.setup_from_expression(textual)
    except InvalidExpressionError:
        return e
    try:
        v = ex.evaluate(vals, n)
    except InvalidExpressionError:
        e["res"] = "missing"
        return e
    except (ValueError, AssertionError) as err:
        e["res"] = "failed: " + repr(err)[:200]
        return e
    e["v"] = qs(v)
    e["refs"] = sorted(set(ex.variables))
    e["res"] = "value"
    e["again"] = qs(Expression.setup_from_expression(str(ex)).evaluate(vals, n))
    return e


def run(chk):
    r = chk.rng
    g = Gen(r)
    events = []
    # every sequence of tokens up to a length: what is an expression, what is not, and what it is worth
    alpha = [num(2), ref("SIM;OIL"), op("{-}"), op("{*}"), op("<"), op("{^}"), LP, RP]
    for k in range(1, chk.n(4, 5) + 1):
        for x in itertools.product(alpha, repeat=k):
            if any(a["v"] == "{^}" and b["k"] != "n" for a, b in zip(x, x[1:])):
                continue  # powers with a computed exponent are not needed here
            events.append(observe(list(x), render(r, x)))
    ops = ["{^}", "{*}", "{/}", "{+}", "{-}", "==", "!=", "<", ">", "<=", ">="]
    for a, b in itertools.product(ops, repeat=2):  # every pair of operators: precedence and associativity
        for v in ((2, 3, 2), (1, 2, 1), (4, 2, 1), (0, 1, 1), (3, 1, 0)):
            x = [num(v[0]), op(a), num(v[1]), op(b), num(v[2])]
            events.append(observe(x, render(r, x)))
    for _ in range(chk.n(1500, 30000)):
        x = g.flat() if r.random() < 0.4 else g.expr(r.randint(1, 4))[0]
        events.append(observe(x, render(r, x)))
    for _ in range(chk.n(600, 8000)):  # damaged expressions
        x = g.expr(r.randint(1, 3))[0]
        for _ in range(r.randint(1, 2)):
            i = r.randrange(len(x)) if x else 0
            k = r.random()
            if k < 0.4 and x:
                x = x[:i] + x[i + 1:]
            elif k < 0.7 and x:
                x = x[:i] + [x[i]] + x[i:]
            else:
                x = x[:i] + [r.choice([LP, RP, num(3), op("{+}"), ref("SIM;OIL")])] + x[i:]
        events.append(observe(x, render(r, x)))
    for _ in range(chk.n(100, 1000)):  # unknown references
        x = g.expr(2)[0] + [op("{+}"), ref(r.choice(["SIM;GAS", "$var.y", "SIM;OI"]))]
        events.append(observe(x, render(r, x)))
    canaries = []
    for e in [e for e in events if e["res"] == "value"][::400][:8]:
        c = copy.deepcopy(e)
        c["v"][0] = q(Fraction(c["v"][0]) + 1)
        canaries.append(c)
    for e in [e for e in events if e["res"] == "rejected" and len(e["x"]) > 3][::600][:4]:
        c = copy.deepcopy(e)
        c["res"], c["v"] = "value", ["1", "1", "1"]
        canaries.append(c)
    chk.assumptions.append("values are chosen so that all intermediate results but divisions are exact doubles; comparisons never see rounded values")
    chk.validate("ExprTrace", events, canaries)
