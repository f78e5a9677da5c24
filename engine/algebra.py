"""A back end for polynomial identities over the reals: an equality is proved by rewriting both sides to a normal form with the
equations among the hypotheses (definitions, squares of roots, sin^2 + cos^2 = 1, denominators known not to be zero).
Every step replaces equals by equals, so an answer 'proved' is sound; 'not proved' says nothing."""
import time
from fractions import Fraction

import z3


class Stop(Exception):
    pass


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 20000:
        raise Stop('too large')
    return r


def divides(m, n):
    d = dict(n)
    return all(d.get(a, 0) >= e for a, e in m)


def mono_div(n, m):
    d = dict(n)
    for a, e in m:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def key_of(p):
    return tuple(sorted(p.items()))


def is_linear(t):
    """no product or quotient of unknowns, and not large"""
    todo, n = [t], 0
    while todo:
        t = todo.pop()
        n += 1
        if n > 200 or z3.is_quantifier(t):
            return False
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in t.children()) > 1 or t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)) or t.decl().kind() == z3.Z3_OP_POWER:
                return False
            todo += t.children()
    return True


class Algebra:
    def __init__(self, hyps, deadline):
        self.deadline = deadline
        self.hyps = []
        self.atoms = []          # rank -> description
        self.ids = {}
        self.cache = {}
        self.subst = {}          # atom -> polynomial
        self.rules = []          # (monomial, polynomial)
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.linear, self.empty = z3.SimpleSolver(), z3.Solver()
        self.linear.set('timeout', 300)
        self.empty.set('timeout', 300)
        self.derived = set()     # atoms that stand for |x|: rewritten first
        self.known = {}
        todo = list(hyps)
        conds = []
        while todo:
            h = todo.pop(0)
            if z3.is_and(h):
                todo = list(h.children()) + todo
            elif z3.is_quantifier(h):
                continue
            elif z3.is_implies(h):
                conds.append(h)
            else:
                self.hyps.append(h)
                self.solver.add(h)
        for h in conds:
            self.solver.add(h)
        for h in self.hyps:
            if is_linear(h):
                self.linear.add(h)
        for h in conds:
            if self.implied(h.arg(0)):
                todo = [h.arg(1)]
                while todo:
                    x = todo.pop()
                    if z3.is_and(x):
                        todo += x.children()
                    else:
                        self.hyps.append(x)
                        self.solver.add(x)
                        if is_linear(x):
                            self.linear.add(x)

    def implied(self, f, full=True):
        k = (f.get_id(), full)
        if k not in self.known:
            if time.time() > self.deadline:
                raise Stop('time')
            r = False
            for s in (self.linear, self.empty, self.solver) if full else (self.linear,):
                s.push()
                s.add(z3.Not(f))
                r = s.check() == z3.unsat
                s.pop()
                if r:
                    break
            self.known[k] = (r, f)
        return self.known[k][0]

    def atom(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.atoms)
            self.atoms.append(key)
        a = self.ids[key]
        return {((a, 1),): Fraction(1)}

    def poly(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][0]
        p = self.poly_(t)
        self.cache[k] = (p, t)
        return p

    def poly_(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): v} if v else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = add(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = add(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return add({}, self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = {(): Fraction(1)}
            for _ in range(ch[1].numerator_as_long()):
                r = mul(r, self.poly(ch[0]))
            return r
        if k == z3.Z3_OP_DIV and z3.is_real(t):
            b = self.norm(self.poly(ch[1]))
            if len(b) == 1 and () in b:
                return {m: c / b[()] for m, c in self.poly(ch[0]).items()}
            if self.implied(ch[1] != 0):
                new = ('inv', key_of(b)) not in self.ids
                i = self.atom(('inv', key_of(b)))
                if new:
                    self.learn(add(mul(i, b), {(): Fraction(1)}, -1))
                return mul(self.poly(ch[0]), i)
            return self.atom(('div', key_of(self.norm(self.poly(ch[0]))), key_of(b)))
        if k == z3.Z3_OP_ITE:
            if self.implied(ch[0]):
                return self.poly(ch[1])
            if self.implied(z3.Not(ch[0])):
                return self.poly(ch[2])
            p = self.atom(('t', t.get_id()))
            if z3.is_real(t):
                a, b = self.norm(self.poly(ch[1])), self.norm(self.poly(ch[2]))
                if not add(a, b):        # plus or minus the same value, as in |x|
                    self.derived.add(next(iter(p))[0][0])
                    self.learn(add(mul(p, p), mul(a, a), -1))
            return p
        if (k == z3.Z3_OP_UNINTERPRETED or t.decl().name() in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp')) and ch and all(z3.is_real(c) for c in ch):
            return self.atom((t.decl().name(),) + tuple(key_of(self.norm(self.poly(c))) for c in ch))
        return self.atom(('t', t.get_id()))

    # the larger a monomial, the earlier it is rewritten: total degree, then the most recently met atoms
    def order(self, m):
        return (sum(e for a, e in m if a in self.derived), sum(e for _, e in m), tuple(sorted(((a, e) for a, e in m), reverse=True)))

    def norm(self, p):
        steps = 0
        done = {}
        p = dict(p)
        while p:
            steps += 1
            if steps % 64 == 0 and time.time() > self.deadline:
                raise Stop('time')
            m = max(p, key=self.order)
            c = p.pop(m)
            r = None
            for a, e in m:
                if a in self.subst:
                    r = mul({mono_div(m, ((a, 1),)): Fraction(1)}, self.subst[a])
                    break
            if r is None:
                for lead, rest in self.rules:
                    if divides(lead, m):
                        r = mul({mono_div(m, lead): Fraction(1)}, rest)
                        break
            if r is None:
                done[m] = done.get(m, 0) + c
                if not done[m]:
                    del done[m]
            else:
                p = add(p, r, c)
                for n in [n for n in p if n in done]:      # a smaller monomial can meet one already normal
                    v = p.pop(n) + done.pop(n)
                    if v:
                        p[n] = v
            if len(p) > 20000:
                raise Stop('too large')
        return done

    def learn(self, p):
        p = self.norm(p)
        if not p or (len(p) == 1 and () in p):
            return
        lin = [m for m in p if len(m) == 1 and m[0][1] == 1 and not any(n != m and any(a == m[0][0] for a, _ in n) for n in p)]
        # a variable equal to a polynomial is replaced by it: the most recently introduced one
        lin = [m for m in lin if not any(self.atoms[a][0] not in ('t',) and self.uses(a, m[0][0]) for n in p for a, _ in n)]
        if lin:
            m = max(lin)
            c = p[m]
            rest = {n: -d / c for n, d in p.items() if n != m}
            a = m[0][0]
            self.subst = {b: self.replace(q, a, rest) for b, q in self.subst.items()}
            self.subst[a] = rest
            old, self.rules = self.rules, []
            for lead, q in old:
                if any(b == a for b, _ in lead) or any(b == a for n in q for b, _ in n):
                    self.learn(add({lead: Fraction(1)}, q, -1))
                else:
                    self.rules.append((lead, q))
            return
        m = max(p, key=self.order)
        c = p[m]
        self.rules.append((m, {n: -d / c for n, d in p.items() if n != m}))

    def uses(self, a, b):
        return False

    def replace(self, p, a, q):
        r = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            t = {mono_div(m, ((a, e),)) if e else m: c}
            for _ in range(e):
                t = mul(t, q)
            r = add(r, t)
        return r

    def roots(self):
        """two roots of the same square are equal"""
        sq = [(lead[0][0], rest) for lead, rest in self.rules if len(lead) == 1 and lead[0][1] == 2]
        return sq

    def run(self, goals):
        eqs = [h for h in self.hyps if z3.is_eq(h) and z3.is_real(h.arg(0))]
        for h in eqs:
            self.learn(add(self.poly(h.arg(0)), self.poly(h.arg(1)), -1))
        # r >= 0, s >= 0, r^2 = s^2 => r = s
        consts = {}
        for h in self.hyps:
            if z3.is_app(h) and h.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT):
                for x in h.children():
                    if z3.is_const(x) and z3.is_real(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        consts[x.get_id()] = x
        xs = [x for x in consts.values() if self.implied(x >= 0, False)]
        self.cache = {}
        by = {}
        for x in xs:
            p = self.poly(x)
            k = key_of(self.norm(mul(p, p)))
            if k in by:
                self.learn(add(p, by[k][0], -1))
                self.solver.add(x == by[k][1])
                self.linear.add(x == by[k][1])
                self.known = {}
            else:
                by[k] = (p, x)
        if self.implied(z3.BoolVal(False), bool(xs)):
            return True
        self.cache = {}
        for _ in range(3):       # atoms such as sin(p) and 1 / p are named by normal forms: once more with all the rules
            self.cache = {}
            old, self.rules = self.rules, []
            for h in eqs:
                self.learn(add(self.poly(h.arg(0)), self.poly(h.arg(1)), -1))
            for lead, q in old:
                self.learn(add({lead: Fraction(1)}, q, -1))
        return self.goals(goals)

    def goals(self, goals):
        for g in goals:
            if z3.is_and(g):
                if not self.goals(g.children()):
                    return False
                continue
            if z3.is_or(g):
                if not any(self.goals([x]) for x in g.children()):
                    return False
                continue
            if not (z3.is_eq(g) and z3.is_real(g.arg(0))):
                if not self.implied(g):
                    return False
                continue
            for _ in range(2):       # computing the sides can add rules: once more with them
                self.cache = {}
                p = self.norm(add(self.poly(g.arg(0)), self.poly(g.arg(1)), -1))
                if not p:
                    break
            if p:
                return False
        return True


def has_equation(g):
    return z3.is_eq(g) and z3.is_real(g.arg(0)) or (z3.is_and(g) or z3.is_or(g)) and any(has_equation(x) for x in g.children())


def prove(text, seconds, nonlinear=False):
    """True: the last assertion (the negated goal) contradicts the others (nonlinear: only tried for products of unknowns)"""
    a = list(z3.parse_smt2_string(text))
    if not a or not z3.is_not(a[-1]):
        return False
    hyps, goals = a[:-1], [a[-1].arg(0)]
    out = []
    while goals:
        g = goals.pop()
        if z3.is_and(g):
            goals += g.children()
        elif z3.is_implies(g) and not out and not goals:
            hyps.append(g.arg(0))
            goals.append(g.arg(1))
        else:
            out.append(g)
    if not any(has_equation(g) for g in out) or nonlinear and all(is_linear(g) for g in out):
        return False
    try:
        return Algebra(hyps, time.time() + seconds).run(out)
    except Stop:
        return False
