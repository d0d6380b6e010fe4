"""The numeric domain: conjunctions of linear inequalities (convex polyhedra), feasibility by Fourier-Motzkin projection.

A form is (const, {atom: coef}) over Fractions.  A constraint (form, strict) means form >= 0 (or > 0).
"""
from fractions import Fraction
from math import gcd

MAX_CONS = 300


def normal(form, strict, all_int):
    """Scale to integer coefficients, tighten over integers."""
    c, ts = form
    if not ts:
        return (c, ()), strict
    den = 1
    for v in list(ts.values()) + [c]:
        den = den * v.denominator // gcd(den, v.denominator)
    its = {a: int(v * den) for a, v in ts.items() if v != 0}
    ic = c * den
    g = 0
    for v in its.values():
        g = gcd(g, abs(v))
    if g == 0:
        return (c, ()), strict
    if all_int and ic.denominator == 1:
        ic = int(ic)
        if strict:
            ic -= 1
            strict = False
        # sum g*k*x + ic >= 0  ->  sum k*x + floor(ic/g) >= 0
        return (Fraction(ic // g), tuple(sorted(((a, Fraction(v // g)) for a, v in its.items()), key=lambda t: t[0].n if t[0].n else id(t[0])))), strict
    return (Fraction(ic, 1) / g, tuple(sorted(((a, Fraction(v, g)) for a, v in its.items()), key=lambda t: t[0].n if t[0].n else id(t[0])))), strict


def is_int_form(ts):
    return all(a.ty is int or a.ty is bool for a in ts)


class Poly:
    def __init__(self):
        self.cons = []            # ((c, ((atom, coef), ...)), strict)
        self.seen = set()

    def add(self, form, strict=False):
        f, s = normal(form, strict, is_int_form(form[1]))
        if not f[1]:
            return
        if (f, s) in self.seen:
            return
        self.seen.add((f, s))
        self.cons.append((f, s))

    def feasible_with(self, form, strict=False):
        f, s = normal(form, strict, is_int_form(form[1]))
        if not f[1]:
            return f[0] > 0 or (f[0] == 0 and not s)
        # only constraints connected to the query
        cons = [(f, s)]
        atoms = {a for a, _ in f[1]}
        rest = list(self.cons)
        changed = True
        while changed:
            changed = False
            keep = []
            for c in rest:
                if any(a in atoms for a, _ in c[0][1]):
                    cons.append(c)
                    atoms.update(a for a, _ in c[0][1])
                    changed = True
                else:
                    keep.append(c)
            rest = keep
        return feasible(cons)


def feasible(cons):
    cur = {}
    for (c, ts), s in cons:
        put(cur, c, ts, s)
    while True:
        # constants
        if () in cur:
            c, s = cur.pop(())
            if c < 0 or (c == 0 and s):
                return False
        if not cur:
            return True
        # choose the atom with the fewest combinations
        pos, neg = {}, {}
        for ts in cur:
            for a, k in ts:
                (pos if k > 0 else neg).setdefault(a, []).append(ts)
        best = None
        for a in set(pos) | set(neg):
            cost = (len(pos.get(a, ())) * len(neg.get(a, ())) - len(pos.get(a, ())) - len(neg.get(a, ())), a.n)
            if best is None or cost < best[0]:
                best = (cost, a)
        a = best[1]
        nxt = {}
        for ts, (c, s) in cur.items():
            if not any(x is a for x, _ in ts):
                put(nxt, c, ts, s)
        for p in pos.get(a, ()):
            for q in neg.get(a, ()):
                cp, sp = cur[p]
                cq, sq = cur[q]
                kp = next(k for x, k in p if x is a)
                kq = -next(k for x, k in q if x is a)
                comb = {}
                for x, k in p:
                    comb[x] = comb.get(x, 0) + k * kq
                for x, k in q:
                    comb[x] = comb.get(x, 0) + k * kp
                comb.pop(a, None)
                ts = {x: k for x, k in comb.items() if k != 0}
                c = cp * kq + cq * kp
                f, s = normal((c, ts), sp or sq, is_int_form(ts))
                put(nxt, f[0], f[1], s)
        cur = nxt
        if len(cur) > MAX_CONS:
            return True


def put(d, c, ts, s):
    old = d.get(ts)
    if old is None or c < old[0] or (c == old[0] and s):
        d[ts] = (c, s)
