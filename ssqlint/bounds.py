"""Interval reasoning on index terms: is  p >= 0  for every value of its atoms?

Uses the sign domain, monotonicity of round/min/max, ranges of loop counters and the
branch conditions known to hold.  Incomplete: answers True or False ("not shown")."""
from . import terms as T
from .terms import Poly, A, ONE, ZERO, num
from fractions import Fraction


def ratio(p, q):
    """Poly k with p == k*q if p and q are proportional by a single monomial."""
    if not p.m or not q.m:
        return None
    c1, m1, r1 = T.content(p)
    c2, m2, r2 = T.content(q)
    if r1 == r2:
        s = 1
    elif r1 == -r2:
        s = -1
    else:
        return None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) - e
    cc, mm = T._mono_norm(d)
    return Poly({mm: s * c1 / c2 * cc})


class Prover:
    def __init__(self, facts, lits=(), subst=None):
        self.f = facts
        self.lits = list(lits)          # terms known to be >= 0
        self.sub = subst

    def nonneg(self, p, depth=8):
        f = self.f
        if self.sub:
            p = T.subst(p, self.sub)
        return self._nn(p, depth)

    def _nn(self, p, depth):
        f = self.f
        if f.sign(p) in ('+', '0+', '0'):
            return True
        if depth <= 0:
            return False
        # lattice atoms and selections, coefficient +-1 monomials only
        for mono, c in sorted(p.m.items(), key=repr):
            if len(mono) != 1 or mono[0][1] != 1:
                continue
            a = mono[0][0]
            rest = Poly({k: v for k, v in p.m.items() if k != mono})
            if a[0] in ('min', 'max'):
                alts = [rest + x.scale(c) for x in a[1]]
                every = (a[0] == 'min') == (c > 0)
                return (all if every else any)(self._nn(x, depth - 1) for x in alts)
            if a[0] == 'phi':
                pos = self.with_cond(a[1], True)
                neg = self.with_cond(a[1], False)
                return pos._nn(rest + a[2].scale(c), depth - 1) and neg._nn(rest + a[3].scale(c), depth - 1)
        for mono, c in sorted(p.m.items(), key=repr):
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == 'call':
                a = mono[0][0]
                rest = Poly({k: v for k, v in p.m.items() if k != mono})
                if a[1] == 'round' and abs(c) == 1 and f.is_int(rest):
                    if self._nn(rest + a[2].scale(c), depth - 1):
                        return True
                    if c == 1 and self._nn(rest + a[2] + num(Fraction(1, 2)), depth - 1):
                        return True
                if a[1] == 'floor' and abs(c) == 1 and f.is_int(rest):
                    if self._nn(rest + a[2].scale(c), depth - 1):
                        return True
                if a[1] == 'trunc' and abs(c) == 1 and f.is_int(rest):
                    # |trunc x| <= |x|, same sign
                    if c == 1 and self._nn(a[2], depth - 1) and self._nn(rest + a[2], depth - 1):
                        return True
                    if c == 1 and self._nn(rest, depth - 1) and self._nn(a[2] + ONE, depth - 1):
                        return True
                    if c == -1 and self._nn(rest - a[2], depth - 1) and self._nn(rest, depth - 1):
                        return True
                if a[1] == 'loopvar':
                    if c < 0 and self._nn(rest + (a[2] - ONE).scale(c), depth - 1):
                        return True
                    if c > 0 and self._nn(rest, depth - 1):
                        return True
        for q in self.lits:
            k = ratio(p, q)
            if k is not None and f.sign(k) in ('+', '0+'):
                return True
        if depth > 2:
            for q in self.lits:
                for k in self._factors(p, q):
                    r = p - k * q
                    if len(r.m) < len(p.m) and self._nn(r, depth - 3):
                        return True
        return False

    def _factors(self, p, q):
        out = []
        for m1, c1 in p.m.items():
            for m2, c2 in q.m.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) - e
                cc, mm = T._mono_norm(d)
                k = Poly({mm: c1 / c2 * cc})
                if self.f.sign(k) == '+' and k not in out:
                    out.append(k)
        return out[:12]

    def with_cond(self, c, val):
        n = Prover(self.f, self.lits, self.sub)
        n.lits += lits_of(c, val, self.f)
        return n


def lits_of(c, val, facts):
    """Terms known >= 0 when condition c has the given value."""
    if c is True or c is False:
        return []
    if c[0] == 'not':
        return lits_of(c[1], not val, facts)
    if c[0] == 'and' and val:
        return [x for y in c[1:] for x in lits_of(y, True, facts)]
    if c[0] == 'or' and not val:
        return [x for y in c[1:] for x in lits_of(y, False, facts)]
    if c[0] == 'gt0' and isinstance(c[1], Poly):
        if val:
            return [c[1] - ONE if facts.is_int(c[1]) else c[1]]
        return [-c[1]]
    if c[0] == 'eq0' and val and isinstance(c[1], Poly):
        return [c[1], -c[1]]
    return []
