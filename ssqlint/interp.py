"""Random interpretation of canonical terms (Gulwani & Necula's value numbering by random
valuations).  Used only to *withdraw* a difference between two normal forms: terms whose
normal forms differ but which take equal values under every sampled valuation of their
atoms are treated as equal.  Valuations are drawn both from a continuum and from a small
lattice, so ties and interval ends occur."""
import math
import random
from fractions import Fraction
from . import terms as T
from .terms import Poly


class CantEval(Exception):
    pass


class Valuation:
    def __init__(self, seed, lattice, facts, wide=False):
        self.seed, self.lattice, self.facts = seed, lattice, facts
        self.wide = wide                      # array elements range over many orders of magnitude
        self.memo = {}

    def _rng(self, key):
        return random.Random(repr((self.seed, key)))

    def draw(self, key, integer=False, pos=False, nonneg=False):
        r = self._rng(key)
        if self.wide and isinstance(key, tuple) and key[0] == 'get':
            v = 2. ** r.uniform(-40, 40)
            return v if (pos or nonneg) else v * r.choice([1, -1])
        if integer:
            return r.randint(3, 12) if (pos or nonneg) else r.randint(-4, 12)
        if self.lattice:
            v = r.choice([0, 1, 2, 3, 4, 5, .5, 1.5, 2.5]) if (pos or nonneg) else r.choice([-5, -3, -2, -1, 0, 1, 2, 3, 4, 5, .5, -1.5])
            if pos and v <= 0:
                v = 1
            return float(v)
        v = r.uniform(.2, 5)
        return v if (pos or nonneg) else v * r.choice([1, -1, 1])

    # ------------------------------------------------------------------ values
    def poly(self, p):
        tot = 0.0
        for mono, c in p.m.items():
            t = float(c)
            for a, e in mono:
                v = self.atom(a)
                ef = float(e)
                if v == 0 and ef < 0:
                    t = t * math.inf
                    continue
                try:
                    t = t * (v ** int(ef) if ef == int(ef) else v ** ef)
                except (OverflowError, ZeroDivisionError, ValueError):
                    raise CantEval
            tot = tot + t
        if isinstance(tot, complex) and abs(tot.imag) < 1e-12:
            tot = tot.real
        return tot

    def real(self, p):
        v = self.poly(p)
        if isinstance(v, complex):
            raise CantEval
        return v

    def key(self, x):
        if isinstance(x, Poly):
            v = self.poly(x)
            if isinstance(v, complex):
                return (round(v.real, 7) + 0.0, round(v.imag, 7) + 0.0)
            return round(v, 7) + 0.0 if math.isfinite(v) else v
        if isinstance(x, frozenset):
            return tuple(sorted((self.key(y) for y in x), key=repr))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        v = self._atom(a)
        self.memo[a] = v
        return v

    def _atom(self, a):
        f = self.facts
        k = a[0]
        if a == T.PI:
            return math.pi
        if a == T.INF:
            return math.inf
        if a == T.IM:
            return 1j
        if a == T.NAN:
            raise CantEval
        if k == 'prime':
            return float(a[1])
        if k == 'sum':
            return self.poly(a[1])
        if k in ('min', 'max'):
            vs = [self.real(x) for x in a[1]]
            return (min if k == 'min' else max)(vs)
        if k == 'phi':
            return self.poly(a[2]) if self.cond(a[1]) else self.poly(a[3])
        if k == 'ind':
            return 1.0 if self.cond(a[1]) else 0.0
        if k == 'pow':
            b, e = self.poly(a[1]), self.poly(a[2])
            try:
                return b ** e
            except (OverflowError, ZeroDivisionError):
                raise CantEval
        if k == 'get':
            key = ('get', a[1], tuple(self.key(x) for x in a[2:]))
            if isinstance(a[1], str) and a[1] in T.COMPLEX_ARRAYS:
                return complex(*self.pair(key))
            return self.draw(key, integer=a[1] in f.ints, nonneg=isinstance(a[1], str) and (a[1] in f.nonneg or a[1] in f.pos))
        if k == 'sym':
            n = a[1]
            if n in T.COMPLEX_ARRAYS:
                return complex(*self.pair(a))
            return self.draw(a, integer=n in f.ints or a in f.ints, pos=n in f.pos or a in f.pos, nonneg=n in f.nonneg or a in f.nonneg or n.startswith('#s'))
        if k == 'call':
            n = a[1]
            args = a[2:]
            if n == 'loopvar':
                t = args[0]
                tv = self.poly(t) if isinstance(t, Poly) else 8
                if isinstance(tv, complex) or not math.isfinite(tv):
                    raise CantEval
                hi = max(int(tv) - 1, 0)
                return self._rng(('lv', args[1], round(tv, 6))).randint(0, hi)
            if n == 'dim':
                return self._rng(('dim', self.key(tuple(args)))).randint(5, 14)
            if n in ('log', 'exp', 'sqrt', 'abs', 're', 'im', 'round', 'floor', 'ceil', 'trunc') and len(args) == 1:
                v = self.poly(args[0])
                try:
                    if n == 'abs':
                        return abs(v)
                    if n == 're':
                        return v.real if isinstance(v, complex) else v
                    if n == 'im':
                        return v.imag if isinstance(v, complex) else 0.0
                    if n == 'exp':
                        import cmath
                        return cmath.exp(v) if isinstance(v, complex) else math.exp(v)
                    if isinstance(v, complex):
                        raise CantEval
                    if n == 'log':
                        return math.log(v) if v > 0 else (-math.inf if v == 0 else math.log(-v))
                    if n == 'sqrt':
                        return math.sqrt(v)
                    if n == 'round':
                        # lattice values sit on ties on purpose; use one tie rule
                        return float(math.floor(v + .5 - 1e-9)) if math.isfinite(v) else v
                    if not math.isfinite(v):
                        return v
                    return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[n](v))
                except (ValueError, OverflowError):
                    raise CantEval
            if n == 'floordiv':
                x, y = self.real(args[0]), self.real(args[1])
                if y == 0:
                    raise CantEval
                return float(math.floor(x / y))
            if n == 'mod':
                x, y = self.real(args[0]), self.real(args[1])
                if y == 0:
                    raise CantEval
                return x - y * math.floor(x / y)
            key = ('call', n, tuple(self.key(x) if isinstance(x, (Poly, tuple, frozenset)) else x for x in args))
            return self.draw(key)
        return self.draw((k, tuple(self.key(x) if isinstance(x, (Poly, tuple, frozenset)) else x for x in a[1:])))

    def pair(self, key):
        r = self._rng(key)
        if self.wide:
            m = 2. ** r.uniform(-40, 40)
            return m * r.uniform(-3, 3), m * r.uniform(-3, 3)
        if self.lattice:
            return r.choice([(3., 4.), (4., 3.), (0., 2.), (1., 0.), (-3., 4.), (5., 0.), (0., -1.), (2., 0.), (0., .5)])
        return r.uniform(-3, 3), r.uniform(-3, 3)

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'not':
            return not self.cond(c[1])
        if k == 'and':
            return all(self.cond(x) for x in c[1:])
        if k == 'gt0':
            return self.real(c[1]) > 1e-9
        if k == 'eq0':
            v = self.poly(c[1])
            return abs(v) < 1e-9
        if k == 'isinf':
            v = self.poly(c[1])
            if isinstance(v, complex):
                v = abs(v)
            if math.isinf(v):
                return True
            return self._rng(('isinf', round(v, 7))).random() < .2
        if k == 'isnan':
            return self._rng(('isnan', self.key(c[1]))).random() < .2
        if k == 'flag':
            v = self.key(c[1])
            return self._rng(('flag', v)).random() < .5
        return self._rng(tuple(self.key(x) if isinstance(x, (Poly, tuple)) else x for x in c)).random() < .5


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b:
            return True
        try:
            if math.isinf(abs(a)) or math.isinf(abs(b)):
                return (isinstance(a, complex) or isinstance(b, complex)) and math.isinf(abs(a)) and math.isinf(abs(b))
            return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
        except OverflowError:
            return False
    return a == b


def valuations(facts, n=400):
    for s in range(n):
        yield Valuation(s, s % 4 == 1, facts, s % 4 == 3)


def differ(p, q, facts, n=300):
    """A valuation number where the two terms take different values, or None.
    Returns 'unknown' when no valuation could be evaluated."""
    ok = 0
    for v in valuations(facts, n):
        try:
            a, b = v.poly(p), v.poly(q)
        except CantEval:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue
        if a != a or b != b:
            continue
        ok += 1
        if not close(a, b):
            return v.seed
    return None if ok >= 5 else 'unknown'


def effects_differ(e1, e2, facts, n=600):
    """Compare two effect lists under valuations: the same writes must happen."""
    ok = 0
    for v in valuations(facts, n):
        try:
            r1, r2 = run_effects(e1, v), run_effects(e2, v)
        except CantEval:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
        ok += 1
        if len(r1) != len(r2) or any(not close(a, b) for a, b in zip(r1, r2)):
            return v.seed, r1, r2
    return None if ok >= 5 else 'unknown'


def run_effects(effs, v):
    out = []
    for e in effs:
        if not v.cond(e.guard):
            continue
        out.append((e.target, tuple(v.poly(i) if isinstance(i, Poly) else repr(i) for i in e.idx), e.op, v.poly(e.value)))
    out.sort(key=lambda t: repr((t[0], t[2], tuple(round(x, 3) if isinstance(x, (int, float)) and math.isfinite(x) else 0 for x in t[1] if not isinstance(x, complex)))))
    return out
