"""Canonical terms: multivariate Laurent polynomials over opaque atoms.

Every numeric value is a `Poly`: a finite map monomial -> rational coefficient.
A monomial is a sorted tuple of (atom, exponent), atoms are hashable tuples:
    ('sym', name)                 a named quantity
    ('get', base, idx...)         an array element
    ('call', fn, args...)         an uninterpreted function
    ('sum', Poly)                 a primitive sum kept as a factor (denominators, roots)
    ('prime', p)                  a prime under a fractional exponent
    ('pow', Poly, Poly)           symbolic exponent
    ('phi', cond, a, b)           value selected by a condition
    ('ind', cond)                 0/1 value of a condition
    ('min'|'max', frozenset)      lattice operations
Two expressions that are equal as rational functions over the same atoms have the
same Poly; this is value numbering, no solver is involved.
"""
from fractions import Fraction
import math

PI = ('sym', '#pi')
INF = ('sym', '#inf')
NAN = ('sym', '#nan')
IM = ('sym', '#j')


def _akey(a):
    """Deterministic sort key of an atom."""
    return repr(a)


class Poly:
    __slots__ = ('m', '_h', '_r')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._r = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and hash(self) == hash(o) and self.m == o.m

    def __repr__(self):
        if self._r is None:
            if not self.m:
                self._r = '0'
            else:
                parts = []
                for mono, c in sorted(self.m.items(), key=lambda t: repr(t[0])):
                    f = [] if (c == 1 and mono) else [str(c)]
                    for a, e in mono:
                        f.append(show_atom(a) + ('' if e == 1 else '^%s' % e))
                    parts.append('*'.join(f))
                self._r = '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
        return self._r

    # -- queries
    def const(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atom(self):
        """The atom if this is exactly one atom, else None."""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return None

    def atoms(self):
        return {a for mono in self.m for a, _ in mono}

    # -- arithmetic
    def __add__(self, o):
        m = dict(self.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            else:
                m.pop(k, None)
        return Poly(m)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                c, k = _mono_mul(k1, k2)
                v = m.get(k, 0) + c1 * c2 * c
                if v:
                    m[k] = v
                else:
                    m.pop(k, None)
        return _post(Poly(m))

    def scale(self, f):
        return Poly({k: c * f for k, c in self.m.items()}) if f else ZERO


def show_atom(a):
    if not isinstance(a, tuple):
        return str(a)
    k = a[0]
    if k == 'sym':
        return str(a[1])
    if k == 'get':
        return '%s[%s]' % (a[1] if isinstance(a[1], str) else show_atom(a[1]),
                           ','.join(map(str, a[2:])))
    if k == 'call':
        return '%s(%s)' % (a[1], ','.join(map(str, a[2:])))
    if k == 'sum':
        return str(a[1])
    if k == 'prime':
        return str(a[1])
    if k in ('min', 'max'):
        return '%s(%s)' % (k, ', '.join(sorted(map(str, a[1]))))
    if k == 'phi':
        return '(%s if %s else %s)' % (a[2], show_cond(a[1]), a[3])
    if k == 'ind':
        return '[%s]' % show_cond(a[1])
    return '%s(%s)' % (k, ','.join(map(str, a[1:])))


def show_cond(c):
    if c is True or c is False:
        return str(c)
    k = c[0]
    if k == 'not':
        return 'not ' + show_cond(c[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show_cond(x) for x in c[1:]) + ')'
    if k == 'gt0':
        return '%s > 0' % (c[1],)
    if k == 'eq0':
        return '%s == 0' % (c[1],)
    return '%s(%s)' % (k, ','.join(map(str, c[1:])))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def num(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, complex):
        return num(x.real) + num(x.imag) * A(IM)
    if isinstance(x, float):
        if math.isinf(x):
            return A(INF) if x > 0 else -A(INF)
        if math.isnan(x):
            return A(NAN)
        if x == 0:
            return ZERO
        r = x / math.pi
        f = Fraction(r).limit_denominator(64)
        if f and abs(float(f) - r) < 4e-15 * abs(r) and abs(f.numerator) <= 64 and f.denominator in (1, 2, 3, 4, 6, 8, 12, 16) and not float(x).is_integer():
            return Poly({((PI, Fraction(1)),): f})
        return Poly({(): Fraction(repr(x))})
    raise TypeError(x)


def A(atom):
    return Poly({((atom, Fraction(1)),): Fraction(1)})


def sym(name):
    return A(('sym', name))


def _is_int(e):
    return e.denominator == 1


def _mono_mul(k1, k2):
    """(coef, monomial) of the product of two monomials."""
    if not k1:
        return 1, k2
    if not k2:
        return 1, k1
    d = dict(k1)
    for a, e in k2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    c = Fraction(1)
    out = {}
    exps = None
    for a, e in d.items():
        if not e:
            continue
        if a == IM and _is_int(e):
            e4 = int(e) % 4
            if e4 in (2, 3):
                c = -c
            if e4 in (1, 3):
                out[a] = Fraction(1)
            continue
        k = a[0]
        if k == 'prime' and (e >= 1 or e < 0):
            fl = e.numerator // e.denominator
            c *= Fraction(a[1]) ** fl
            e = e - fl
            if not e:
                continue
        if k == 'ind' and e > 0:
            e = Fraction(1)
        if k == 'call' and a[1] == 'exp':
            t = a[2].scale(e)
            exps = t if exps is None else exps + t
            continue
        out[a] = e
    if exps is not None and exps.m:
        out[('call', 'exp', exps)] = Fraction(1)
    return c, tuple(sorted(out.items(), key=lambda t: repr(t)))


def _post(p):
    """Expand factors that became expandable ('sum' with positive integer exponent,
    |z|^2)."""
    for mono, c in p.m.items():
        for a, e in mono:
            if a[0] == 'sum' and e >= 1 and _is_int(e):
                rest = dict(mono)
                del rest[a]
                cc, km = _mono_norm(rest)
                other = Poly({k: v for k, v in p.m.items() if k != mono})
                q = Poly({km: c * cc})
                base = a[1]
                for _ in range(int(e)):
                    q = q * base
                return _post(other + q)
            if a[0] == 'call' and a[1] == 'abs' and _is_int(e) and int(e) % 2 == 0:
                z = a[2]
                rest = dict(mono)
                del rest[a]
                cc, km = _mono_norm(rest)
                other = Poly({k: v for k, v in p.m.items() if k != mono})
                if is_complex(z):
                    re, im = re_im(z)
                    sq = re * re + im * im
                else:
                    sq = z * z
                q = Poly({km: c * cc}) * power(sq, Fraction(int(e) // 2))
                return _post(other + q)
    return p


def content(p):
    """(coef, monomial, primitive Poly): p == coef * monomial * primitive, primitive
    having a canonical leading coefficient 1."""
    if not p.m:
        return Fraction(0), (), ZERO
    monos = list(p.m)
    common = None
    for k in monos:
        d = dict(k)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if (e > 0) == (d[a] > 0) else 0
                      for a, e in common.items() if a in d}
            # negative exponents: pull out the most negative one
    # denominators (negative exponents) anywhere are pulled out
    for k in monos:
        for a, e in k:
            if e < 0:
                cur = common.get(a, Fraction(0))
                common[a] = min(cur, e)
    common = {a: e for a, e in common.items() if e}
    inv = {a: -e for a, e in common.items()}
    prim = {}
    for k, c in p.m.items():
        d = dict(k)
        for a, e in inv.items():
            d[a] = d.get(a, 0) + e
        cc, kk = _mono_norm(d)
        prim[kk] = prim.get(kk, 0) + c * cc
    lead = prim[min(prim, key=repr)]
    prim = Poly({k: c / lead for k, c in prim.items()})
    cc, cm = _mono_norm(dict(common))
    return lead * cc, cm, prim


def power(p, e):
    """p ** e for a rational e."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.m:
        return ZERO if e > 0 else A(('call', 'div0'))
    if e > 0 and _is_int(e) and e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    c, mono, prim = content(p)
    d = {}
    for a, x in mono:
        d[a] = d.get(a, 0) + x * e
    if prim != ONE:
        d[('sum', prim)] = d.get(('sum', prim), Fraction(0)) + e
    if _is_int(e):
        coef = c ** int(e)
    else:
        if c < 0:
            return A(('pow', p, num(e)))
        coef = Fraction(1)
        for pr, k in _factor(c).items():
            d[('prime', pr)] = d.get(('prime', pr), Fraction(0)) + k * e
    cc, mm = _mono_norm(d)
    return _post(Poly({mm: coef * cc}))


def _factor(f):
    out = {}
    for n, s in ((f.numerator, 1), (f.denominator, -1)):
        n = abs(n)
        q = 2
        while n > 1:
            if q * q > n:
                q = n
            if q > 100000:
                out[n] = out.get(n, 0) + s
                break
            while n % q == 0:
                out[q] = out.get(q, 0) + s
                n //= q
            q += 1
    return out


def div(a, b):
    return a * power(b, Fraction(-1))


def pw(a, b):
    """a ** b with symbolic exponent."""
    c = b.const()
    if c is not None:
        return power(a, c)
    if a == ONE:
        return ONE
    if a.atom() is not None and a.atom()[0] == 'pow':
        _, x, y = a.atom()
        return pw(x, y * b)
    if a.atom() is not None and a.atom()[0] == 'ind':
        return a
    # distribute over monomials: (x*y)^b
    if len(a.m) == 1:
        (mono, c0), = a.m.items()
        if len(mono) > 1 or (c0 != 1 and mono):
            r = ONE if c0 == 1 else A(('pow', num(c0), b))
            for at, e in mono:
                if at[0] == 'ind':
                    r = r * A(at)
                else:
                    r = r * pw(power(A(at), e), b) if e == 1 else r * pw(A(at), b.scale(e))
            return r
        if mono and mono[0][1] != 1:
            return pw(A(mono[0][0]), b.scale(mono[0][1]))
    return A(('pow', a, b))


# ---------------------------------------------------------------- complex parts
COMPLEX_ARRAYS = {'Wx', 'dWx', 'Sx', 'dSx', 'Tf', 'Tx'}


def is_complex(p):
    return any(_catom(a) for a in p.atoms())


def _catom(a):
    if a == IM:
        return True
    if a[0] == 'get' and isinstance(a[1], str):
        return a[1] in COMPLEX_ARRAYS
    if a[0] == 'sym':
        return a[1] in COMPLEX_ARRAYS
    if a[0] == 'sum':
        return is_complex(a[1])
    if a[0] == 'call' and a[1] in ('exp',):
        return is_complex(a[2])
    return False


def re_im(p):
    re, im = ZERO, ZERO
    for mono, c in p.m.items():
        r, i = num(c), ZERO
        for a, e in mono:
            if not _catom(a):
                f = Poly({((a, e),): Fraction(1)})
                r, i = r * f, i * f
                continue
            if not _is_int(e):
                raise Unsupported('fractional power of complex')
            if a == IM:
                ar, ai = ZERO, ONE
            else:
                ar, ai = A(('call', 're', A(a))), A(('call', 'im', A(a)))
            n = int(e)
            if n < 0:
                q = power(ar * ar + ai * ai, Fraction(-1))
                ar, ai = ar * q, (-ai) * q
                n = -n
            for _ in range(n):
                r, i = r * ar - i * ai, r * ai + i * ar
        re, im = re + r, im + i
    return re, im


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- signs
class Facts:
    """Signs of atoms: pos / nonneg sets, integer-valued atoms."""

    def __init__(self, pos=(), nonneg=(), ints=()):
        self.pos = set(pos)
        self.nonneg = set(nonneg)
        self.ints = set(ints)

    def atom_sign(self, a):
        """'+' positive, '0+' nonneg, None unknown."""
        if a == PI or a == INF or a in self.pos or a[0] == 'prime':
            return '+'
        if a[0] == 'sym' and a[1] in self.pos:
            return '+'
        if a in self.nonneg or (a[0] == 'sym' and a[1] in self.nonneg):
            return '0+'
        if a[0] == 'call' and a[1] == 'exp' and not is_complex(a[2]):
            return '+'
        if a[0] == 'call' and a[1] == 'abs':
            return '0+'
        if a[0] == 'ind':
            return '0+'
        if a[0] == 'sum':
            s = self.sign(a[1])
            return s if s in ('+', '0+') else None
        if a[0] == 'pow':
            s = self.sign(a[1])
            return s if s in ('+', '0+') else None
        if a[0] == 'call' and a[1] in ('loopvar', 'dim'):
            return '0+'
        return None

    def sign(self, p):
        """'+', '0+', '-', '0-', '0' or None."""
        if not p.m:
            return '0'
        got = set()
        for mono, c in p.m.items():
            s = '+'
            for a, e in mono:
                if _is_int(e) and int(e) % 2 == 0 and not _catom(a):
                    t = self.atom_sign(a)
                    t = '+' if t == '+' else '0+'
                else:
                    t = self.atom_sign(a)
                if t is None:
                    return None
                if t == '0+':
                    s = '0+'
            if c < 0:
                s = {'+': '-', '0+': '0-'}[s]
            got.add(s)
        if got <= {'+', '0+'}:
            return '+' if '+' in got else '0+'
        if got <= {'-', '0-'}:
            return '-' if '-' in got else '0-'
        c0 = p.m.get((), 0)
        if c0 < 0 and self._least(p) >= -c0:
            return '+' if self._least(p) > -c0 else '0+'
        if c0 > 0 and self._least(-p) >= c0:
            return '-' if self._least(-p) > c0 else '0-'
        return None

    def _least(self, p):
        """a lower bound of the non-constant part, positive integers being at least one"""
        n = 0
        for mono, c in p.m.items():
            if mono == ():
                continue
            if c < 0:
                return -1
            if all(_is_int(e) and e > 0 and self.int_atom(a) and self.atom_sign(a) == '+' for a, e in mono):
                n += c
        return n

    def is_int(self, p):
        for mono, c in p.m.items():
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e < 0 or not _is_int(e) or not self.int_atom(a):
                    return False
        return True

    def int_atom(self, a):
        if a in self.ints or (a[0] in ('sym', 'get') and a[1] in self.ints):
            return True
        if a[0] == 'call' and a[1] in ('round', 'floor', 'ceil', 'trunc', 'dim',
                                       'loopvar', 'floordiv', 'argmin', 'len'):
            return True
        if a[0] in ('min', 'max'):
            return all(self.is_int(x) for x in a[1])
        if a[0] == 'phi':
            return self.is_int(a[2]) and self.is_int(a[3])
        return False


NOFACTS = Facts()


def fabs(p, facts=NOFACTS):
    """|p| with positive factors pulled out and sign normalised."""
    if not p.m:
        return ZERO
    c, mono, prim = content(p)
    outside = {}
    inside = {}
    for a, e in mono:
        if facts.atom_sign(a) in ('+', '0+') or (_is_int(e) and int(e) % 2 == 0 and not _catom(a)):
            outside[a] = e
        elif _catom(a) and len(mono) > 1:
            outside[('call', 'abs', A(a))] = e
        else:
            inside[a] = e
    cc, om = _mono_norm(outside)
    ci, imn = _mono_norm(inside)
    inner = Poly({imn: Fraction(1)}) * prim
    if facts.sign(inner) in ('+', '0+'):
        r = inner
    elif inner == ONE:
        r = ONE
    else:
        _, _, pr = content(inner)
        lead = inner.m[min(inner.m, key=repr)]
        if lead < 0:
            inner = -inner
        r = A(('call', 'abs', inner))
    return _post(Poly({om: abs(c * cc * ci)}) * r)


# ---------------------------------------------------------------- conditions
def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        out += list(c[1:]) if c[0] == 'and' else [c]
    out = list(dict.fromkeys(out))
    return True if not out else (out[0] if len(out) == 1 else ('and', *out))


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


def gt(a, b, facts=NOFACTS):
    """a > b"""
    p = a - b
    c = p.const()
    if c is not None:
        return c > 0
    k, mono, prim = content(p)
    s = facts.sign(Poly({mono: Fraction(1)})) if mono else '+'
    if s == '+':
        p = prim.scale(k / abs(k)) if k else p
    else:
        p = p.scale(1 / abs(k))
    if facts.sign(p) in ('+',):
        return True
    if facts.sign(p) in ('-', '0-', '0'):
        return False
    if facts.is_int(p) and not facts.is_int(ZERO):
        pass
    return ('gt0', p)


def lt(a, b, facts=NOFACTS):
    return gt(b, a, facts)


def ge(a, b, facts=NOFACTS):
    """a >= b; for integers a > b - 1."""
    if facts.is_int(a - b):
        return gt(a - b + ONE, ZERO, facts)
    return cnot(gt(b, a, facts))


def le(a, b, facts=NOFACTS):
    return ge(b, a, facts)


def eq(a, b, facts=NOFACTS):
    p = a - b
    c = p.const()
    if c is not None:
        return c == 0
    k, mono, prim = content(p)
    return ('eq0', prim if not mono else p.scale(1 / k))


# ---------------------------------------------------------------- lattice ops
def fmin(xs, facts=NOFACTS):
    return _lat('min', xs, facts)


def fmax(xs, facts=NOFACTS):
    return _lat('max', xs, facts)


def _lat(op, xs, facts):
    flat = set()
    for x in xs:
        a = x.atom()
        if a is not None and a[0] == op:
            flat |= set(a[1])
        else:
            flat.add(x)
    # drop dominated elements
    out = set(flat)
    for x in flat:
        for y in flat:
            if x is y or x not in out or y not in out or x == y:
                continue
            s = facts.sign(x - y)
            if s in ('+', '0+'):
                out.discard(y if op == 'max' else x)
    # canonical clamp: min(max(x,0),h) is used for max(min(x,h),0) when 0 <= h
    if len(out) == 1:
        return next(iter(out))
    if op == 'max':
        for x in list(out):
            a = x.atom()
            if a is not None and a[0] == 'min':
                los = [y for y in out if y is not x]
                his = [y for y in a[1] if all(facts.sign(y - l) in ('+', '0+', '0') for l in los)]
                rest = [y for y in a[1] if y not in his]
                if his and rest:
                    inner = _lat('max', los + [_lat('min', rest, facts)], facts)
                    return _lat('min', his + [inner], facts)
    return A((op, frozenset(out)))


def phi(c, a, b, facts=NOFACTS):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return phi(c[1], b, a, facts)
    if c[0] == 'gt0' and isinstance(a, Poly) and isinstance(b, Poly):
        p = c[1]
        for s in (1, -1):
            # p > 0 selects a ; compare p with a - b up to a positive factor
            d = (a - b).scale(s)
            if d.m:
                k, mono, prim = content(d)
                q = prim.scale(k / abs(k)) if not mono or facts.sign(Poly({mono: Fraction(1)})) == '+' else d.scale(1 / abs(k))
                # for integers p may be d - 1 + 1 etc.
                if q == p or (facts.is_int(d) and (d == p or d + ONE == p or d - ONE == p) and _lat_ok(d, p, facts)):
                    return fmax([a, b], facts) if s == 1 else fmin([a, b], facts)
    if c[0] == 'gt0' and isinstance(a, Poly) and isinstance(b, Poly):
        # (x > h -> h | max(x, l)) == min(max(x, l), h) when l <= h, and dually
        at = b.atom()
        if at is not None and at[0] in ('max', 'min'):
            for x in at[1]:
                d = (x - a) if at[0] == 'max' else (a - x)
                rest = [y for y in at[1] if y is not x]
                ok = all(facts.sign((a - y) if at[0] == 'max' else (y - a)) in ('+', '0+', '0') for y in rest)
                if ok and (d == c[1] or (facts.is_int(d) and d + ONE == c[1])):
                    return _lat('min' if at[0] == 'max' else 'max', [a, b], facts)
    return A(('phi', c, a, b))


def _lat_ok(d, p, facts):
    # p > 0 iff d > 0 (p == d), or p == d+1: d > -1 i.e. d >= 0: max either way (tie)
    # p == d-1: d > 1 would pick b for d == 1: not a max
    return p == d or p == d + ONE


def subst(x, f):
    """Rebuild a term bottom-up, mapping each atom through f (atom -> Poly or None)."""
    if not isinstance(x, Poly):
        return x
    top = not _SUB or _SUB[-1][0] is not f or _SUB[-1][2] is not _FACTS[-1]
    if top:
        _SUB.append((f, {}, _FACTS[-1]))
    memo = _SUB[-1][1]
    try:
        if x in memo:
            return memo[x]
        out = ZERO
        for mono, c in x.m.items():
            t = num(c)
            for a, e in mono:
                b = _subst_atom(a, f)
                t = t * power(b, e)
            out = out + t
        memo[x] = out
        return out
    finally:
        if top:
            _SUB.pop()


_SUB = []


def subst_cond(c, f, facts=NOFACTS):
    if c is True or c is False:
        return c
    k = c[0]
    if k == 'not':
        return cnot(subst_cond(c[1], f, facts))
    if k == 'and':
        return cand(*[subst_cond(x, f, facts) for x in c[1:]])
    if k == 'gt0':
        return gt(subst(c[1], f), ZERO, facts)
    if k == 'eq0':
        return eq(subst(c[1], f), ZERO, facts)
    return (k, *[_subst_any(x, f) for x in c[1:]])


_FACTS = [NOFACTS]


def _subst_atom(a, f):
    r = f(a)
    if r is not None:
        return r
    k = a[0]
    facts = _FACTS[-1]
    if k in ('sym', 'prime'):
        return A(a)
    if k == 'sum':
        return subst(a[1], f)
    if k in ('min', 'max'):
        return _lat(k, [subst(x, f) for x in a[1]], facts)
    if k == 'phi':
        return phi(subst_cond(a[1], f, facts), subst(a[2], f), subst(a[3], f), facts)
    if k == 'ind':
        c = subst_cond(a[1], f, facts)
        return ind(c)
    if k == 'pow':
        return pw(subst(a[1], f), subst(a[2], f))
    if k == 'call' and a[1] == 'abs':
        return fabs(subst(a[2], f), facts)
    if k == 'call' and a[1] in ('re', 'im'):
        z = subst(a[2], f)
        if is_complex(z) and z.atom() is None:
            return re_im(z)[0 if a[1] == 're' else 1]
        return A(('call', a[1], z))
    out = (k, *[_subst_any(x, f) for x in a[1:]])
    if k == 'call' and a[1] in ('floordiv', 'mod', 'ceil', 'floor', 'trunc') and all(isinstance(x, Poly) and x.const() is not None for x in out[2:]):
        c = [x.const() for x in out[2:]]
        if a[1] == 'ceil' and len(c) == 1:
            return num(-((-c[0]) // 1))
        if a[1] == 'floor' and len(c) == 1:
            return num(c[0] // 1)
        if a[1] == 'trunc' and len(c) == 1:
            return num(c[0] // 1 if c[0] >= 0 else -((-c[0]) // 1))
        if len(c) == 2 and c[1] != 0 and a[1] == 'floordiv':
            return num(c[0] // c[1])
        if len(c) == 2 and c[1] != 0 and a[1] == 'mod':
            return num(c[0] % c[1])
    return A(out)


def _subst_any(x, f):
    if isinstance(x, Poly):
        return subst(x, f)
    if isinstance(x, tuple) and x:
        if x[0] in ('gt0', 'eq0', 'not', 'and', 'flag') and len(x) > 1 and not isinstance(x[1], (int, str)):
            return subst_cond(x, f, _FACTS[-1])
        return tuple(_subst_any(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_subst_any(y, f) for y in x)
    return x


def ind(c):
    if c is True:
        return ONE
    if c is False:
        return ZERO
    if c[0] == 'not':
        return ONE - A(('ind', c[1]))
    return A(('ind', c))


def cond_atoms(c, out=None):
    out = [] if out is None else out
    if c is True or c is False:
        return out
    if c[0] == 'not':
        cond_atoms(c[1], out)
    elif c[0] == 'and':
        for x in c[1:]:
            cond_atoms(x, out)
    elif c not in out:
        out.append(c)
    return out


def cond_eval(c, asg):
    """Simplify a condition under an assignment of atoms."""
    if c is True or c is False:
        return c
    if c in asg:
        return asg[c]
    if c[0] == 'not':
        return cnot(cond_eval(c[1], asg))
    if c[0] == 'and':
        return cand(*[cond_eval(x, asg) for x in c[1:]])
    return c


def walk(x, visit):
    """Visit every atom inside a Poly / condition."""
    if isinstance(x, Poly):
        for mono in x.m:
            for a, _ in mono:
                walk(a, visit)
    elif isinstance(x, frozenset):
        for y in x:
            walk(y, visit)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            visit(x)
        for y in x:
            if not isinstance(y, (str, int)):
                walk(y, visit)
