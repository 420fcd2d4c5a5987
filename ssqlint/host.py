"""Running the host engine from a check: entry runs, symbolic inputs, term comparison."""
import contextlib
import math
from . import terms as T
from .terms import Poly, A, ZERO, ONE, num, sym
from .flow import (Interp, HostFacts, K, Num, B, Tup, Ref, AV, Fn, Cls, Py, Phi, Opq, UNDEF, NONE, DT,
                   RaiseSig, Unsup, ix, ListC, DictC, InstC, ArrC)
from .bounds import Prover
from .interp import Valuation, CantEval, close

PK = 'ssqueezepy.'


class Res:
    def __init__(self, I, st, v, exc, unsup):
        self.I, self.st, self.v, self.exc, self.unsup = I, st, v, exc, unsup

    @property
    def ok(self):
        return self.exc is None and self.unsup is None

    def items(self):
        v = self.I.simp(self.st, self.v)
        return list(v.items) if isinstance(v, Tup) else [v]

    def sh(self, a):
        return self.I.ashape(self.st, a)

    def body(self, a):
        return self.I.abody(self.st, a)

    def dt(self, a):
        return self.I.adt(self.st, a)

    def ev(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]

    def why(self):
        if self.exc is not None:
            return 'raises %s: %s' % (self.exc.exc, self.exc.msg)
        if self.unsup is not None:
            return 'not interpreted: %s' % self.unsup
        return 'ok'


class Host:
    """One configuration of the host engine."""

    def __init__(self, proj, pos=(), ints=(), models=None, env=None, gpu=False, opaque=(), nonneg=(), reals=None, import_env=None, files=None):
        self.facts = HostFacts(pos=set(pos), nonneg=set(nonneg), ints=set(ints))
        self.I = Interp(proj, env=env, models={norm_key(k): v for k, v in (models or {}).items()}, opaque=opaque, facts=self.facts, gpu=gpu,
                        import_env=import_env, files=files)
        T._FACTS.pop()
        if reals is not None:
            self.I.reals = set(reals)
        self.st = self.I.start()
        self.proj = proj

    def arr(self, name, *dims, dt='float64', lib='np'):
        d = tuple(sym(a) if isinstance(a, str) else (a if isinstance(a, Poly) else num(a)) for a in dims)
        return self.I.newarr(self.st, d, A(('get', name) + tuple(ix(k) for k in range(len(d)))), dt, lib,
                             org=frozenset([name]))

    def num(self, name, dt=None):
        return Num(sym(name) if isinstance(name, str) else name, dt)

    def glob(self, mod, name):
        T._FACTS.append(self.facts)
        try:
            return self.I.glob(self.st, self.proj.modules[PK + mod], name)
        finally:
            T._FACTS.pop()

    def run(self, mod, fn, args):
        a = {k: (v if isinstance(v, (K, Num, B, Tup, Ref, AV, Fn, Cls, Py, Phi, Opq)) else lift(self.I, self.st, v)) for k, v in args.items()}
        T._FACTS.append(self.facts)
        try:
            v, s = self.I.run(PK + mod, fn, a, self.st)
            return Res(self.I, s, v, None, None)
        except RaiseSig as e:
            return Res(self.I, self.st, None, e, None)
        except (Unsup, RecursionError) as e:
            return Res(self.I, self.st, None, None, e)
        finally:
            T._FACTS.pop()

    @contextlib.contextmanager
    def ctx(self):
        T._FACTS.append(self.facts)
        try:
            yield
        finally:
            T._FACTS.pop()

    def with_facts(self, fn, *a, **k):
        T._FACTS.append(self.facts)
        try:
            return fn(*a, **k)
        finally:
            T._FACTS.pop()


def norm_key(k):
    return (PK + k[0], k[1]) if not k[0].startswith('ssqueezepy') else k


def lift(I, st, v):
    if isinstance(v, (list,)):
        return I.newlist(st, [lift(I, st, x) if not hasattr(x, '__slots__') or isinstance(x, (list, tuple, dict)) else x for x in v])
    if isinstance(v, tuple):
        return Tup([lift(I, st, x) if isinstance(x, (list, tuple, dict, int, float, str, type(None))) else x for x in v])
    if isinstance(v, dict):
        return I.newdict(st, {k: lift(I, st, x) if isinstance(x, (list, tuple, dict, int, float, str, type(None), bool)) else x for k, x in v.items()})
    if isinstance(v, Poly):
        return Num(v)
    return K(v)


# ------------------------------------------------------------------ taint
OPAQUE = {'apply', 'meth', 'attr', 'item', 'scatter', 'masked', 'truth', 'open', 'str', 'iter'}


def tainted(x, extra=()):
    """Names of constructs inside a term that the engine did not interpret."""
    out = []

    def visit(a):
        if a[0] == 'call' and len(a) > 1 and isinstance(a[1], str) and (a[1] in OPAQUE or a[1] in extra):
            if a[1] not in out:
                out.append(a[1])
        elif a[0] in ('loop', 'lc', 'rec', 'undef') and a[0] not in out:
            out.append(a[0])
        elif a[0] == 'sym' and isinstance(a[1], str) and a[1] in ('#exc',):
            out.append(a[1])
    T.walk(x, visit)
    return out


# ------------------------------------------------------------------ comparison
def decide_cond(c, prover, facts):
    if c is True or c is False:
        return c
    if c[0] == 'gt0' and isinstance(c[1], Poly):
        p = c[1]
        if facts.is_int(p):
            if prover.nonneg(p - ONE, 4):
                return True
        if prover.nonneg(-p, 4):
            return False
    if c[0] == 'eq0' and isinstance(c[1], Poly):
        p = c[1]
        if facts.is_int(p) and (prover.nonneg(p - ONE, 4) or prover.nonneg(-p - ONE, 4)):
            return False
    return None


def first_cond(p):
    found = []

    def visit(a):
        if a[0] in ('phi', 'ind') and not found:
            cs = T.cond_atoms(a[1])
            if cs:
                found.append(cs[0])
    T.walk(p, visit)
    return found[0] if found else None


def all_conds(p):
    out = []

    def visit(a):
        if a[0] in ('phi', 'ind'):
            for c in T.cond_atoms(a[1]):
                if c not in out:
                    out.append(c)
    T.walk(p, visit)
    return out


def resolve(p, asg, facts):
    def f(a):
        if a[0] == 'phi':
            c = T.cond_eval(T.subst_cond(a[1], f, facts), asg)
            if c is True:
                return T.subst(a[2], f)
            if c is False:
                return T.subst(a[3], f)
            return T.phi(c, T.subst(a[2], f), T.subst(a[3], f), facts)
        if a[0] == 'ind':
            return T.ind(T.cond_eval(T.subst_cond(a[1], f, facts), asg))
        return None
    return T.subst(p, f)


def simplify(p, facts, lits=(), asg=None):
    """Resolve the selections of p that the known inequalities decide."""
    T._FACTS.append(facts)
    try:
        for _ in range(8):
            a = dict(asg or {})
            pr = Prover(facts, list(lits))
            for c in all_conds(p):
                if c not in a:
                    d = decide_cond(c, pr, facts)
                    if d is not None:
                        a[c] = d
            q = resolve(p, a, facts)
            if q == p:
                return q
            p = q
        return p
    finally:
        T._FACTS.pop()


SMALL = (2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 12)


class HV(Valuation):
    def draw(self, key, integer=False, pos=False, nonneg=False):
        if integer and (pos or nonneg):
            return self._rng(key).choice(SMALL)
        return Valuation.draw(self, key, integer, pos, nonneg)

    def _atom(self, a):
        if a[0] == 'lx' and a[1] in self.bound:
            return self.bound[a[1]]
        if a[0] in ('ix', 'bv', 'lv', 'lx'):
            return self._rng(a).randint(0, 9)
        return Valuation._atom(self, a)

    bound, inner = {}, None

    def lam(self, sh, body):
        """an element of an array given by its body: indices within its lengths"""
        b = dict(self.bound)
        for k, n in enumerate(sh):
            v = self.poly(n) if isinstance(n, Poly) else n
            n = int(v) if isinstance(v, (int, float)) and math.isfinite(v) else 1
            b[k] = self._rng(('lx', k, n)).randint(0, max(n, 1) - 1)
        if self.inner is None:
            self.inner = {}
        i = tuple(sorted(b.items()))
        if i not in self.inner:
            c = type(self)(self.seed, self.lattice, self.facts)
            c.bound, c.inner = b, self.inner
            self.inner[i] = c
        return self.inner[i].key(body)

    def key(self, x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'lam' and isinstance(x[1], tuple):
            return ('lam', tuple(self.key(n) for n in x[1]), self.lam(x[1], x[2]))
        if isinstance(x, tuple) and x and x[0] in ('gt0', 'eq0', 'not', 'and') and len(x) > 1 and not isinstance(x[1], (int, str)):
            return self.cond(x)
        return Valuation.key(self, x)


def differ(p, q, facts, lits=(), n=400):
    """Number of a valuation (satisfying lits) that separates the terms, None, or 'unknown'."""
    if len(repr(p)) + len(repr(q)) > 20000:
        n = min(n, 100)
    ok = bad = 0
    for s in range(8 * n):
        if ok >= n or ok + bad >= n:
            break
        v = HV(s, s % 2 == 1, facts)
        try:
            if any(v.real(l) < -1e-9 for l in lits):
                continue
            bad += 1
            a, b = v.poly(p), v.poly(q)
        except (CantEval, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue
        if a != a or b != b:
            continue
        ok += 1
        bad -= 1
        if not close(a, b):
            return s
    return None if ok >= 20 else 'unknown'


def same(p, q, facts, lits=()):
    """'eq' / 'ne' / '?' with the reason."""
    if p == q:
        return 'eq', 'same normal form'
    T._FACTS.append(facts)
    try:
        p, q = simplify(p, facts, lits), simplify(q, facts, lits)
        if p == q:
            return 'eq', 'same normal form under the index bounds'
        r = cases(p, q, facts, list(lits), 10)
        if r is None:
            return 'eq', 'same normal form in every case'
        d = differ(p, q, facts, lits)
        if d is None:
            return 'eq', 'no valuation separates the terms'
        t = tainted(p) + tainted(q)
        if d == 'unknown' or t:
            return '?', 'terms differ, not interpreted: %s' % (t or d)
        return 'ne', 'under %s: %s  versus  %s' % ([T.show_cond(c) for c in r[0]] or 'all cases', short(r[1]), short(r[2]))
    finally:
        T._FACTS.pop()


def short(p, n=260):
    s = repr(p)
    return s if len(s) <= n else s[:n] + '...'


def cases(p, q, facts, lits, depth, pc=()):
    """None if p == q in all cases, else (path, p, q) of the first differing case."""
    if p == q:
        return None
    c = first_cond(p) or first_cond(q)
    if c is None or depth == 0:
        return pc, p, q
    pr = Prover(facts, lits)
    d = decide_cond(c, pr, facts)
    for val in (True, False):
        if d is not None and d != val:
            continue
        asg = {c: val}
        p2, q2 = resolve(p, asg, facts), resolve(q, asg, facts)
        l2 = pr.with_cond(c, val).lits
        r = cases(p2, q2, facts, l2, depth - 1, pc + (c if val else T.cnot(c),))
        if r is not None:
            return r
    return None


def at(body, maps):
    """Element at given indices: body with ix(k) replaced."""
    return T.subst(body, lambda a: maps.get(a[1]) if a[0] == 'ix' else None)


def atoms_of(x, pred):
    out = []

    def visit(a):
        if pred(a) and a not in out:
            out.append(a)
    T.walk(x, visit)
    return out


# ------------------------------------------------------------------ common models
def psi_model(dt='float32', name='gmw_l1'):
    def m(I, st, d, node):
        def f(I2, s, args, kw, n):
            return I2.split(s, args[0], lambda s2, w: I2.lib.elem(s2, lambda p: A(('call', 'psi', p)), [w], dt, n))
        return Py(name, f)
    return m


def xi_model(I, st, d, node):
    """sampled frequency axis: scale * xi(N, i) (its values are C25's business)"""
    N, s = I.P(d['N']), I.P(d['scale'])
    dt = I.simp(st, d['dtype']) if d.get('dtype') is not None else None
    dt = I.lib.dtname(st, dt) if dt is not None and dt is not NONE else None
    return I.newarr(st, (N,), s * A(('call', 'xi', N, ix(0))), dt if dt in ('float32', 'float64') else 'float64')


def p2up_model(I, st, d, node):
    n = d.get('n')
    return Tup([Num(I.P(n) + sym('n1') + sym('n2'), 'pyint'), Num(sym('n1'), 'pyint'), Num(sym('n2'), 'pyint')])


def const_model(v):
    def m(I, st, d, node):
        return v(I, st, d) if callable(v) else v
    return m


def scaletype_model(kind, nv='nv'):
    def m(I, st, d, node):
        n = Num(sym(nv), 'pyint') if isinstance(nv, str) else nv
        if kind == 'log-piecewise':
            n = I.newarr(st, (A(('call', 'len', sym('#scales'))),), A(('get', 'nv', ix(0))), 'float64') if nv == 'nv' else nv
        return Tup([K(kind), n])
    return m
