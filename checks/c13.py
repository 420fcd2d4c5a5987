"""C13: results scale consistently with the sampling rate and with the amplitude of the input."""
from fractions import Fraction

from checks.hutil import *
from checks import c21, c22, kutil, scen
from ssqlint.kset import KernelSet
from ssqlint import terms as T

TECHNIQUE = 'dimension (homogeneity) inference on value terms obtained by abstract interpretation, through FFTs, reductions and kernel calls'
EXPLANATION = ('Each transform is interpreted with a symbolic sampling rate (or time stamps), which gives a term for every element it returns. A unit inference then computes the degree of that term in the '
               'sampling rate, and in the input: degrees add in products, must agree in sums, choices and comparisons, pass through transforms and reductions, and turn into shifts under a logarithm. At a '
               'kernel call the arguments must be of dimensions that fit each other (the grid must be in the unit of the frequencies it is compared with). The degree inferred is compared with the one the '
               'quantity has; a construct that combines quantities of different dimension is reported.')
ASSUMPTIONS = ['floating-point arithmetic is treated as exact', 'amplitude: coefficients off the threshold gamma, which is absolute', 'C03 and C05 decide what the kernels compute']
FS = {'X': 0, 'dX': 1, 'T': 0, 'f': 1, 'Sfs': 1, 'w': 1, 's': 0}
AMP = {'X': 1, 'dX': 1, 'T': 1, 'f': 0, 'Sfs': 0, 'w': 0, 's': 0}


class Mixed(Exception):
    """quantities of different dimension are combined"""


class Unknown(Exception):
    """something the analysis has no dimension for"""


LN2 = None
LINEAR = {'abs', 're', 'im', 'real', 'imag', 'conj', 'neg', 'ascontig', 'flip', 'unwrap'}
ROUND = {'floor', 'ceil', 'trunc', 'round', 'rint', 'fix'}
REDLIN = {'sum', 'max', 'min', 'mean', 'std', 'nansum', 'nanmax', 'nanmin', 'median', 'cumsum'}


class Shift:
    """log of a quantity of degree k: scaling adds a constant"""

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Shift) and self.p == o.p

    def __repr__(self):
        return 'shifted by %r' % self.p


def show(t):
    return 'any' if t is None else 'degree %s' % t if not isinstance(t, Shift) else repr(t)


class Units:
    """Degree of a term in the factor: a number, a Shift, or None for 0, inf and numerical floors, which fit any degree."""

    def __init__(self, roles, facts, leaf):
        self.roles, self.facts, self.leaf, self.memo = roles, facts, leaf, {}

    def unify(self, ts, what):
        ts = [t for t in ts if t is not None]
        for t in ts[1:]:
            if t != ts[0]:
                raise Mixed('%s of %s and %s' % (what, show(ts[0]), show(t)))
        return ts[0] if ts else None

    def poly(self, p):
        if p in self.memo:
            r = self.memo[p]
        else:
            try:
                r = self._poly(p)
            except (Mixed, Unknown) as e:
                r = e
            self.memo[p] = r
        if isinstance(r, Exception):
            raise r
        return r

    def _poly(self, p):
        shift, ts = ZERO, []
        for mono, c in p.m.items():
            d, sh, wild, power_ = Fraction(0), None, False, ZERO
            for a, e in mono:
                t = self.atom(a)
                if t is None:
                    wild = True
                elif isinstance(t, Shift):
                    if sh is not None or e != 1:
                        raise Unknown('product of logarithms')
                    sh = (a, t.p)
                elif isinstance(t, Poly):
                    power_ = power_ + t.scale(e)
                else:
                    d += t * e
            if wild:
                continue
            if power_ != ZERO:
                if power_.const() is None:
                    for k in (0, 1, -1, 2, -2):
                        if same(power_, num(k), self.facts)[0] == 'eq':
                            power_ = num(k)
                            break
                if power_.const() is None:
                    raise Mixed('a power of a dimensional quantity with a varying exponent: %s' % short(power_, 5000))
                d += power_.const()
            if sh is not None:
                if d != 0:
                    raise Mixed('the product of a logarithm of a dimensional quantity and one of degree %s' % d)
                rest = ONE
                for a, e in mono:
                    if a != sh[0]:
                        rest = rest * T.power(A(a), e)
                shift = shift + sh[1] * rest.scale(c)
            ts.append((d, p, mono))
        t = self.unify([d for d, _, _ in ts], 'a sum')
        if shift != ZERO:
            return Shift(shift)
        return t

    def cond(self, c):
        if c is True or c is False:
            return
        if c[0] in ('gt0', 'eq0'):
            t = self.poly(c[1])
            if isinstance(t, Shift):
                raise Mixed('a comparison of a shifted logarithm')
        elif c[0] in ('not', 'and'):
            for x in c[1:]:
                self.cond(x)

    def any(self, x):
        """an argument: a Poly, an array, a choice"""
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, tuple) and x:
            if x[0] == 'lam':
                return self.any(x[2])
            if x[0] == 'ptr':
                return self.any(x[1])
            if x[0] == 'if':
                self.cond(x[1])
                return self.unify([self.any(x[2]), self.any(x[3])], 'a choice')
        if isinstance(x, (int, Fraction)):
            return Fraction(0) if x else None
        return Fraction(0)

    def zero(self, xs, what):
        for x in xs:
            t = self.any(x)
            if t is not None and t != 0:
                raise Mixed('%s of %s' % (what, show(t)))
        return Fraction(0)

    def atom(self, a):
        if a not in self.memo:
            try:
                self.memo[a] = self._atom(a)
            except (Mixed, Unknown) as e:
                self.memo[a] = e
        r = self.memo[a]
        if isinstance(r, Exception):
            raise r
        return r

    def _atom(self, a):
        k = a[0]
        if a in (T.INF, T.NAN):
            return None
        if k == 'sym':
            return self.leaf(a)
        if k == 'get':
            self.zero([i for i in a[2:] if isinstance(i, Poly)], 'an index')
            return self.leaf(a)
        if k in ('prime', 'bv', 'ix', 'lx'):
            return Fraction(0)
        if k == 'sum':
            return self.poly(a[1])
        if k in ('min', 'max'):
            return self.unify([self.poly(x) for x in a[1] if not is_eps(x)], k)
        if k == 'phi':
            self.cond(a[1])
            return self.unify([self.poly(a[2]), self.poly(a[3])], 'a choice')
        if k == 'ind':
            self.cond(a[1])
            return Fraction(0)
        if k == 'pow':
            b, e = self.poly(a[1]), self.poly(a[2])
            if e is None or e == 0:
                if not b:
                    return b
                c = a[2].const()
                return a[2].scale(b) if c is None else b * c
            if isinstance(e, Shift) and e.p.const() is not None and a[1].const() == 2:
                return e.p.const()
            raise Unknown('exponent of %s' % show(e))
        if k == 'call':
            f = a[1]
            args = [x for x in a[2:] if isinstance(x, (Poly, tuple))]
            if f in ('eps', 'tiny'):
                return None
            if f in LINEAR:
                return self.any(args[0])
            if f in ('angle', 'sign', 'altsign', 'isnan', 'len'):
                self.any(args[0])
                return Fraction(0)
            if f in ('floordiv', 'mod'):
                t = self.unify([self.any(x) for x in args], f)
                return t if f == 'mod' else Fraction(0)
            if f == 'log':
                t = self.any(args[0])
                if isinstance(t, Shift):
                    raise Mixed('log of a shifted logarithm')
                return Shift(A(('call', 'log', num(2))).scale(t)) if t else Fraction(0)
            if f == 'exp':
                t = self.any(args[0])
                if isinstance(t, Shift):
                    q = T.div(t.p, A(('call', 'log', num(2)))).const()
                    if q is not None:
                        return q
                    raise Unknown('exp of %s' % show(t))
            return self.zero(args, '%s' % f)
        if k == 'fft':
            bodies = [x for x in a[3:-1]]
            return self.unify([self.any(x) for x in bodies], 'a transform')
        if k == 'red':
            op = a[1]
            if isinstance(op, tuple) and op[0] == 'trapz':
                return self.any(a[3]) + (self.any(op[1]) or 0)
            if op in REDLIN:
                return self.any(a[3])
            if op == 'var':
                return self.any(a[3]) * 2
            if op.startswith('arg') or op in ('any', 'all'):
                return Fraction(0)
            raise Unknown('reduction %s' % (op,))
        if k == 'kern':
            return self.kern(a)
        raise Unknown('%s' % short(A(a), 60))

    def kern(self, a):
        name = str(a[1]).split(':')[-1]
        out, params = c21.kernel_args(a)
        self.zero([i for i in a[4:] if isinstance(i, Poly)], 'an index')
        key = ('kern', a[1], a[2], a[3])
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._kern(name, out, params)
        except (Mixed, Unknown) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def num(self, t, what):
        if isinstance(t, Shift):
            raise Mixed('%s is %r' % (what, t))
        return t

    def const(self, params):
        for p in params:
            if p.startswith('const'):
                return self.num(self.any(params[p]), p) or 0
        return 0

    def grid(self, params, u, name):
        """the grid of a squeezing kernel must be in the unit u of what it bins"""
        if u is None:
            return
        for p, v in params.items():
            w = self.any(v) if p[:2] in ('vl', 'dv', 'vm') or p == 'idx1' else None
            if w is None:
                continue
            want = (Shift(num(u)) if u else Fraction(0)) if p.startswith('vlmin') else u if p in ('vmin', 'dv') else Fraction(0)
            if w != want:
                raise Mixed('`%s` of %s: %s, to bin frequencies of degree %s' % (p, name, show(w), u))

    def _kern(self, name, out, params):
        role = self.roles.get(name)
        g = lambda p: self.any(params[p])
        if role in ('phase_cwt', 'phase_stft') or (role or '').startswith('ssq_'):
            w, d = g('Wx'), g('dWx')
            u = None if w is None or d is None else self.num(d, 'dWx') - self.num(w, 'Wx')
            if 'Sfs' in params:
                u = self.unify([u, g('Sfs')], 'dWx / Wx and Sfs in %s' % name)
            if role.startswith('phase'):
                return u
            self.grid(params, u, name)
            return None if w is None else w + self.const(params)
        if (role or '').startswith('indexed_sum_'):
            self.grid(params, g('w'), name)
            w = g('Wx')
            return None if w is None else w + self.const(params)
        if (role or '').startswith('find_closest_') and role != 'find_closest_brute':
            self.grid(params, g('a'), name)
            return Fraction(0)
        if role == 'find_closest_brute':
            self.unify([g(p) for p in params if p != out], 'arguments of %s' % name)
            return Fraction(0)
        if role == 'indexed_sum':
            return g('a')
        if out in params and (role or '').split('_')[0] in ('replace', 'zero'):
            own = self.any(params[out])
            for q, v in params.items():
                if q == 'replacement':
                    self.unify([own, self.any(v)], 'the replacement in %s' % name)
            return own
        if role == 'buffer':
            return self.any(params['x'])
        if role == 'xifn' or role in WAVELETS:
            return self.zero([v for p, v in params.items() if p != out], name)
        raise Unknown('kernel %s' % name)


WAVELETS = ('morlet', 'bump', 'cmhat', 'hhhat', 'gmw_l1', 'gmw_l2', 'gmw_l1_k', 'gmw_l2_k')


def fs_leaf(a):
    if a == ('sym', 'fs'):
        return Fraction(1)
    if a == ('sym', 'dt') or a[0] == 'get' and a[1] == 't':
        return Fraction(-1)
    if a[0] == 'get' and a[1] in ('dWx', 'dSx', 'dW', 'w', 'ssq_freqs', 'Sfs'):
        return Fraction(1)
    if a == ('sym', 'gamma'):
        return None
    return Fraction(0)


def amp_leaf(a):
    if a[0] == 'get' and a[1] in ('x', 'Wx', 'Sx', 'Tx', 'W', 'dWx', 'dSx', 'dW', 'x_mean') or a == ('sym', 'xm'):
        return Fraction(1)
    if a == ('sym', 'gamma'):
        return None
    return Fraction(0)


def role_names(proj):
    out = {}
    for role, ss in kutil.roles(proj, KernelSet(proj)).items():
        for s in ss:
            out.setdefault(s.name, role)
    return out


def with_arg(s, name, v):
    a0 = s.args

    def args(h):
        d = a0(h)
        if 't' not in d and 'fs' not in d or name in d:
            d.setdefault(name, v(h))
        return d
    q = scen.Sc(s.label if name is None else '%s [%s]' % (s.label, name), s.mod, s.fn, args, **s.kw)
    q.want = s.want
    return q


def scens(tier):
    out = []
    fs = lambda h: h.num('fs', 'pyfloat')
    t = lambda h: h.arr('t', 'N')
    for s in c21.sc_cwt(tier) + c21.sc_ssq_cwt(tier) + c21.sc_stft(tier):
        lb = s.label
        out.append(with_arg(s, 'fs', fs))
        if s.fn != 'stft' and '=' not in lb.replace('derivative=False', '').replace('get_w=', '').replace('get_dWx=', '') or 'difftype' in lb:
            out.append(with_arg(s, 't', t))
    out += [with_arg(s, 'fs', fs) for s in c21.sc_ssqueeze(tier)]
    for fn, mod, p in (('phase_cwt', '_ssq_cwt', {'difftype': 'trig'}), ('phase_stft', '_ssq_stft', {}), *(('phase_cwt_num', '_ssq_cwt', {'difforder': k}) for k in (1, 2, 4)),
                       ('trigdiff', 'utils.common', {}), ('trigdiff', 'utils.common', {'rpadded': True})):
        def args(h, fn=fn, p=p):
            W = h.arr('Wx', 'na', 'N', dt='complex64')
            if fn == 'trigdiff':
                d = dict(A=W, fs=h.num('fs', 'pyfloat'), N=Num(sym('N'), 'pyint'))
            elif fn == 'phase_cwt_num':
                d = dict(Wx=W, dt=h.num('dt', 'pyfloat'))
            elif fn == 'phase_cwt':
                d = dict(Wx=W, dWx=h.arr('dWx', 'na', 'N', dt='complex64'))
            else:
                d = dict(Sx=W, dSx=h.arr('dSx', 'na', 'N', dt='complex64'), Sfs=h.arr('Sfs', 'na', dt='float32'))
            d.update({k: scen.val(h, v) for k, v in p.items()})
            return d
        s = scen.Sc('%s(%s)' % (fn, ', '.join('%s=%s' % q for q in p.items())), mod, fn, args)
        s.want = ['dX' if fn == 'trigdiff' else 'w']
        out.append(s)
    for p in c22.icwt_pairs(tier) + c22.ssq_pairs(tier):
        s = scen.Sc(p.label, p.mod, p.fn, p.args, **p.kw)
        s.want = ['X']
        out.append(s)
    return out


_J = None


def job(i):
    proj, sc, names = _J
    s = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', 'fs', '', r.why()[:200])]
    out = []
    with h.ctx():
        its = r.items()
        if len(s.want) == 1 and len(its) != 1:
            its = [r.v]
        if len(its) != len(s.want):
            return [('?', 'fs', '', '%d items' % len(its))]
        for rule, deg, leaf in (('fs', FS, fs_leaf), ('amplitude', AMP, amp_leaf)):
            U = Units(names, h.facts, leaf)
            for v, kind in zip(its, s.want):
                want = Fraction(deg[kind])
                if rule == 'amplitude' and kind == 'T' and 'lebesgue' in s.label:
                    want = Fraction(0)
                out.append(judge(r, U, v, want, rule, kind))
    return out


def leaves(r, v):
    v = r.I.simp(r.st, v)
    if isinstance(v, Phi):
        return leaves(r, v.a) + leaves(r, v.b)
    return [v]


def judge(r, U, v, want, rule, kind):
    try:
        for q in leaves(r, v):
            if not isinstance(q, AV):
                raise Unknown('a %s' % type(q).__name__)
            p = r.body(q)
            t = U.poly(p)
            if t is not None and t != want:
                if tainted(p):
                    raise Unknown(str(tainted(p)))
                return 'ne', rule, kind, '%s, expected degree %s: %s' % (show(t), want, short(p, 160))
    except Unknown as e:
        return '?', rule, kind, str(e)
    except Mixed as e:
        return 'ne', rule, kind, str(e)
    except RecursionError:
        return '?', rule, kind, 'too deep'
    return 'eq', rule, kind, ''


NAMES = {'X': 'transform', 'dX': 'derivative', 'T': 'synchrosqueezed transform', 'f': 'ssq_freqs', 'Sfs': 'Sfs', 'w': 'phase transform', 's': 'scales'}


def run(proj, rep):
    global _J
    rep.rule('fs', 'scaling the sampling rate by c scales frequencies and derivatives by c and leaves transforms as they are')
    rep.rule('amplitude', 'scaling the input by c scales transforms by c and leaves frequencies as they are')
    sc = scens(rep.tier)
    _J = (proj, sc, role_names(proj))
    for (i,), res, err in scen.pmap(job, list(range(len(sc)))):
        s = sc[i]
        rep.count('calls interpreted')
        if res is None:
            rep.undecided('fs', s.label, err)
            continue
        for k, rule, kind, why in res:
            con = '%s: %s' % (s.label, NAMES.get(kind, kind))
            if k == 'eq':
                rep.good(rule, con)
            elif k == 'ne':
                rep.violation(rule, con, why, '%s.%s' % (s.mod, s.fn))
            else:
                rep.undecided(rule, con, why)
