"""C09: caches never change results."""
import ast
import itertools

from checks.hutil import *
from checks import refs, scen
from fractions import Fraction
from ssqlint import terms as T
from ssqlint.bounds import Prover
from ssqlint import stores
from ssqlint.project import Module, jit_info

TECHNIQUE = 'abstract interpretation of call histories: the value a cache-backed call returns after other calls is compared, as a term, with what a fresh object returns'
EXPLANATION = ('Scripts of two and three calls (sampled wavelets with other scales, lengths and halving; transforms with a shared wavelet; FFT objects of one cache with other inputs, axes, '
               'directions, lengths and planning settings; properties before and after reset_properties; wavelet methods after the length changed) are interpreted over symbolic arguments. What the '
               'last call returns on the used object is compared, as a term, with what it returns on a fresh one, in every case of the comparisons of settings the code makes: where a cached value '
               'is served, the equality that served it must imply that both are equal. Besides, every dict that outlives a call is found in the source and its key must be computed from every '
               'parameter the stored value depends on; memoized and compiled functions must read no global that changes after import.')
ASSUMPTIONS = ['an FFT plan transforms its input buffer, along the axes and in the direction it was made for, into its output buffer',
               'scale and frequency searches (find_maximum) are functions of their arguments']

PYFFTW = '''
import numpy as np
from scipy.fft import fft as sfft, rfft as srfft, ifft as sifft, irfft as sirfft


class _Cache():
    def enable(self):
        pass

    def set_keepalive_time(self, t):
        pass


class _Interfaces():
    def __init__(self):
        self.cache = _Cache()


class _Config():
    def __init__(self):
        self.NUM_THREADS = 1


interfaces = _Interfaces()
config = _Config()


def import_wisdom(w):
    return True


def export_wisdom():
    return b'', b'', b''


def empty_aligned(shape, dtype='float64', **kw):
    return np.empty(shape, dtype=dtype)


class FFTW():
    def __init__(self, a, b, axes=(-1,), direction='FFTW_FORWARD', flags=('FFTW_MEASURE',), threads=1, planning_timelimit=None):
        self.input_array = a
        self.output_array = b
        self.axes = axes
        self.direction = direction
        self.flags = flags
        self.threads = threads
        self.limit = planning_timelimit

    def __call__(self):
        x = self.input_array
        y = self.output_array
        ax = self.axes[0]
        if self.direction == 'FFTW_FORWARD':
            if 'complex' in str(x.dtype):
                y[:] = sfft(x, axis=ax)
            else:
                y[:] = srfft(x, axis=ax)
        else:
            if 'complex' in str(y.dtype):
                y[:] = sifft(x, axis=ax)
            else:
                y[:] = sirfft(x, axis=ax, n=y.shape[ax])
        return y
'''

SRC = '''
import numpy as np
from ssqueezepy.wavelets import Wavelet
from ssqueezepy.utils.fft_utils import FFT
from ssqueezepy._cwt import cwt
from ssqueezepy._ssq_cwt import ssq_cwt


def psih(spec, N0, calls, last, setN=None):
    W = Wavelet(spec, N=N0)
    for kw in calls:
        W.Psih(**kw)
    F = Wavelet(spec, N=N0)
    if setN is not None:
        W.N = setN
        F.N = setN
    return W.Psih(**last), F.Psih(**last)


def psih_changed(spec, N0, s, c):
    W = Wavelet(spec, N=N0)
    W.Psih(scale=s, N=N0)
    s *= c
    a = W.Psih(scale=s, N=N0)
    return a, Wavelet(spec, N=N0).Psih(scale=s, N=N0)


def psih_again(spec, N0):
    W = Wavelet(spec, N=N0)
    a = W.Psih(scale=2., N=N0)
    return W.Psih(), a


def fft_seq(calls, last):
    kw = dict(cache_fft_objects=True, verbose=0)
    O = FFT(**kw)
    for name, x, opt in calls:
        getattr(O, name)(x, **opt)
    F = FFT(**kw)
    name, x, opt = last
    return getattr(O, name)(x, **opt), getattr(F, name)(x, **opt)


def fft_kept(name, x1, x2, opt):
    O = FFT(cache_fft_objects=True, verbose=0)
    a = getattr(O, name)(x1, **opt)
    getattr(O, name)(x2, **opt)
    return a, getattr(FFT(cache_fft_objects=True, verbose=0), name)(x1, **opt)


def fft_plan(x, first, second, settings):
    O = FFT(cache_fft_objects=True, verbose=0)
    F = FFT(cache_fft_objects=True, verbose=0)
    O.get_fft_object(x, **first)
    for k, v in settings.items():
        setattr(O, k, v)
        setattr(F, k, v)
    a = O.get_fft_object(x, **second)
    b = F.get_fft_object(x, **second)
    return ((a.flags, a.threads, a.limit, a.direction, a.axes, a.input_array.shape, a.output_array.shape, str(a.input_array.dtype), str(a.output_array.dtype)),
            (b.flags, b.threads, b.limit, b.direction, b.axes, b.input_array.shape, b.output_array.shape, str(b.input_array.dtype), str(b.output_array.dtype)))


def props(spec, N1, N2, names):
    W = Wavelet(spec, N=N1)
    for n in names:
        getattr(W, n)
    W.N = N2
    W.reset_properties()
    F = Wavelet(spec, N=N2)
    return tuple([getattr(W, n) for n in names]), tuple([getattr(F, n) for n in names])


def method_seq(spec, N0, m1, kw1, N2, m2, kw2):
    W = Wavelet(spec, N=N0)
    F = Wavelet(spec, N=N0)
    getattr(W, m1)(**kw1)
    if N2 is not None:
        W.N = N2
        F.N = N2
    return getattr(W, m2)(**kw2), getattr(F, m2)(**kw2)


def xi_after(spec, N0, N2):
    W = Wavelet(spec, N=N0)
    W.xi
    W.N = N2
    return W.xi, Wavelet(spec, N=N2).xi


def cwt_seq(spec, N0, x1, kw1, x2, kw2):
    W = Wavelet(spec, N=N0)
    cwt(x1, W, cache_wavelet=True, **kw1)
    a = cwt(x2, W, cache_wavelet=True, **kw2)
    b = cwt(x2, Wavelet(spec, N=N0), cache_wavelet=False, **kw2)
    return a, b


def ssq_seq(spec, N0, x1, kw1, x2, kw2):
    W = Wavelet(spec, N=N0)
    ssq_cwt(x1, W, cache_wavelet=True, **kw1)
    a = ssq_cwt(x2, W, cache_wavelet=True, **kw2)
    b = ssq_cwt(x2, Wavelet(spec, N=N0), cache_wavelet=False, **kw2)
    return a, b
'''


def find_max(I, st, d, node):
    return Tup([Num(sym('wpeak'), 'float64'), Num(sym('vpeak'), 'float64')])


def resol(name):
    def m(I, st, d, node):
        a = [I.P(I.simp(st, d[k])) for k in ('scale', 'N') if k in d and d[k] is not NONE]
        return Num(A(('call', name, *a)), 'float64')
    return m


PROPS = {('wavelets', 'time_resolution'): resol('tres'), ('wavelets', 'freq_resolution'): resol('fres'), ('algos', 'find_maximum'): find_max}


def project(proj):
    p = proj.extra('_spec', SRC)
    p.modules = dict(p.modules)
    p.modules['pyfftw'] = Module('pyfftw', 'pyfftw.py', src=PYFFTW)
    return p


def dic(h, d):
    return scen.mkdict(h, 'kw', {k: v(h) if callable(v) else v for k, v in d.items()})


def lst(h, xs):
    return scen.mklist(h, 'calls', xs)


def scens(tier):
    out = []

    def add(label, fn, args, rule, **kw):
        kw['pos'] = kw['ints'] = ('N1', 'N2', 'N0', 'N3')
        s = scen.Sc(label, '_spec', fn, args, **kw)
        s.rule = rule
        out.append(s)
    # sampled wavelets
    num_ = lambda n: lambda h: h.num(n, 'pyfloat')
    n_ = lambda n: lambda h: h.num(n, 'pyint')
    arr = lambda n, d='na': lambda h: h.arr(n, d)
    base = dict(scale=num_('s1'), N=n_('N1'))
    steps = {'other scale': (base, dict(base, scale=num_('s2'))), 'other length': (base, dict(base, N=n_('N2'))), 'other nohalf': (base, dict(base, nohalf=False)),
             'nohalf back on': (dict(base, nohalf=False), base), 'other scales': (dict(base, scale=arr('sa')), dict(base, scale=arr('sb'))),
             'more scales': (dict(base, scale=arr('sa')), dict(base, scale=arr('sb', 'nb'))), 'scales then scale': (dict(base, scale=arr('sa')), base), 'scale then scales': (base, dict(base, scale=arr('sa'))),
             'default length': (base, dict(scale=num_('s1'))), 'default length first': (dict(scale=num_('s1')), base), 'integer scale': (dict(base, scale=2), dict(base, scale=2.)),
             'same': (base, base), 'same scales': (dict(base, scale=arr('sa')), dict(base, scale=arr('sa'))), 'default scale': (base, dict(N=n_('N1')))}
    for k, (a, b) in steps.items():
        add('Psih: %s' % k, 'psih', lambda h, a=a, b=b: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), calls=lst(h, [dic(h, a)]), last=dic(h, b)), 'samples')
        add('Psih: %s, twice' % k, 'psih', lambda h, a=a, b=b: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), calls=lst(h, [dic(h, b), dic(h, a)]), last=dic(h, b)), 'samples')
    add('Psih: N of the wavelet changed', 'psih', lambda h: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), calls=lst(h, [dic(h, dict(scale=num_('s1')))]), last=dic(h, dict(scale=num_('s1'))), setN=h.num('N2', 'pyint')), 'samples')
    add('Psih: scales changed in place', 'psih_changed', lambda h: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), s=h.arr('sa', 'na'), c=h.num('c', 'pyfloat')), 'samples')
    add('Psih: without arguments', 'psih_again', lambda h: dict(spec=K('gmw'), N0=h.num('N', 'pyint')), 'samples')
    add('Wavelet.xi after N changed', 'xi_after', lambda h: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), N2=h.num('N2', 'pyint')), 'samples')
    calls = {'call': ('__call__', dict(scale=num_('s1'))), 'call at N': ('__call__', base), 'call, halved': ('__call__', dict(scale=num_('s2'), N=n_('N1'), nohalf=False)), 'call at w': ('__call__', dict(w=arr('w'))),
             'xifn': ('xifn', dict(scale=num_('s1'))), 'xifn at N': ('xifn', base), 'xifn of scales': ('xifn', dict(scale=arr('sa'))), 'psifn': ('psifn', dict(scale=num_('s2'))), 'psifn at N': ('psifn', dict(scale=num_('s2'), N=n_('N2'))), 'Psih': ('Psih', dict(scale=num_('s1'))),
             'Psih, halved': ('Psih', dict(scale=num_('s1'), nohalf=False))}
    for (k1, (m1, a1)), (k2, (m2, a2)) in itertools.product(calls.items(), repeat=2):
        for chg in ((False, True) if tier == 'thorough' or 'psifn' in (m1, m2) or m1 == m2 else (True,)):
            add('Wavelet: %s after %s%s' % (k2, k1, ' and another N' if chg else ''), 'method_seq',
                lambda h, m1=m1, a1=a1, m2=m2, a2=a2, chg=chg: dict(spec=K('gmw'), N0=h.num('N', 'pyint'), m1=K(m1), kw1=dic(h, a1), N2=h.num('N3', 'pyint') if chg else NONE, m2=K(m2), kw2=dic(h, a2)), 'samples')
    # transforms with cached samples
    X1, X2 = (lambda h: h.arr('x1', 'N')), (lambda h: h.arr('x2', 'N'))
    Y2 = lambda h: h.arr('x2', 'N2')
    D = lambda d: lambda h: dic(h, d)
    seqs = {'derivative, then none': (X1, dict(derivative=True), X2, dict()), 'no derivative, then one': (X1, dict(), X2, dict(derivative=True)), 'derivative twice': (X1, dict(derivative=True), X2, dict(derivative=True)),
            'other scales': (X1, dict(scales=arr('sa')), X2, dict(scales=arr('sb'))), 'other length': (X1, dict(padtype=None), Y2, dict(padtype=None)),
            'padding off': (X1, dict(), X2, dict(padtype=None)), 'other rate': (X1, dict(derivative=True, fs=num_('fs')), X2, dict(derivative=True)), 'batch': (X1, dict(), lambda h: h.arr('xb', 'B', 'N'), dict()),
            'not vectorized in between': (X1, dict(vectorized=False), X2, dict())}
    for k, (a, ka, b, kb) in seqs.items():
        for fn in ('cwt', 'ssq'):
            if fn == 'ssq' and 'derivative' in k:
                continue
            ka2, kb2 = [dict({'scales': 'log', 'nan_checks': False}, **q) if fn == 'cwt' else {kk: v for kk, v in dict({'scales': 'log', 'nan_checks': False}, **q).items() if kk != 'derivative'} for q in (ka, kb)]
            add('%s: %s' % ({'cwt': 'cwt', 'ssq': 'ssq_cwt'}[fn], k), fn + '_seq', lambda h, a=a, b=b, ka=ka2, kb=kb2: dict(spec=K('gmw'), N0=h.num('N0', 'pyint'), x1=a(h), kw1=dic(h, ka), x2=b(h), kw2=dic(h, kb)), 'transforms')
    # FFT plans
    def tup(h, name, x, opt):
        return Tup([K(name), x(h), dic(h, opt)])
    C = lambda n, *d, dt='complex128': lambda h: h.arr(n, *d, dt=dt)
    V = {'c': C('xc', 'N'), 'd': C('xd', 'N'), 'r': C('xr', 'N', dt='float64'), 's': C('xs', 'N', dt='complex64'), 'm': C('xm', 'B', 'N'), 'M': C('xM', 'N'), 'q': C('xq', 'na', 'na'), 'l': C('xl', 'N2'), 'w': C('xw', 'B', 'N2')}
    fs = [('fft', 'c', {}), ('ifft', 'c', {}), ('irfft', 'c', {}), ('irfft', 'c', {'n': lambda h: Num(num(2) * sym('N') - ONE, 'pyint')}), ('fft', 's', {}), ('ifft', 's', {}), ('rfft', 'r', {}), ('fft', 'm', {}), ('fft', 'm', {'axis': 0}),
          ('ifft', 'm', {'axis': 0}), ('fft', 'q', {'axis': 0}), ('fft', 'q', {'axis': 1}), ('fft', 'l', {}), ('fft', 'd', {}), ('fft', 'w', {}), ('ifft', 'w', {})]
    for i, j in itertools.product(range(len(fs)), repeat=2):
        a, b = fs[i], fs[j]
        add('FFT: %s(%s) after %s(%s)' % (b[0], lab(b), a[0], lab(a)), 'fft_seq',
            lambda h, a=a, b=b: dict(calls=lst(h, [tup(h, a[0], V[a[1]], dict(a[2], patience=1))]), last=tup(h, b[0], V[b[1]], dict(b[2], patience=1))), 'plans', files={})
    for n, v in (('fft', 'c'), ('ifft', 'c'), ('rfft', 'r'), ('irfft', 'c')):
        add('FFT: result of %s kept over the next call' % n, 'fft_kept', lambda h, n=n, v=v: dict(name=K(n), x1=V[v](h), x2=h.arr('xo', 'N', dt='float64' if v == 'r' else 'complex128'), opt=dic(h, {'patience': 1})), 'plans', files={})
    p0 = dict(axis=-1, patience=1, real=False, inverse=False)
    vary = {'patience': dict(patience=2), 'time limit': dict(patience=(1, 30)), 'inverse': dict(inverse=True), 'real': dict(real=True, inverse=True), 'n': dict(real=True, inverse=True, n=lambda h: Num(num(2) * sym('N') - ONE, 'pyint')),
            'nothing': {}}
    for k, v in vary.items():
        add('FFT plan: other %s' % k, 'fft_plan', lambda h, v=v: dict(x=h.arr('x', 'N', dt='complex128'), first=dic(h, p0), second=dic(h, dict(p0, **v)), settings=dic(h, {})), 'plans', files={})
    for k, v in (('planning_timelimit', 7), ('_user_threads', 3), ('patience', 2)):
        add('FFT plan: %s changed on the object' % k.strip('_'), 'fft_plan', lambda h, k=k, v=v: dict(x=h.arr('x', 'N', dt='complex128'), first=dic(h, p0), second=dic(h, p0), settings=dic(h, {k: v})), 'plans', files={})
    names = ['wc', 'wc_ct', 'scalec_ct', 'std_t', 'std_w', 'std_t_d', 'std_w_d', 'std_f', 'std_f_d', 'harea']
    for n in names:
        add('Wavelet.%s after reset_properties' % n, 'props', lambda h, n=n: dict(spec=K('gmw'), N1=h.num('N1', 'pyint'), N2=h.num('N2', 'pyint'), names=lst(h, [n])), 'properties', models=PROPS, std=False)
    return out


def lab(a):
    return {'c': 'complex128', 'd': 'other complex128', 'r': 'float64', 's': 'complex64', 'm': '2-D', 'q': 'square', 'l': 'other length', 'w': '2-D, other length'}[a[1]] + ''.join(', %s' % k + ('=%s' % v if not callable(v) else '') for k, v in a[2].items())


_J = None


def flat(r, v):
    v = r.I.simp(r.st, v)
    if isinstance(v, Tup):
        return [y for x in v.items for y in flat(r, x)]
    if isinstance(v, Ref) and hasattr(r.st.heap[v.h], 'items') and isinstance(r.st.heap[v.h].items, (list, tuple)):
        return [y for x in r.st.heap[v.h].items for y in flat(r, x)]
    return [v]


def job(i):
    proj, sc = _J
    s = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', r.why()[:300])]
    with h.ctx():
        v = r.I.simp(r.st, r.v)
        if not isinstance(v, Tup) or len(v.items) != 2:
            return [('?', 'a %s' % type(v).__name__)]
        a, b = flat(r, v.items[0]), flat(r, v.items[1])
        if len(a) != len(b):
            return [('ne', '%d items instead of %d' % (len(a), len(b)))]
        return [split(r, x, y, h.facts) for x, y in zip(a, b)]


# ---------------------------------------------------------------- equality of two results, by cases of what the caches compare
def closed(x):
    """no bound variable, index or remainder: a comparison of two settings, not of positions"""
    ok = [True]

    def v(a):
        if a[0] in ('ix', 'bv', 'lx', 'lv') or a[:2] in (('call', 'mod'), ('call', 'floordiv')):
            ok[0] = False
    T.walk(x, v)
    return ok[0]


def equalities(x, out):
    """the conditions 'these two settings are equal' a value depends on"""
    def cond(c):
        for a in T.cond_atoms(c):
            if a[0] == 'eq0' and closed(a[1]) and len([m for m in a[1].m if m]) > 1 or same_arrays(a):
                if a not in out:
                    out.append(a)

    def v(a):
        if a[0] in ('phi', 'if', 'ind') and len(a) > 1 and not isinstance(a[1], (Poly, str)):
            cond(a[1])
    T.walk(x, v)
    return out


def same_arrays(c):
    """flag(all(a[k] == b[k])): -> (name, name)"""
    if c[0] != 'flag' or not isinstance(c[1], Poly):
        return None
    a = c[1].atom()
    if a is None or a[0] != 'red' or a[1] != 'all':
        return None
    t = a[3]
    t = t.atom() if isinstance(t, Poly) else None
    t = t[1] if t is not None and t[0] == 'ind' else None
    if not isinstance(t, tuple) or t[0] != 'eq0':
        return None
    g = [m[0][0] for m in t[1].m if len(m) == 1 and m[0][1] == 1]
    k = sorted(int(c) if c == int(c) else 0 for c in t[1].m.values())
    if len(g) == 2 and k == [-1, 1] and all(x[0] == 'get' for x in g) and g[0][2:] == g[1][2:]:
        return tuple(sorted(x[1] for x in g))
    return None


def rebuild(x, tr):
    if isinstance(x, Poly):
        return T.subst(x, lambda a: ratom(a, tr))
    if isinstance(x, tuple) and x:
        if x[0] == 'if' and len(x) == 4:
            c = T.cond_eval(x[1], tr)
            if c is True or c is False:
                return rebuild(x[2] if c else x[3], tr)
        return tuple(rebuild(y, tr) for y in x)
    return x


def bound(a):
    f = []
    T.walk(a, lambda b: f.append(1) if b[0] == 'bv' else None)
    return bool(f)


def ratom(a, tr):
    if a[0] == 'phi':
        c = T.cond_eval(a[1], tr)
        return rebuild(a[2], tr) if c is True else rebuild(a[3], tr) if c is False else A(('phi', rebuild(c, tr), rebuild(a[2], tr), rebuild(a[3], tr)))
    if a[0] == 'ind':
        c = T.cond_eval(a[1], tr)
        return ONE if c is True else ZERO if c is False else A(('ind', rebuild(c, tr)))
    if a[0] in ('sym', 'prime'):
        return A(a)
    if a[0] == 'fft' and isinstance(a[3], Poly):              # linear: what does not depend on the summed index stands outside
        out = ZERO
        rest = [rebuild(y, tr) for y in a[4:]]
        for m, k in rebuild(a[3], tr).m.items():
            q, d = num(k), ONE
            for at_, e in m:
                if bound(at_):
                    d = d * T.power(A(at_), e)
                else:
                    q = q * T.power(A(at_), e)
            out = out + q * A(('fft', rebuild(a[1], tr), rebuild(a[2], tr), d, *rest))
        return out
    if a[0] in ('kern', 'fft', 'red', 'get'):
        return A((a[0], *[rebuild(y, tr) for y in a[1:]]))
    return None


def plain(c, tr):
    """c with the other decided comparisons inside it resolved"""
    o = {k: v for k, v in tr.items() if k != c}
    if c[0] in ('eq0', 'gt0'):
        return (c[0], rebuild(c[1], o))
    return tuple(rebuild(y, o) for y in c)


def assume(tr, facts):
    """the substitutions the true equalities amount to: [(atom pattern, replacement)]"""
    out = []
    for c0, v in tr.items():
        if not v:
            continue
        c = plain(c0, tr)
        e = elementwise(c)
        if e is not None:
            ms = [(m[0][0], k) for m, k in e.m.items() if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'get']
            for a, k in ms:
                out.append((('get', a[1]), a, A(a) - e.scale(Fraction(1) / k)))
            continue
        if c[0] != 'eq0':
            continue
        p = c[1]
        syms = [(m[0][0], k) for m, k in p.m.items() if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'sym']
        if len(syms) > 1 and len(syms) == len(p.m) and len({k > 0 for _, k in syms}) == 1 and all(nonneg(A(a), facts) for a, _ in syms):
            out += [(a, a, ZERO) for a, _ in syms]
        elif syms:
            a, k = sorted(syms, key=lambda t: str(t[0]))[-1]
            out.append((a, a, A(a) - p.scale(Fraction(1) / k)))
    return out


def elementwise(c):
    """flag(all(p[k] == 0 for k)) -> p"""
    if c[0] != 'flag' or not isinstance(c[1], Poly):
        return None
    a = c[1].atom()
    if a is None or a[0] != 'red' or a[1] != 'all':
        return None
    t = a[3].atom() if isinstance(a[3], Poly) else None
    t = t[1] if t is not None and t[0] == 'ind' else None
    return t[1] if isinstance(t, tuple) and t[0] == 'eq0' else None


def same_arrays(c):
    return elementwise(c) is not None


def nonneg(p, facts):
    return Prover(facts, []).nonneg(p)


def apply(x, subs):
    for key, a, e in subs:
        x = apply1(x, key, a, e)
    return x


def apply1(x, key, a, e):
    def f(b):
        if b == key:
            return e
        if key[0] == 'get' and b[:2] == key and len(b) == len(a):
            m = dict(zip((q.atom() for q in a[2:]), b[2:]))
            return T.subst(e, lambda t: m.get(t))
        return None
    if isinstance(x, Poly):
        return T.subst(x, f)
    if isinstance(x, tuple):
        return tuple(apply1(y, key, a, e) for y in x)
    return x


def pick(r, v, tr):
    v = r.I.simp(r.st, v)
    while isinstance(v, Phi):
        c = T.cond_eval(v.c, tr)
        if c is not True and c is not False:
            return v
        v = r.I.simp(r.st, v.a if c else v.b)
    return v


def phis(v, r, out):
    v = r.I.simp(r.st, v)
    if isinstance(v, Phi):
        out += [a for a in T.cond_atoms(v.c) if a not in out]
        phis(v.a, r, out)
        phis(v.b, r, out)
    else:
        d = refs.asarr(r, v)
        if d is not None:
            for p in (*d[0], d[1]):
                equalities(p, out)
    return out


def split(r, x, y, facts):
    """x == y in every case of the equalities the two depend on"""
    cs = phis(y, r, phis(x, r, []))
    if len(cs) > 8:
        return '?', '%d comparisons of settings' % len(cs)
    bad = None
    for vals in itertools.product((True, False), repeat=len(cs)):
        tr = dict(zip(cs, vals))
        k = leaf(r, pick(r, x, tr), pick(r, y, tr), tr, facts)
        if k[0] == 'ne':
            return 'ne', ('' if not cs else 'when %s: ' % ', '.join(('' if v else 'not ') + T.show_cond(c)[:80] for c, v in tr.items())) + k[1]
        if k[0] == '?':
            bad = k
    return bad or ('eq', '')


def truth(c):
    """a condition decided by its own form: True / False / None"""
    if c[0] in ('eq0', 'gt0'):
        k = c[1].const()
        return None if k is None else (k == 0 if c[0] == 'eq0' else k > 0)
    e = elementwise(c)
    if e is not None and e.const() is not None:
        return e.const() == 0
    if c[0] == 'flag' and isinstance(c[1], Poly):
        a = c[1].atom()
        if a is not None and a[0] == 'red' and a[1] == 'all' and isinstance(a[3], Poly) and a[3].const() == 1:
            return True
    return None


def impossible(tr, subs):
    seen = {}
    for c, v in tr.items():
        p = plain(c, tr)
        for q in (p, apply(p, subs)):
            t = truth(q)
            if t is not None and t != v or seen.setdefault(q, v) != v:
                return True
    return False


def leaf(r, x, y, tr, facts):
    if isinstance(x, K) and isinstance(y, K):
        return ('eq' if x.v == y.v else 'ne'), '%r instead of %r' % (x.v, y.v)
    if x is NONE or y is NONE:
        return ('eq', '') if x is y else ('?', '%s / %s' % (x, y))
    a, b = refs.asarr(r, x), refs.asarr(r, y)
    if a is None or b is None:
        return '?', 'not a number or array: %s / %s' % (type(x).__name__, type(y).__name__)
    subs = assume(tr, facts)
    if impossible(tr, subs):
        return 'eq', ''
    dx, dy = (r.dt(v) if isinstance(v, AV) else None for v in (x, y))
    if isinstance(dx, str) and isinstance(dy, str) and dx != dy and {dx, dy} <= {'float32', 'float64', 'complex64', 'complex128'}:
        return 'ne', '%s instead of %s' % (dx, dy)
    if len(a[0]) != len(b[0]):
        return 'ne', '%d axes instead of %d' % (len(a[0]), len(b[0]))
    # an equality may be used in either direction: any use that makes the two alike decides
    free = [[q] for q in subs] if any(q[0][0] == 'get' for q in subs) else []
    uses = [subs] + free + [[q for q in subs if q[0][0] != 'get'] + [z] for z in subs if z[0][0] == 'get']
    got = None
    for u, w in [(subs, subs)] + [(u, w) for u in uses for w in ([], u)] + [([], u) for u in uses]:
        k = compare(a, b, lambda p: apply(rebuild(p, tr), u), lambda p: apply(rebuild(p, tr), w), facts)
        if k[0] == 'eq':
            return k
        got = got or k
    if got[0] == 'ne' and any(v and murky(plain(c, tr)) for c, v in tr.items()):
        return '?', got[1]
    if got[0] == 'ne' and any(q[0][0] == 'get' and mentions(q[2], q[0]) for q in subs):
        return '?', got[1]
    return got


def murky(c):
    """an 'all of' condition whose elements are not one comparison"""
    a = c[1].atom() if c[0] == 'flag' and isinstance(c[1], Poly) else None
    return a is not None and a[0] == 'red' and (a[3].atom() is None or a[3].atom()[0] != 'ind')


def mentions(e, key):
    f = []
    T.walk(e, lambda b: f.append(1) if b[:2] == key else None)
    return bool(f)


def compare(a, b, f, g, facts):
    lits = []
    for k, (p, q) in enumerate(zip(a[0], b[0])):
        w = same(f(p), g(q), facts, lits)
        if w[0] != 'eq':
            return w[0], 'length of axis %d: %s instead of %s' % (k, short(f(p), 160), short(g(q), 160))
    for k, n in enumerate(b[0]):
        lits += [ix(k), g(n) - ONE - ix(k)]
    return same(f(a[1]), g(b[1]), facts, lits)


def run(proj, rep):
    global _J
    rep.rule('samples', 'sampled wavelets served from the cache are those asked for')
    rep.rule('transforms', 'transforms with cached samples equal those without')
    rep.rule('plans', 'a cached FFT plan is used only for the transform, and with the planning settings, it was made for; its buffers are not handed out')
    rep.rule('properties', 'after reset_properties every property is that of a wavelet of the current length')
    rep.rule('keys', 'a value kept for later calls is keyed by every parameter it is computed from')
    rep.rule('frozen', 'memoized and compiled functions read no global that changes after import')
    deps = stores.Deps(proj)
    for rec in stores.stores(proj):
        rep.count('persistent stores')
        con = '%s.%s: %s' % (rec[0].mod.name, rec[0].qual, rec[1])
        k, why = stores.check_store(proj, deps, rec)
        (rep.good if k == 'eq' else rep.violation if k == 'ne' else rep.undecided)('keys', con, why)
    moved = stores.rebound(proj)
    memo = stores.memoized(proj)
    done = set()
    for f, how in memo + [(f, 'compiled') for f in stores.all_funs(proj) if jit_info(proj, f.mod, f.node)]:
        rep.count('memoized or compiled functions')
        bad = stores.frozen(proj, f, moved)
        con = '%s.%s (%s)' % (f.mod.name, f.qual, how)
        if con in done:
            continue
        done.add(con)
        if bad:
            rep.violation('frozen', con, 'reads %s, assigned after import' % ', '.join(bad))
        else:
            rep.good('frozen', con)
    p = project(proj)
    sc = scens(rep.tier)
    _J = (p, sc)
    for (i,), res, err in scen.pmap(job, list(range(len(sc)))):
        s = sc[i]
        rep.count('histories interpreted')
        if res is None:
            rep.undecided(s.rule, s.label, err)
            continue
        bad = [x for x in res if x[0] != 'eq']
        if not bad:
            rep.good(s.rule, s.label)
        for k, why in bad[:1]:
            (rep.violation if k == 'ne' else rep.undecided)(s.rule, s.label, why)
