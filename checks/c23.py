"""C23: ridge extraction: the rows returned, what is reported at them, and the band removed."""
from checks.hutil import *
from checks import refs, scen
from checks.c05 import spec_roles
from checks.kutil import roles
from ssqlint import terms as T
from ssqlint.kset import KernelSet
from ssqlint.spec_kernels import SpecSet

TECHNIQUE = 'symbolic summaries of the tracking kernels compared with their definition; abstract interpretation of extract_ridges compared, as a value term, with the published procedure'
EXPLANATION = ('The four tracking kernels are summarised and must equal the definition of the forward accumulation (a row adds the cheapest predecessor) and of the backward '
               'selection (a row whose accumulated cost explains the next one, within eps). extract_ridges is interpreted on a symbolic transform, scales, penalty and '
               'bandwidth for one, two and three ridges, both transforms, complex64 and complex128 input, with and without parameters, sequential and parallel; the indices, '
               'frequencies and energies it returns must be the terms a reference written from the documentation gives: the penalty is over (log for cwt) scales, both passes '
               'see the same penalty and energies, reported values are those of the reported index, and rows max(ridge - bw, 0) up to ridge + bw of each column are zero '
               'before the next ridge is sought. Every value written as an index by a kernel, and the initial argmin, is separately shown to lie in [0, rows).')
ASSUMPTIONS = ['Real arithmetic for the tracked quantities (which of several exactly tied rows wins is the kernels\' sequential order).',
               'Kernel names in value terms are identified when their summaries both equal the definition.']

REF = '''
import numpy as np
from ssqueezepy.ridge_extraction import %(fw)s as fw, %(bw)s as bw_pass

EPS = {'complex64': np.finfo(np.float32).eps, 'complex128': np.finfo(np.float64).eps}


def ridges(Tf, scales, penalty, n_ridges, bw, transform, kind, get_params):
    real = 'float32' if kind == 'complex64' else 'float64'
    eps = np.asarray(EPS[kind], dtype=real)
    given = np.asarray(scales, dtype=real)
    steps = np.log(given) if transform == 'cwt' else given
    cost = np.asarray(penalty, dtype=real) * (steps[:, None] - steps[None, :])**2
    energy = np.abs(Tf)**2
    n = Tf.shape[1]
    idx = np.zeros((n, n_ridges), dtype=int)
    f = np.zeros((n, n_ridges), dtype=real)
    e = np.zeros((n, n_ridges), dtype=real)
    for i in range(n_ridges):
        level = -np.log(energy / energy.max(axis=0) + eps)
        total = level.copy()
        fw(total, cost)
        ridge = np.argmin(total, axis=0)
        bw_pass(level, cost, total, ridge, eps)
        ridge = np.asarray(ridge).astype(int)
        idx[:, i] = ridge
        f[:, i] = given[ridge]
        e[:, i] = energy[ridge, range(n)]
        for t in range(n):
            energy[max(ridge[t] - bw, 0):ridge[t] + bw, t] = 0
    return idx, f, e
'''


def rename(names):
    """kernel atoms of the given names, under one name per role"""
    def walk(t):
        if isinstance(t, T.Poly):
            return T.subst(t, f)
        if isinstance(t, tuple):
            if t and t[0] == 'kern' and t[1] in names:
                role = names[t[1]]
                # what the backward pass leaves are rows (shown for the kernels themselves)
                return (('get', 'ridge row') if role == 'penalty_bw' else ('kern', role)) + tuple(walk(x) for x in t[2:])
            return tuple(walk(x) for x in t)
        return t

    def f(a):
        if a[:2] == ('call', 'trunc') and isinstance(a[2], T.Poly):
            p = walk(a[2])
            m = list(p.m.items())
            if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0][1] == 1 and m[0][0][0][0][:2] == ('get', 'ridge row'):
                return p
        b = walk(a) if isinstance(a, tuple) else a
        return A(b) if b != a else None
    return walk


def pairs(tier, names):
    out = []
    cut = rename(names)

    def add(label, n, bw, transform='cwt', dt='complex128', par=False, get=True, pen='pen', lits=()):
        def args(h, ref=False):
            d = dict(Tf=h.arr('Tf', 'na', 'N', dt=dt), scales=h.arr('scales', 'na', dt='float64'), penalty=h.num('pen', 'pyfloat') if pen == 'pen' else pen, n_ridges=n,
                     bw=h.num('bw', 'pyint') if bw is None else bw, transform=transform, get_params=get)
            d.update(kind=dt) if ref else d.update(parallel=par)
            return d
        out.append(refs.Pair(label, 'ridge_extraction', 'extract_ridges', args, 'ridges', lambda h: args(h, True), items=[(0, 0), (1, 1), (2, 2)] if get else [(None, 0)],
                             cut=cut, nonneg=('bw', 'ridge row'), ints=('bw', 'ridge row')))
    for tr in ('cwt', 'stft'):
        for par in (False, True):
            add('one ridge, %s%s' % (tr, ', parallel' if par else ''), 1, None, tr, par=par)
            add('two ridges, %s%s' % (tr, ', parallel' if par else ''), 2, None, tr, par=par)
    for dt in ('complex64',):
        add('two ridges, complex64', 2, None, dt=dt)
        add('one ridge, complex64, stft', 1, None, 'stft', dt=dt)
    add('indices only', 2, None, get=False)
    for b in (0, 1, 2, 15):
        add('two ridges, bw=%d' % b, 2, b)
    add('two ridges, penalty=0', 2, None, pen=0)
    if tier == 'thorough':
        for tr in ('cwt', 'stft'):
            add('three ridges, %s' % tr, 3, None, tr)
            add('three ridges, %s, parallel' % tr, 3, None, tr, par=True)
    return out


def run(proj, rep):
    rep.rule('passes', 'the tracking kernels equal the definition of the forward and the backward pass')
    rep.rule('ridges', 'indices, frequencies and energies are those of the documented procedure')
    ks = spec_roles(proj, rep, ('penalty_fw', 'penalty_bw'), 'passes')
    sp = SpecSet(ks)
    names, first = {}, {}
    for role, ss in roles(proj, ks).items():
        if role not in ('penalty_fw', 'penalty_bw'):
            continue
        for s in ss:
            if s.mod.name.endswith('.ridge_extraction') and not s.gpu:
                names[s.name] = role
                first.setdefault(role, s.name)
                if sp.check(role, s)[0] == 'equal':
                    first[role] = s.name
    if len(first) < 2:
        rep.undecided('ridges', 'extract_ridges', 'tracking kernels not identified')
        return
    refs.run_pairs(proj, rep, 'ridges', pairs(rep.tier, names), REF % dict(fw=first['penalty_fw'], bw=first['penalty_bw']))
