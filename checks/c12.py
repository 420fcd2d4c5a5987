"""C12: a batched call gives, for each signal, what the single call gives."""
import itertools
from checks.hutil import *
from checks.hutil import H
from checks import scen
from checks.scen import Sc, val
from ssqlint import terms as T

TECHNIQUE = 'abstract interpretation of the batched call and of the call on one symbolic row; the value terms are compared, and every read of the batch in the batched term must be of the same row'
EXPLANATION = ('Every routine that takes a batch is interpreted twice: on a batch of B symbolic signals and on signal b alone, b a symbolic index. '
               'Row b of each batched result must be the same term as the single result, for every option combination listed. Separately, every '
               'read of the batched input inside the batched result must carry the row index of the result, so no signal can leak into another.')
ASSUMPTIONS = ['x has at least one signal', 'FFT routines act on the requested axis only', 'nan_checks repairs are compared with nan_checks off: their guard reads the whole batch']

b = sym('b')


def rowarr(h, name, *dims, dt='float64', lib='np'):
    """row b of the batch `name`"""
    d = tuple(sym(a) if isinstance(a, str) else num(a) if isinstance(a, int) else a for a in dims)
    return h.I.newarr(h.st, d, A(('get', name, b) + tuple(ix(k) for k in range(len(d)))), dt, lib, org=frozenset([name]))


class Case:
    """batched arguments: {name: dims}; `batched` names those with a leading batch axis"""

    def __init__(self, label, mod, fn, arrays, opts=None, kind='log', gpu=False, items=None, models=None, psi='float32', inplace=None, pos=()):
        self.label, self.mod, self.fn, self.arrays, self.opts = label, mod, fn, arrays, opts or {}
        self.kind, self.gpu, self.items, self.models, self.psi, self.inplace, self.pos = kind, gpu, items, models, psi, inplace, pos

    def sc(self, single):
        def args(h):
            d = {}
            for n, (dims, dt, bat) in self.arrays.items():
                lib = 't' if self.gpu else 'np'
                if bat and single:
                    d[n] = rowarr(h, n, *dims, dt=dt, lib=lib)
                elif bat:
                    d[n] = h.arr(n, 'B', *dims, dt=dt, lib=lib)
                else:
                    d[n] = h.arr(n, *dims, dt=dt, lib=lib)
            for k, v in self.opts.items():
                if k == 'x_mean' and single:
                    d[k] = Num(A(('get', 'x_mean', b)), 'float64')
                else:
                    d[k] = v(h) if callable(v) else val(h, v)
            return d
        return Sc(self.label, self.mod, self.fn, args, kind=self.kind, gpu=self.gpu, psi=self.psi, pos=('b', 'nb') + tuple(self.pos), ints=('b', 'nb'),
                  models=dict(self.models or {}))


def lab(o):
    return ''.join(', %s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())


def cases(tier):
    out = []
    N1 = ('N',)
    nc = dict(nan_checks=False)
    for o in [dict(), dict(derivative=True), dict(padtype='zero'), dict(padtype='symmetric'), dict(padtype='replicate'), dict(padtype='wrap'), dict(padtype=None),
              dict(rpadded=True), dict(rpadded=True, derivative=True), dict(vectorized=False), dict(vectorized=False, derivative=True), dict(l1_norm=False),
              dict(l1_norm=False, derivative=True), dict(order=1), dict(order=(0, 1)), dict(order=(0, 1), derivative=True), dict(scales=scen.scales_arr),
              dict(order=1, scales='log'), dict(padtype='wrap', derivative=True, vectorized=False), dict(fs=lambda h: h.num('fs', 'pyfloat'), derivative=True)]:
        for dt in ('float32',) if tier == 'quick' else ('float32', 'float64'):
            for kind in ('log', 'log-piecewise'):
                if kind != 'log' and o and tier == 'quick':
                    continue
                opts = dict(nc, scales=kind) if 'scales' not in o else dict(nc)
                out.append(Case('cwt(%s%s%s)' % (kind, '' if dt == 'float32' else ', ' + dt, lab(o)), '_cwt', 'cwt', {'x': (N1, dt, True)}, dict(opts, **o), kind))
    for o in [dict(), dict(derivative=True), dict(vectorized=False), dict(padtype='zero'), dict(padtype=None), dict(vectorized=False, derivative=True), dict(l1_norm=False)]:
        out.append(Case('cwt(GPU%s)' % lab(o), '_cwt', 'cwt', {'x': (N1, 'float32', True)}, dict(dict(scales='log'), **o), 'log', True))
    for o in [dict(), dict(get_dWx=True), dict(preserve_transform=False), dict(preserve_transform=True), dict(flipud=False), dict(padtype=None), dict(padtype='symmetric'), dict(vectorized=False),
              dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(order=1), dict(order=(0, 1)), dict(order=1, padtype=None), dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')),
              dict(maprange='maximal'), dict(gamma=lambda h: h.num('gamma', 'pyfloat')), dict(scales=scen.scales_arr)]:
        for kind in ('log', 'log-piecewise', 'linear'):
            if kind != 'log' and len(o) and tier == 'quick':
                continue
            if kind == 'linear' and 'order' in o:
                continue
            opts = dict(nc, scales=kind) if 'scales' not in o else dict(nc)
            out.append(Case('ssq_cwt(%s%s)' % (kind, lab(o)), '_ssq_cwt', 'ssq_cwt', {'x': (N1, 'float32', True)}, dict(opts, **o), kind))
    for o in [dict(), dict(get_dWx=True), dict(preserve_transform=True), dict(flipud=False), dict(squeezing='lebesgue'), dict(astensor=False)]:
        out.append(Case('ssq_cwt(GPU%s)' % lab(o), '_ssq_cwt', 'ssq_cwt', {'x': (N1, 'float32', True)}, dict(dict(scales='log'), **o), 'log', True))
    nf = dict(n_fft=lambda h: h.num('nf', 'pyint'))
    for o in [dict(), dict(derivative=True), dict(modulated=False), dict(modulated=False, derivative=True), dict(padtype='zero'), dict(padtype='symmetric'),
              dict(padtype='replicate'), dict(padtype='wrap'), dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(window=lambda h: h.arr('window', 'nf')),
              dict(win_len=lambda h: h.num('nf', 'pyint')), dict(dtype='float64', derivative=True), dict(hop_len=lambda h: h.num('hop', 'pyint'), modulated=False)]:
        out.append(Case('stft(%s)' % lab(o)[2:], '_stft', 'stft', {'x': (N1, 'float32', True)}, dict(nf, **o)))
    for o in [dict(), dict(derivative=True), dict(modulated=False)]:
        out.append(Case('stft(GPU%s)' % lab(o), '_stft', 'stft', {'x': (N1, 'float32', True)}, dict(nf, **o), gpu=True))
    for o in [dict(), dict(get_dWx=True), dict(preserve_transform=False), dict(flipud=True), dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(modulated=False), dict(padtype='wrap'),
              dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')), dict(gamma=lambda h: h.num('gamma', 'pyfloat'))]:
        out.append(Case('ssq_stft(%s)' % lab(o)[2:], '_ssq_stft', 'ssq_stft', {'x': (N1, 'float32', True)}, dict(nf, **o), 'linear'))
    for o in [dict(), dict(get_dWx=True)]:
        out.append(Case('ssq_stft(GPU%s)' % lab(o), '_ssq_stft', 'ssq_stft', {'x': (N1, 'float32', True)}, dict(nf, **o), 'linear', True))
    for o in [dict(), dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(modulated=False)]:
        out.append(Case('stft(default n_fft%s)' % lab(o), '_stft', 'stft', {'x': (N1, 'float32', True)}, dict(o)))
        out.append(Case('ssq_stft(default n_fft%s)' % lab(o), '_ssq_stft', 'ssq_stft', {'x': (N1, 'float32', True)}, dict(o), 'linear'))
    TF = ('na', 'N')
    for tr, step, kind, gpu, o in itertools.product(('cwt', 'stft'), (1, 2), ('log', 'log-piecewise', 'linear'), (False, True),
                                                    (dict(), dict(flipud=True), dict(squeezing='lebesgue'), dict(squeezing='abs'))):
        if tr == 'stft' and kind != 'linear' or gpu and (o.get('squeezing') == 'abs' or kind == 'log-piecewise' and o):
            continue
        a = {'Wx': (TF, 'complex64', True), 'ssq_freqs': (('na',), 'float64', False)}
        if tr == 'cwt':
            a['scales'] = (('na',), 'float64', False)
        if step == 1:
            a['dWx'] = (TF, 'complex64', True)
            if tr == 'stft':
                a['Sfs'] = (('na',), 'float32', False)
        else:
            a['w'] = (TF, 'float32', True)
        out.append(Case('ssqueeze(%s, %s, %s%s%s)' % (tr, 'one-step' if step == 1 else 'two-step', kind, ', GPU' if gpu else '', lab(o)), 'ssqueezing', 'ssqueeze', a,
                        dict(o, transform=K(tr), fs=lambda h: h.num('fs', 'pyfloat'), gamma=lambda h: h.num('gamma', 'pyfloat')), kind, gpu))
    for pt in ('reflect', 'zero', 'symmetric', 'replicate', 'wrap'):
        out.append(Case('padsignal(%s)' % pt, 'utils.common', 'padsignal', {'x': (N1, 'float64', True)}, dict(padtype=pt)))
        out.append(Case('padsignal(%s, padlength)' % pt, 'utils.common', 'padsignal', {'x': (N1, 'float64', True)}, dict(padtype=pt, padlength=lambda h: h.num('n_up', 'pyint'))))
    for kind, o in itertools.product(('log', 'linear', 'log-piecewise'), [dict(), dict(x_mean=lambda h: h.arr('x_mean', 'B')), dict(l1_norm=False), dict(x_len=lambda h: h.num('N', 'pyint'))]):
        if kind == 'log-piecewise' and 'l1_norm' in o:
            continue
        out.append(Case('icwt(%s%s)' % (kind, lab(o)), '_cwt', 'icwt', {'Wx': (TF, 'complex64', True)}, dict(dict(scales=kind), **o), kind, models=dict(scen.ADM)))
    for o in [dict(), dict(fs=lambda h: h.num('fs', 'pyfloat')), dict(padtype='reflect'), dict(rpadded=True, N=lambda h: h.num('N', 'pyint'), n1=lambda h: h.num('n1', 'pyint')),
              dict(rpadded=True, N=lambda h: h.num('N', 'pyint')), dict(padtype='wrap', N=lambda h: h.num('N', 'pyint'))]:
        out.append(Case('trigdiff(%s)' % lab(o)[2:], 'utils.common', 'trigdiff', {'A': (('na', 'np_' if 'rpadded' in o else 'N'), 'complex64', True)}, dict(o), pos=('np_',)))
    for mod in (False, True):
        out.append(Case('buffer(modulated=%s)' % mod, 'utils.stft_utils', 'buffer', {'x': (N1, 'float64', True)},
                        dict(seg_len=lambda h: h.num('nf', 'pyint'), n_overlap=lambda h: h.num('novl', 'pyint'), modulated=mod)))
    return out


def shift(p, n):
    """single-call term with its index k renamed to k + 1: element of row b"""
    return T.subst(p, lambda a: ix(a[1] + 1) if a[0] == 'ix' else None)


def rowat(p):
    return T.subst(p, lambda a: b if a[0] == 'ix' and a[1] == 0 else None)


def leaks(p, names, row):
    """reads of batched inputs at another row than the result's"""
    out = []

    def v(a):
        if a and a[0] == 'get' and a[1] in names and len(a) > 2:
            i = a[2]
            if isinstance(i, Poly) and i != row and a not in out:
                out.append(a)
    T.walk(p, v)
    return out


def compare(proj, cs):
    h2, r2 = scen.execute(proj, cs.sc(False))
    h1, r1 = scen.execute(proj, cs.sc(True))
    if r2.exc is not None and r1.ok:
        return [('refused', 0, r2.why())]
    if not r2.ok or not r1.ok:
        return [('?', 0, '%s / %s' % (r2.why()[:150], r1.why()[:150]))]
    i2 = r2.items() if isinstance(r2.I.simp(r2.st, r2.v), Tup) else [r2.v]
    i1 = r1.items() if isinstance(r1.I.simp(r1.st, r1.v), Tup) else [r1.v]
    if len(i1) != len(i2):
        return [('ne', 0, '%d items for a batch, %d for one signal' % (len(i2), len(i1)))]
    out = []
    facts = h2.facts
    names = [n for n, a in cs.arrays.items() if a[2]]
    T._FACTS.append(facts)
    try:
        for n, (u, v) in enumerate(zip(i2, i1)):
            u, v = r2.I.simp(r2.st, u), r1.I.simp(r1.st, v)
            if not isinstance(u, AV) or not isinstance(v, AV):
                if isinstance(u, AV) != isinstance(v, AV) and isinstance(u, (AV, Num, K)) and isinstance(v, (AV, Num, K)) and not (isinstance(u, K) or isinstance(v, K)):
                    out.append(('?', n, 'array versus scalar'))
                continue
            s2, s1 = r2.sh(u), r1.sh(v)
            p, q = r2.body(u), r1.body(v)
            if len(s2) == len(s1) + 1:
                k, why = same(s2[0], sym('B'), facts)
                if k == 'ne':
                    out.append(('ne', n, 'leading axis is %s' % short(s2[0])))
                    continue
                d = [same(x, y, facts) for x, y in zip(s2[1:], s1)]
                if any(k == 'ne' for k, _ in d):
                    out.append(('ne', n, 'shape %s for a batch, %s for one signal' % (s2, s1)))
                    continue
                lk = leaks(rowat(p), names, b)
                p2, q2 = rowat(p), shift(q, len(s1))
            elif len(s2) == len(s1):
                lk, p2, q2 = [], p, q
            else:
                out.append(('ne', n, '%d axes for a batch, %d for one signal' % (len(s2), len(s1))))
                continue
            lits = [b, sym('B') - b - ONE] + [x for m, s in enumerate(s2) for x in ((ix(m), s - ONE - ix(m)) if len(s2) != len(s1) or True else ())]
            k, why = ('eq', '') if p2 == q2 else same(p2, q2, facts, lits)
            if k == 'ne' and same(T.subst(s2[0], lambda a: None), ZERO, facts)[0] == '?':
                pass
            if k == 'ne' or k == 'eq':
                if k == 'eq' and r2.dt(u) != r1.dt(v) and r2.dt(u) and r1.dt(v):
                    k, why = 'ne', 'dtype %s for a batch, %s for one signal' % (r2.dt(u), r1.dt(v))
                out.append((k, n, why))
            else:
                out.append((k, n, why))
            if lk and k != 'eq':
                out.append(('leak', n, 'reads %s' % ', '.join(short(Poly.of(a) if hasattr(Poly, 'of') else A(a)) for a in lk[:2])))
    finally:
        T._FACTS.pop()
    return out


_J = None


def job(i):
    proj, cs = _J
    return compare(proj, cs[i])


def run(proj, rep):
    global _J
    rep.rule('row', 'row b of the batched result is the result for signal b')
    cs = cases(rep.tier)
    _J = (proj, cs)
    for (i,), res, err in scen.pmap(job, list(range(len(cs)))):
        c = cs[i]
        rep.count('pairs of calls interpreted')
        if res is None:
            rep.undecided('row', c.label, err)
            continue
        if not res:
            rep.undecided('row', c.label, 'no comparable item')
        for k, n, why in res:
            con = '%s: item %d' % (c.label, n + 1)
            if k == 'refused':
                rep.count('batches refused')
                continue
            if k == 'eq':
                rep.good('row', con)
            elif k == 'ne':
                rep.violation('row', con, why, '%s.%s' % (c.mod, c.fn))
            else:
                rep.undecided('row', con, why)
