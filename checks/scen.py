"""Calls of the public functions with symbolic inputs, shared by the checks that watch effects.

A scenario is a label, the host configuration, and a builder of the call.  `run_all` interprets
them in parallel processes and maps each finished run through a function of the check."""
import itertools
import os
from multiprocessing import Pool
from checks.hutil import *
from checks.hutil import H
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig

Z = 'complex128'


class Sc:
    """One call: mod.fn(**args(h)); `kw` configures the host; `inplace` names documented in-place arguments."""

    def __init__(self, label, mod, fn, args, inplace=(), call=None, **kw):
        self.label, self.mod, self.fn, self.args, self.inplace, self.call, self.kw = label, mod, fn, args, inplace, call, kw


def mkdict(h, name, d):
    """a dict the caller owns"""
    return Ref(h.I.new(h.st, DictC({k: val(h, v) for k, v in d.items()}, frozenset([name]))))


def mklist(h, name, xs):
    return Ref(h.I.new(h.st, ListC([val(h, v) for v in xs], 'list', frozenset([name]))))


def val(h, v):
    from ssqlint.host import lift
    if isinstance(v, (K, Num, B, Tup, Ref, AV, Phi, Opq, Py, InstC)) or hasattr(v, '__slots__') and not isinstance(v, (list, tuple, dict, int, float, str)):
        return v if not isinstance(v, Poly) else Num(v)
    return lift(h.I, h.st, v)


def execute(proj, s):
    """-> (host, Res) of the scenario"""
    kw = dict(s.kw)
    kind = kw.pop('kind', 'log')
    if kw.get('std', True):
        kw['models'] = {**SCALES, **(kw.get('models') or {})}
    if kw.get('models'):
        kw['models'] = {k: v for k, v in kw['models'].items() if v is not None}
    h = H(proj, kind, **kw)
    T._FACTS.append(h.facts)
    try:
        try:
            a = s.args(h)
            if s.call is not None:
                v = s.call(h, a)
                return h, Res(h.I, h.st, v, None, None)
        except RaiseSig as e:
            return h, Res(h.I, h.st, None, e, None)
        except (Unsup, RecursionError) as e:
            return h, Res(h.I, h.st, None, None, e)
    finally:
        T._FACTS.pop()
    return h, h.run(s.mod, s.fn, a)


def bounds_model(I, st, d, node):
    return Tup([Num(sym('smin'), 'float64'), Num(sym('smax'), 'float64')])


def scales_model(I, st, d, node):
    return I.newarr(st, (sym('na'), ONE), A(('get', 'scales', ix(0))), 'float64')


# searches over the wavelet's shape: their extent is a runtime value
SCALES = {('utils.cwt_utils', 'cwt_scalebounds'): bounds_model, ('utils.cwt_utils', 'make_scales'): scales_model}
_JOB = None


def _one(i):
    proj, scens, post = _JOB
    try:
        h, r = execute(proj, scens[i])
        T._FACTS.append(h.facts)
        try:
            return i, post(scens[i], h, r), None
        finally:
            T._FACTS.pop()
    except Exception as e:                                # a defect of the engine must not look like a result
        import traceback
        return i, None, '%s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().split('\n')[-4].strip())


def run_all(proj, scens, post, procs=8):
    """[(scenario, post(scenario, host, res) or None, error or None)] in order"""
    global _JOB
    _JOB = (proj, scens, post)
    n = min(procs, os.cpu_count() or 1, len(scens)) or 1
    out = [None] * len(scens)
    if n == 1:
        for i in range(len(scens)):
            j, v, e = _one(i)
            out[j] = (scens[j], v, e)
        return out
    with Pool(n) as p:
        for j, v, e in p.imap_unordered(_one, range(len(scens)), chunksize=1):
            out[j] = (scens[j], v, e)
    return out


_PJOB = None


def _pone(i):
    fn, items = _PJOB
    try:
        return i, fn(*items[i]), None
    except RecursionError:
        return i, None, 'term too deep'
    except Exception as e:
        import traceback
        return i, None, '%s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().split('\n')[-4].strip())


def pmap(fn, items, procs=8):
    """[(item, fn(*item) or None, error or None)]; fn's results must be picklable"""
    global _PJOB
    items = [i if isinstance(i, tuple) else (i,) for i in items]
    _PJOB = (fn, items)
    out = [None] * len(items)
    with Pool(min(procs, os.cpu_count() or 1, len(items) or 1)) as p:
        for j, v, e in p.imap_unordered(_pone, range(len(items)), chunksize=1):
            out[j] = (items[j], v, e)
    return out


# ---------------------------------------------------------------- argument builders
def x1(h, dt='float32'):
    return h.arr('x', 'N', dt=dt)


def x2(h, dt='float32'):
    return h.arr('x', 'B', 'N', dt=dt)


def wavelet_obj(h, spec='gmw', **kw):
    W = h.glob('wavelets', 'Wavelet')
    return h.I.call(h.st, W, [val(h, spec)], {k: val(h, v) for k, v in kw.items()}, None)


def method(h, o, name, args=(), kw=None):
    f = h.I.getattr(h.st, o, name, None)
    return h.I.call(h.st, f, [val(h, a) for a in args], {k: val(h, v) for k, v in (kw or {}).items()}, None)


def scales_arr(h):
    return h.arr('scales', 'na', dt='float64')


# ---------------------------------------------------------------- scenarios
def cwt_scens(tier='quick'):
    out = []

    def add(lbl, x=x1, xdt='float32', kind='log', psi='float32', **opt):
        hk = {k: opt.pop(k) for k in ('env', 'files', 'models') if k in opt}

        def args(h, x=x, xdt=xdt, opt=opt):
            d = {'x': x(h, xdt), 'scales': K(kind if kind != 'linear' else 'linear')}
            for k, v in opt.items():
                d[k] = v(h) if callable(v) else val(h, v)
            return d
        out.append(Sc('cwt(%s)' % lbl, '_cwt', 'cwt', args, kind=kind, psi=psi, **hk))
    one = [dict(), dict(derivative=True), dict(padtype=None), dict(padtype='zero'), dict(padtype='symmetric'), dict(padtype='replicate'),
           dict(padtype='wrap'), dict(rpadded=True), dict(vectorized=False), dict(vectorized=False, derivative=True), dict(astensor=False),
           dict(l1_norm=False), dict(l1_norm=False, derivative=True), dict(nan_checks=True), dict(nan_checks=False), dict(cache_wavelet=True),
           dict(fs=lambda h: h.num('fs', 'pyfloat')), dict(t=lambda h: h.arr('t', 'N')), dict(order=1), dict(order=(0, 1)),
           dict(order=lambda h: mklist(h, 'order', [0, 1])), dict(order=(0, 1), average=False), dict(order=(0, 1), average=True),
           dict(order=1, derivative=True), dict(order=(0, 1), derivative=True),
           dict(scales=scales_arr), dict(nv=16), dict(wavelet=lambda h: Tup([K('gmw'), mkdict(h, 'wavelet[1]', {'beta': K(20)})])),
           dict(wavelet=lambda h: Tup([K('gmw'), mkdict(h, 'wavelet[1]', {'beta': K(20), 'norm': K('bandpass')})])),
           dict(wavelet=lambda h: wavelet_obj(h)), dict(wavelet=lambda h: wavelet_obj(h), cache_wavelet=True),
           dict(wavelet=lambda h: wavelet_obj(h), vectorized=False), dict(wavelet='morlet'), dict(wavelet='bump'),
           dict(wavelet=lambda h: Tup([K('morlet'), mkdict(h, 'wavelet[1]', {'mu': K(7)})]))]
    for o in one:
        lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
        for x, xl in ((x1, '1-D'), (x2, '2-D')):
            for xdt, psi in (('float32', 'float32'), ('float64', 'float64'), ('float32', 'float64')):
                if psi != 'float32' and (x is x2 or len(o) > 1) and tier == 'quick':
                    continue
                if x is x2 and o.get('order') and tier == 'quick':
                    continue
                add('%s %s -> %s%s' % (xl, xdt, psi, ', ' + lbl if lbl else ''), x, xdt, 'log', psi, **dict(o))
        for kind in ('log-piecewise', 'linear'):
            if tier != 'quick' or not o:
                add('1-D %s%s' % (kind, ', ' + lbl if lbl else ''), x1, 'float32', kind, 'float32', **dict(o))
    for cl in (True, False):
        add('cwt_higher_order kw', order=1, cache_wavelet=cl)

    def icwt(lbl, kind='log', dims=('na', 'N'), **opt):
        def args(h, opt=opt):
            d = {'Wx': h.arr('Wx', *dims, dt='complex64'), 'scales': K(kind)}
            for k, v in opt.items():
                d[k] = v(h) if callable(v) else val(h, v)
            return d
        out.append(Sc('icwt(%s)' % lbl, '_cwt', 'icwt', args, kind=kind, models=dict(ADM)))
    for kind in ('log', 'linear', 'log-piecewise'):
        for o in (dict(), dict(one_int=False), dict(l1_norm=False), dict(scales=scales_arr), dict(x_mean=lambda h: h.num('xm', 'pyfloat')),
                  dict(x_len=lambda h: h.num('N', 'pyint')), dict(one_int=False, rpadded=True), dict(padtype='zero', one_int=False),
                  dict(wavelet=lambda h: Tup([K('gmw'), mkdict(h, 'wavelet[1]', {'beta': K(20)})])),
                  dict(nv=16)):
            if kind != 'log' and len(o) == 0 or kind == 'log' or tier != 'quick' or 'scales' in o or 'one_int' in o or 'l1_norm' in o:
                lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
                icwt(kind + (', ' + lbl if lbl else ''), kind, **dict(o))
    icwt('3-D', 'log', ('B', 'na', 'N'))
    icwt('3-D, x_mean', 'log', ('B', 'na', 'N'), x_mean=lambda h: h.arr('x_mean', 'B'))
    icwt('3-D, log-piecewise, x_mean', 'log-piecewise', ('B', 'na', 'N'), x_mean=lambda h: h.arr('x_mean', 'B'))
    return out


def adm_model(I, st, d, node):
    return Num(A(('call', 'adm', '#w')), 'float64')


ADM = {('utils.cwt_utils', 'adm_ssq'): adm_model, ('utils.cwt_utils', 'adm_cwt'): adm_model}


def ssq_cwt_scens(tier='quick'):
    out = []

    def add(lbl, x=x1, xdt='float32', kind='log', psi='float32', **opt):
        hk = {k: opt.pop(k) for k in ('env', 'files', 'models', 'gpu') if k in opt}

        def args(h, opt=opt):
            d = {'x': x(h, xdt), 'scales': K(kind)}
            for k, v in opt.items():
                d[k] = v(h) if callable(v) else val(h, v)
            return d
        out.append(Sc('ssq_cwt(%s)' % lbl, '_ssq_cwt', 'ssq_cwt', args, kind=kind, psi=psi, **hk))
    one = [dict(), dict(get_w=True), dict(get_dWx=True), dict(get_w=True, get_dWx=True), dict(preserve_transform=True), dict(preserve_transform=False),
           dict(preserve_transform=True, get_w=True), dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(squeezing='lebesgue', get_w=True),
           dict(squeezing='abs', get_w=True), dict(flipud=False), dict(flipud=False, get_w=True), dict(padtype=None), dict(vectorized=False),
           dict(astensor=False), dict(gamma=lambda h: h.num('gamma', 'pyfloat')), dict(maprange='maximal'), dict(maprange='energy'),
           dict(maprange=lambda h: Tup([h.num('f0', 'pyfloat'), h.num('f1', 'pyfloat')])),
           dict(difftype='phase', get_w=True), dict(difftype='numeric', get_w=True), dict(difftype='numeric', difforder=1, get_w=True),
           dict(difftype='numeric', difforder=2, get_w=True), dict(ssq_freqs='log'), dict(ssq_freqs='linear'),
           dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')), dict(scales=scales_arr), dict(fs=lambda h: h.num('fs', 'pyfloat')),
           dict(t=lambda h: h.arr('t', 'N')), dict(order=1), dict(order=(0, 1)), dict(nan_checks=True), dict(nan_checks=False),
           dict(cache_wavelet=True), dict(nv=16), dict(wavelet=lambda h: Tup([K('gmw'), mkdict(h, 'wavelet[1]', {'beta': K(20)})])),
           dict(wavelet=lambda h: wavelet_obj(h)), dict(wavelet='morlet')]
    for o in one:
        lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
        for x, xl in ((x1, '1-D'), (x2, '2-D')):
            if x is x2 and o.get('get_w'):
                continue
            add('%s%s' % (xl, ', ' + lbl if lbl else ''), x, 'float32', 'log', 'float32', **dict(o))
            if tier != 'quick' or not o or 'get_w' in o and len(o) == 1:
                for kind in ('log-piecewise', 'linear'):
                    add('%s %s%s' % (xl, kind, ', ' + lbl if lbl else ''), x, 'float32', kind, 'float32', **dict(o))
                add('%s float64%s' % (xl, ', ' + lbl if lbl else ''), x, 'float64', 'log', 'float64', **dict(o))
    for ci in (False, True):
        for dims in (('na', 'N'),):
            def args(h, ci=ci):
                d = {'Tx': h.arr('Tx', 'na', 'N', dt='complex64')}
                if ci:
                    d.update(cc=h.arr('cc', 'N', dt='int64'), cw=h.arr('cw', 'N', dt='int64'))
                return d
            out.append(Sc('issq_cwt(%s)' % ('components' if ci else 'full'), '_ssq_cwt', 'issq_cwt', args, models=dict(ADM)))

    def cc2(h):
        return {'Tx': h.arr('Tx', 'na', 'N', dt='complex64'), 'cc': h.arr('cc', 'N', 2, dt='int64'), 'cw': h.arr('cw', 'N', 2, dt='int64')}
    out.append(Sc('issq_cwt(2 components)', '_ssq_cwt', 'issq_cwt', cc2, models=dict(ADM)))
    for dt, rdt in (('complex64', 'float32'), (Z, 'float64')):
        for dims in (('na', 'N'), ('B', 'na', 'N')):
            out.append(Sc('phase_cwt(%s, %d-D)' % (dt, len(dims)), '_ssq_cwt', 'phase_cwt',
                          lambda h, dt=dt, dims=dims: {'Wx': h.arr('Wx', *dims, dt=dt), 'dWx': h.arr('dWx', *dims, dt=dt)}))
        out.append(Sc("phase_cwt('phase', %s)" % dt, '_ssq_cwt', 'phase_cwt',
                      lambda h, dt=dt: {'Wx': h.arr('Wx', 'na', 'N', dt=dt), 'dWx': NONE, 'difftype': K('phase')}))
        for o in (1, 2, 4):
            out.append(Sc('phase_cwt_num(%d, %s)' % (o, dt), '_ssq_cwt', 'phase_cwt_num',
                          lambda h, dt=dt, o=o: {'Wx': h.arr('Wx', 'na', 'N', dt=dt), 'dt': h.num('dt', 'pyfloat'), 'difforder': K(o)}))
    return out


def stft_scens(tier='quick'):
    out = []
    base = dict(n_fft=lambda h: h.num('nf', 'pyint'))
    one = [dict(), dict(derivative=True), dict(modulated=False), dict(modulated=False, derivative=True), dict(padtype='zero'), dict(padtype='symmetric'), dict(padtype='replicate'),
           dict(padtype='wrap'), dict(dtype='float64'), dict(dtype='float32', window=lambda h: h.arr('window', 'nf', dt='float32')),
           dict(dtype='float64', window=lambda h: h.arr('window', 'nf')), dict(window='hann'), dict(fs=lambda h: h.num('fs', 'pyfloat')),
           dict(t=lambda h: h.arr('t', 'N')), dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(win_len=lambda h: h.num('nf', 'pyint')),
           dict(window=lambda h: h.arr('window', 'nf'), derivative=True, dtype='float64')]

    def add(fn, mod, lbl, x, xdt, opt, **hk):
        def args(h):
            d = {'x': x(h, xdt)}
            for k, v in dict(base, **opt).items():
                d[k] = v(h) if callable(v) else val(h, v)
            return d
        out.append(Sc('%s(%s)' % (fn, lbl), mod, fn, args, **hk))
    for o in one:
        lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
        for x, xl in ((x1, '1-D'), (x2, '2-D')):
            for xdt in ('float32', 'float64'):
                if xdt == 'float64' and o and tier == 'quick' and 'dtype' not in o:
                    continue
                add('stft', '_stft', '%s %s%s' % (xl, xdt, ', ' + lbl if lbl else ''), x, xdt, o)
    sq = [dict(), dict(get_w=True), dict(get_dWx=True), dict(get_w=True, get_dWx=True), dict(preserve_transform=True), dict(preserve_transform=False),
          dict(preserve_transform=True, get_w=True), dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(flipud=True), dict(flipud=True, get_w=True),
          dict(padtype='zero'), dict(padtype='wrap'), dict(gamma=lambda h: h.num('gamma', 'pyfloat')), dict(modulated=False), dict(dtype='float64'),
          dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')), dict(fs=lambda h: h.num('fs', 'pyfloat')), dict(t=lambda h: h.arr('t', 'N')),
          dict(astensor=False), dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(window='hann'), dict(ssq_freqs='linear'),
          dict(dtype='float64', window=lambda h: h.arr('window', 'nf'))]
    for o in sq:
        lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
        for x, xl in ((x1, '1-D'), (x2, '2-D')):
            if x is x2 and o.get('get_w'):
                continue
            add('ssq_stft', '_ssq_stft', '%s%s' % (xl, ', ' + lbl if lbl else ''), x, 'float32', o, kind='linear')
    for o in (dict(), dict(window=lambda h: h.arr('window', 'nf')), dict(window=lambda h: h.arr('window', 'nf', dt='float32')), dict(win_exp=0), dict(win_exp=2),
              dict(modulated=False), dict(hop_len=lambda h: h.num('hop', 'pyint')), dict(N=lambda h: h.num('N', 'pyint'))):
        lbl = ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())
        for dt in ('complex64', Z):
            out.append(Sc('istft(%s%s)' % (dt, ', ' + lbl if lbl else ''), '_stft', 'istft',
                          lambda h, o=o, dt=dt: dict({'Sx': h.arr('Sx', 'nb', 'N', dt=dt), 'n_fft': h.num('nf', 'pyint')},
                                                     **{k: v(h) if callable(v) else val(h, v) for k, v in o.items()}), pos=('nb',), ints=('nb',)))
    for ci in (False, True):
        def args(h, ci=ci):
            d = {'Tx': h.arr('Tx', 'nb', 'N', dt='complex64'), 'n_fft': h.num('nf', 'pyint')}
            if ci:
                d.update(cc=h.arr('cc', 'N', dt='int64'), cw=h.arr('cw', 'N', dt='int64'))
            return d
        out.append(Sc('issq_stft(%s)' % ('components' if ci else 'full'), '_ssq_stft', 'issq_stft', args, pos=('nb',), ints=('nb',)))
    out.append(Sc('issq_stft(window array)', '_ssq_stft', 'issq_stft',
                  lambda h: {'Tx': h.arr('Tx', 'nb', 'N', dt='complex64'), 'n_fft': h.num('nf', 'pyint'), 'window': h.arr('window', 'nf')}, pos=('nb',), ints=('nb',)))
    for wdt, dt in itertools.product(('float64', 'float32'), ('float64', 'float32', None)):
        for der in (False, True):
            for nf in (False, True):
                out.append(Sc('get_window(%s array, dtype=%s%s%s)' % (wdt, dt, ', derivative' if der else '', ', n_fft' if nf else ''), '_stft', 'get_window',
                              lambda h, wdt=wdt, dt=dt, der=der, nf=nf: dict({'window': h.arr('window', 'nf', dt=wdt), 'win_len': h.num('nf', 'pyint'), 'derivative': K(der),
                                                                              'dtype': K(dt)}, **({'n_fft': h.num('nf', 'pyint')} if nf else {}))))
    for dt, rdt in (('complex64', 'float32'), (Z, 'float64')):
        for dims in (('na', 'N'), ('B', 'na', 'N')):
            out.append(Sc('phase_stft(%s, %d-D)' % (dt, len(dims)), '_ssq_stft', 'phase_stft',
                          lambda h, dt=dt, dims=dims, rdt=rdt: {'Sx': h.arr('Sx', *dims, dt=dt), 'dSx': h.arr('dSx', *dims, dt=dt), 'Sfs': h.arr('Sfs', 'na', dt=rdt)}))
    return out


def misc_scens(tier='quick'):
    out = []

    def add(lbl, mod, fn, args, inplace=(), **hk):
        out.append(Sc('%s(%s)' % (fn.lstrip('_'), lbl), mod, fn, args, inplace, **hk))
    # squeezing of given transforms
    for kind in ('log', 'linear', 'log-piecewise'):
        for two in (False, True):
            for sqz in ('sum', 'lebesgue', 'abs'):
                for fl in (False, True):
                    for dims in (('na', 'N'), ('B', 'na', 'N')):
                        if tier == 'quick' and (dims[0] == 'B' and sqz != 'sum' or sqz == 'abs' and kind != 'log'):
                            continue
                        if dims[0] == 'B' and two:
                            continue

                        def args(h, two=two, sqz=sqz, fl=fl, kind=kind, dims=dims):
                            d = dict(Wx=h.arr('Wx', *dims, dt=Z), ssq_freqs=h.arr('ssq_freqs', 'na'), scales=h.arr('scales', 'na'), flipud=K(fl),
                                     squeezing=K(sqz))
                            if two:
                                d['w'] = h.arr('w', *dims)
                            else:
                                d.update(dWx=h.arr('dWx', *dims, dt=Z), gamma=h.num('gamma', 'pyfloat'))
                            return d
                        add('cwt, %s, %s, %s, flipud=%s, %d-D' % (kind, 'w' if two else 'dWx', sqz, fl, len(dims)), 'ssqueezing', 'ssqueeze', args, kind=kind)
    for two in (False, True):
        for fl in (False, True):
            def args(h, two=two, fl=fl):
                d = dict(Wx=h.arr('Wx', 'na', 'N', dt=Z), ssq_freqs=h.arr('ssq_freqs', 'na'), Sfs=h.arr('Sfs', 'na'), flipud=K(fl), transform=K('stft'))
                if two:
                    d['w'] = h.arr('w', 'na', 'N')
                else:
                    d.update(dWx=h.arr('dWx', 'na', 'N', dt=Z), gamma=h.num('gamma', 'pyfloat'))
                return d
            add('stft, %s, flipud=%s' % ('w' if two else 'dWx', fl), 'ssqueezing', 'ssqueeze', args, kind='linear')
    # low-level routines
    for kind in ('log', 'linear', 'log-piecewise'):
        for sm in (None, True, False):
            add('%s, smart=%s' % (kind, sm), 'algos', 'find_closest',
                lambda h, sm=sm, kind=kind: dict(a=h.arr('a', 'na', 'N'), v=h.arr('v', 'na'), logscale=K(kind != 'linear'), smart=K(sm)), kind=kind)
        for f in ('ssqueeze_fast', 'indexed_sum_onfly'):
            def args(h, f=f, kind=kind):
                d = dict(Wx=h.arr('Wx', 'na', 'N', dt=Z), ssq_freqs=h.arr('ssq_freqs', 'na'), const=h.arr('const', 'na'), logscale=K(kind != 'linear'))
                if f == 'ssqueeze_fast':
                    d.update(dWx=h.arr('dWx', 'na', 'N', dt=Z), gamma=h.num('gamma', 'pyfloat'))
                else:
                    d['w'] = h.arr('w', 'na', 'N')
                return d
            add(kind, 'algos', f, args, kind=kind)
    add('', 'algos', 'indexed_sum', lambda h: dict(a=h.arr('a', 'na', 'N', dt=Z), k=h.arr('k', 'na', 'N', dt='int64')))
    for f in ('replace_at_inf_or_nan', 'replace_at_inf', 'replace_at_nan', 'replace_at_value', 'replace_under_abs'):
        add('with ref', 'algos', f, lambda h: dict(x=h.arr('x', 'na', 'N'), ref=h.arr('ref', 'na', 'N', dt=Z)), ('x',))
    add('', 'algos', 'zero_denormals', lambda h: dict(x=h.arr('x', 'N')), ('x',))
    # ridges
    for dt in (Z, 'complex64', 'float64'):
        for tr in ('cwt', 'stft'):
            for gp in (False, True):
                for par in (True, False):
                    for sdt in ('float64', 'float32'):
                        add('%s, %s, get_params=%s, parallel=%s, scales %s' % (dt, tr, gp, par, sdt), 'ridge_extraction', 'extract_ridges',
                            lambda h, dt=dt, tr=tr, gp=gp, par=par, sdt=sdt: dict(Tf=h.arr('Tf', 'na', 'N', dt=dt), scales=h.arr('scales', 'na', dt=sdt), transform=K(tr),
                                                                                  get_params=K(gp), parallel=K(par), n_ridges=K(2), bw=K(4)))
    # padding, differentiation
    for pt in ('zero', 'reflect', 'symmetric', 'replicate', 'wrap'):
        for nd, x in ((1, x1), (2, x2)):
            for pl in (False, True):
                add('%s, %d-D%s' % (pt, nd, ', padlength' if pl else ''), 'utils.common', 'padsignal',
                    lambda h, pt=pt, x=x, pl=pl: dict({'x': x(h), 'padtype': K(pt), 'get_params': K(True)}, **({'padlength': Num(sym('N') + sym('n1') + sym('n1'), 'pyint')} if pl else {})))
    for dims in (('na', 'N'), ('B', 'na', 'N')):
        if len(dims) == 2:
            add('default, 2-D', 'utils.common', 'trigdiff', lambda h: {'A': h.arr('A', 'na', 'N', dt=Z), 'fs': h.num('fs', 'pyfloat')})
        add('rpadded, %d-D' % len(dims), 'utils.common', 'trigdiff',
            lambda h, dims=dims: {'A': h.arr('A', *(dims[:-1] + ('Np',)), dt=Z), 'fs': h.num('fs', 'pyfloat'), 'rpadded': K(True), 'N': h.num('N', 'pyint'), 'n1': h.num('n1', 'pyint')},
            pos=('Np',), ints=('Np',))
    add('', 'utils.common', 'est_riskshrink_thresh', lambda h: {'Wx': h.arr('Wx', 'na', 'N', dt=Z), 'nv': K(8)})
    add('', 'utils.common', 'mad', lambda h: {'data': h.arr('data', 'na', 'N')})
    # scales
    for f, extra in (('infer_scaletype', {}), ('logscale_transition_idx', {}), ('nv_from_scales', {})):
        for dims in (('na',), ('na', 1)):
            add('%d-D' % len(dims), 'utils.cwt_utils', f, lambda h, dims=dims: {'scales': h.arr('scales', *dims)}, std=False)
    for kind in ('log', 'linear', 'log-piecewise'):
        for gp in (False, True):
            add('array, %s, get_params=%s' % (kind, gp), 'utils.cwt_utils', 'process_scales', lambda h, gp=gp: {'scales': h.arr('scales', 'na'), 'N': h.num('N', 'pyint'), 'get_params': K(gp)}, kind=kind)
    add('t', 'utils.cwt_utils', '_process_fs_and_t', lambda h: {'fs': NONE, 't': h.arr('t', 'N'), 'N': h.num('N', 'pyint')})
    # framing
    for mod in (False, True):
        for nd, x in ((1, x1), (2, x2)):
            add('modulated=%s, %d-D' % (mod, nd), 'utils.stft_utils', 'buffer', lambda h, mod=mod, x=x: {'x': x(h), 'seg_len': h.num('nf', 'pyint'), 'n_overlap': h.num('ov', 'pyint'), 'modulated': K(mod)},
                ints=('ov',))
    for e in (0, 1, 2):
        add('win_exp=%d' % e, 'utils.stft_utils', 'unbuffer', lambda h, e=e: {'xbuf': h.arr('xbuf', 'nf', 'N'), 'window': h.arr('window', 'nf'), 'hop_len': h.num('hop', 'pyint'), 'n_fft': h.num('nf', 'pyint'), 'N': h.num('N', 'pyint'), 'win_exp': K(e)})
        add('win_exp=%d' % e, 'utils.stft_utils', 'window_norm', lambda h, e=e: {'window': h.arr('window', 'nf'), 'hop_len': h.num('hop', 'pyint'), 'n_fft': h.num('nf', 'pyint'), 'N': h.num('N', 'pyint'), 'win_exp': K(e)})
    add('', 'utils.stft_utils', 'window_resolution', lambda h: {'window': h.arr('window', 'nf')})
    add('', 'utils.stft_utils', 'window_area', lambda h: {'window': h.arr('window', 'nf'), 'frequency': K(True)})
    for f in ('afftshift', 'aifftshift'):
        add('', 'wavelets', f, lambda h: {'xh': h.arr('xh', 'N')})
    # experimental, toolkit
    add('', 'experimental', 'scale_to_freq', lambda h: {'scales': h.arr('scales', 'na'), 'wavelet': K('gmw'), 'N': h.num('N', 'pyint')})
    add('', 'experimental', 'freq_to_scale', lambda h: {'freqs': h.arr('freqs', 'na'), 'wavelet': K('gmw'), 'N': h.num('N', 'pyint')})
    for gw in (False, True):
        for tr in ('cwt', 'stft'):
            add('%s, get_w=%s' % (tr, gw), 'experimental', 'phase_transform',
                lambda h, gw=gw, tr=tr: {'Wx': h.arr('Wx', 'na', 'N', dt=Z), 'dWx': h.arr('dWx', 'na', 'N', dt=Z), 'get_w': K(gw), 'transform': K(tr)})
            add('%s, get_w=%s' % (tr, gw), 'experimental', 'phase_ssqueeze',
                lambda h, gw=gw, tr=tr: {'Wx': h.arr('Wx', 'na', 'N', dt=Z), 'dWx': h.arr('dWx', 'na', 'N', dt=Z), 'get_w': K(gw), 'transform': K(tr), 'scales': h.arr('scales', 'na'),
                                         'ssq_freqs': h.arr('ssq_freqs', 'na'), 'wavelet': K('gmw'), 'difftype': K('trig')})
    add('', 'toolkit', 'mad_rms', lambda h: {'x': h.arr('x', 'N'), 'xrec': h.arr('xrec', 'N')})
    add('', 'toolkit', 'where_amax', lambda h: {'x': h.arr('x', 'na', 'N')})
    for f in ('cos_f', 'sin_f'):
        add('', 'toolkit', f, lambda h: {'freqs': mklist(h, 'freqs', [K(2), K(8)])})
    return out


def res_model(I, st, d, node):
    return Num(A(('call', 'res')), 'float64')


RES = {('wavelets', 'time_resolution'): res_model, ('wavelets', 'freq_resolution'): res_model}


def wavelet_scens(tier='quick'):
    out = []
    names = [('gmw', {}), ('gmw', {'norm': 'energy'}), ('gmw', {'order': 1}), ('gmw', {'order': 1, 'norm': 'energy'}), ('morlet', {}), ('bump', {}), ('cmhat', {}), ('hhhat', {})]
    for name, opt in names:
        mod = '_gmw' if name == 'gmw' else 'wavelets'
        for wdt in ('float32', 'float64'):
            for par in (False, True):
                def call(h, a, mod=mod, name=name, opt=opt, wdt=wdt):
                    o = dict(opt)
                    if o.get('norm') == 'energy' or wdt == 'float64':
                        o['dtype'] = 'float64'
                    f = h.I.call(h.st, h.glob(mod, name), [], {k: K(v) for k, v in o.items()}, None)
                    return h.I.call(h.st, f, [h.arr('w', 'N', dt=wdt)], {}, None)
                out.append(Sc('%s(%s)(w %s)%s' % (name, ', '.join('%s=%s' % x for x in opt.items()), wdt, ' parallel' if par else ''), mod, name, lambda h: {}, call=call, psi=None, par=par))
        for dt in ('float32', 'float64'):
            if opt.get('norm') == 'energy' and dt == 'float32':
                continue
            for what in ('__call__(w)', '__call__(scale)', 'psifn(w)', 'psifn(scale)', 'xifn(scale)', 'Psih(scale)', '__call__(xi)', 'spec'):
                def call(h, a, name=name, opt=opt, what=what, dt=dt):
                    spec = Tup([K(name), mkdict(h, 'wavelet[1]', {k: K(v) for k, v in opt.items()})])
                    W = wavelet_obj(h, spec, dtype=K(dt), N=h.num('N', 'pyint'))
                    sc = h.arr('scale', 'na', dt=dt)
                    if what == 'spec':
                        return W
                    if what == '__call__(w)':
                        return method(h, W, '__call__', [h.arr('w', 'N', dt=dt)])
                    if what == '__call__(xi)':
                        xi = h.I.getattr(h.st, W, 'xi', None)
                        c = h.st.heap[xi.h]
                        h.st.heap[xi.h] = c.with_(org=frozenset(['wavelet.xi']))
                        return method(h, W, '__call__', [xi])
                    if what == '__call__(scale)':
                        return method(h, W, '__call__', [], {'scale': sc, 'nohalf': K(False)})
                    if what == 'psifn(w)':
                        return method(h, W, 'psifn', [h.arr('w', 'N', dt=dt)])
                    if what == 'psifn(scale)':
                        return method(h, W, 'psifn', [], {'scale': sc})
                    if what == 'xifn(scale)':
                        return method(h, W, 'xifn', [], {'scale': sc})
                    return method(h, W, 'Psih', [], {'scale': sc, 'nohalf': K(False)})
                out.append(Sc('Wavelet(%s%s, %s).%s' % (name, ''.join(', %s=%s' % x for x in opt.items()), dt, what), 'wavelets', 'Wavelet', lambda h: {}, call=call, psi=None))
    for prop in ('wc', 'wc_ct', 'scalec_ct', 'std_t', 'std_w', 'std_f', 'harea', 'std_t_d', 'std_w_d', 'std_f_d', 'name', 'config_str', 'xi', 'dtype'):
        out.append(Sc('Wavelet.%s' % prop, 'wavelets', 'Wavelet', lambda h: {}, call=lambda h, a, prop=prop: h.I.getattr(h.st, wavelet_obj(h), prop, None), models=dict(RES)))
    for kw in (dict(), dict(nondim=False), dict(reset=True)):
        out.append(Sc('Wavelet.info(%s)' % kw, 'wavelets', 'Wavelet', lambda h: {}, call=lambda h, a, kw=kw: method(h, wavelet_obj(h), 'info', [], kw), models=dict(RES)))
    out.append(Sc('Wavelet.reset_properties', 'wavelets', 'Wavelet', lambda h: {}, call=lambda h, a: method(h, wavelet_obj(h), 'reset_properties'), models=dict(RES)))
    for f in ('fft', 'ifft', 'rfft', 'irfft', 'fftshift', 'ifftshift'):
        for dims in (('N',), ('B', 'N')):
            for o in (dict(), dict(n=lambda h: h.num('N', 'pyint'))) if f == 'irfft' else (dict(),):
                out.append(Sc('%s(%d-D%s)' % (f, len(dims), ', n' if o else ''), 'utils.fft_utils', f, lambda h: {}, call=lambda h, a, f=f, dims=dims, o=o:
                              h.I.call(h.st, h.glob('utils.fft_utils', f), [h.arr('x', *dims, dt='complex64' if f in ('ifft', 'irfft', 'fft') else 'float32')], {k: v(h) for k, v in o.items()}, None)))
    for f in ('center_frequency', 'freq_resolution', 'time_resolution'):
        out.append(Sc('%s' % f, 'wavelets', f, lambda h: {'wavelet': K('gmw'), 'N': h.num('N', 'pyint')}))
    for norm in ('bandpass', 'energy'):
        for time in (False, True):
            out.append(Sc('compute_gmw(%s, time=%s)' % (norm, time), '_gmw', 'compute_gmw', lambda h, norm=norm, time=time: {'N': h.num('N', 'pyint'), 'scale': h.num('sc', 'pyfloat'), 'norm': K(norm), 'time': K(time)}, psi=None))
            out.append(Sc('morsewave(%s)' % norm, '_gmw', 'morsewave', lambda h, norm=norm: {'N': h.num('N', 'pyint'), 'freqs': h.arr('freqs', 'na'), 'norm': K(norm)}, psi=None))
    out.append(Sc('laguerre', '_gmw', 'laguerre', lambda h: {'x': h.arr('x', 'N'), 'k': K(2), 'c': h.num('c', 'pyfloat')}))
    out.append(Sc('morsefreq', '_gmw', 'morsefreq', lambda h: {'gamma': h.arr('gamma', 'N'), 'beta': h.arr('beta', 'N'), 'n_out': K(3)}))
    out.append(Sc('morseafun', '_gmw', 'morseafun', lambda h: {'gamma': K(3.), 'beta': K(60.), 'k': K(1)}))
    return out


def signal_scens(tier='quick'):
    out = []
    T0 = [('lchirp', {'fmin': 1}), ('echirp', {'fmin': 1}), ('hchirp', {'fmin': 1}), ('cosine', {'f': 4}), ('am-cosine', {'f': 3}), ('sine', {'snr': 3}), ('par-lchirp', {}), ('packed', {})]
    for name, d in T0:
        for gp in (False, True):
            def call(h, a, name=name, d=d, gp=gp):
                ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': h.num('N', 'pyint')}, None)
                sig = mklist(h, 'signals', [Tup([K(name), mkdict(h, 'signals[0][1]', {k: K(v) for k, v in d.items()})])])
                return method(h, ts, 'make_signals', [sig], {'get_params': K(gp)})
            out.append(Sc('TestSignals.make_signals([(%r, %s)], get_params=%s)' % (name, d, gp), '_test_signals', 'TestSignals', lambda h: {}, call=call))

    for name in ('lchirp', 'echirp', 'hchirp', 'cosine', 'sine', 'par-lchirp', 'par-echirp', 'par-hchirp', 'jumps', 'packed', 'packed-poly', 'poly-cubic',
                 'lchirp:am-cosine', 'echirp:am-exp', 'cosine:am-gauss', 'sine:am-sine', '#lchirp', '#echirp:am-exp'):
        def call(h, a, name=name):
            ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': h.num('N', 'pyint')}, None)
            return method(h, ts, 'make_signals', [mklist(h, 'signals', [K(name)])], {})
        out.append(Sc("TestSignals.make_signals(['%s'])" % name, '_test_signals', 'TestSignals', lambda h: {}, call=call))

    def two(h, a):
        ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': h.num('N', 'pyint')}, None)
        sig = mklist(h, 'signals', [Tup([K('lchirp:am-cosine'), Tup([mkdict(h, 'signals[0][1][0]', {'fmin': K(1)}), mkdict(h, 'signals[0][1][1]', {'amin': K(.5)})])])])
        return method(h, ts, 'make_signals', [sig], {})
    out.append(Sc("TestSignals.make_signals([('lchirp:am-cosine', ({}, {}))])", '_test_signals', 'TestSignals', lambda h: {}, call=two))

    def init(h, a):
        return h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': h.num('N', 'pyint'), 'default_args': mkdict(h, 'default_args', {'cosine': mkdict(h, 'default_args[..]', {'f': K(3)})}),
                                                                          'default_tkw': mkdict(h, 'default_tkw', {'tmin': K(1)})}, None)
    out.append(Sc('TestSignals(default_args, default_tkw)', '_test_signals', 'TestSignals', lambda h: {}, call=init))
    for name, kw in (('jumps', {'freqs': [1, 2]}), ('packed', {'freqs': [1, 2]})):
        def call(h, a, name=name, kw=kw):
            ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': K(64)}, None)
            return method(h, ts, name, [], {k: mklist(h, k, [K(q) for q in v]) for k, v in kw.items()})
        out.append(Sc('TestSignals.%s(freqs)' % name, '_test_signals', 'TestSignals', lambda h: {}, call=call))
    return out


def visual_scens(tier='quick'):
    out = []
    for o in (dict(), dict(abs=1), dict(abs=1, title='t'), dict(abs=1, norm=(0, 1)), dict(complex=0, ridge=0)):
        out.append(Sc('imshow(%s)' % o, 'visuals', 'imshow', lambda h, o=o: dict({'data': h.arr('data', 'na', 'N', dt=Z if o.get('abs') else 'float64')}, **{k: val(h, v) for k, v in o.items() if k != 'complex'})))
    out.append(Sc('imshow(title, ticks)', 'visuals', 'imshow', lambda h: {'data': h.arr('data', 'na', 'N'), 'title': Tup([K('t'), mkdict(h, 'title[1]', {'fontsize': K(3)})]), 'xticks': h.arr('xticks', 'N'), 'yticks': h.arr('yticks', 'na')}))
    for f in ('plot', 'scat'):
        for o in (dict(), dict(complex=1), dict(abs=1), dict(dx1=1)):
            out.append(Sc('%s(%s)' % (f, o), 'visuals', f, lambda h, o=o: dict({'x': h.arr('x', 'N'), 'y': h.arr('y', 'N', dt=Z if o.get('complex') or o.get('abs') else 'float64')}, **{k: val(h, v) for k, v in o.items()})))
        out.append(Sc('%s(title dict)' % f, 'visuals', f, lambda h: {'x': h.arr('x', 'N'), 'title': Tup([K('t'), mkdict(h, 'title[1]', {'fontsize': K(3)})]),
                                                                     'vlines': Tup([K(3), mkdict(h, 'vlines[1]', {'color': K('k')})]), 'hlines': Tup([K(3), mkdict(h, 'hlines[1]', {'color': K('k')})])}))
    out.append(Sc('hist', 'visuals', 'hist', lambda h: {'x': h.arr('x', 'N'), 'stats': K(1)}))
    out.append(Sc('plots', 'visuals', 'plots', lambda h: {'X': mklist(h, 'X', [h.arr('x', 'N')]), 'Y': mklist(h, 'Y', [h.arr('y', 'N')]), 'pkw': mklist(h, 'pkw', [mkdict(h, 'pkw[0]', {'color': K('k')})]), 'skw': mkdict(h, 'skw', {})}))
    out.append(Sc('_maybe_title', 'visuals', '_maybe_title', lambda h: {'title': Tup([K('t'), mkdict(h, 'title[1]', {'loc': K('left')})])}))
    return out


def gpu_scens(tier='quick'):
    """the same calls with the GPU flag on, given torch tensors (or NumPy arrays where accepted)"""
    out = []

    def add(lbl, mod, fn, arrs, kind='log', **opt):
        def args(h):
            d = {k: h.arr(k, *dims, dt=dt, lib=lib) for k, (dims, dt, lib) in arrs.items()}
            for k, v in opt.items():
                d[k] = v(h) if callable(v) else val(h, v)
            return d
        out.append(Sc('GPU %s(%s)' % (fn, lbl), mod, fn, args, kind=kind, gpu=True))
    for dims, dl in ((('N',), '1-D'), (('B', 'N'), '2-D')):
        for lib, ll in (('t', 'tensor'), ('np', 'numpy')):
            for kind in ('log', 'linear', 'log-piecewise'):
                for o in (dict(), dict(derivative=True), dict(vectorized=False), dict(astensor=False), dict(padtype='wrap')):
                    if kind != 'log' and o:
                        continue
                    add(', '.join([dl, ll, kind] + ['%s=%s' % x for x in o.items()]), '_cwt', 'cwt', {'x': (dims, 'float32', lib)}, kind, scales=K(kind), **o)
                for o in (dict(), dict(get_w=True), dict(get_w=True, get_dWx=True), dict(preserve_transform=True), dict(preserve_transform=True, get_w=True),
                          dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(flipud=False), dict(astensor=False)):
                    if o.get('get_w') and dl == '2-D' or kind != 'log' and o and 'flipud' not in o and 'get_w' not in o:
                        continue
                    add(', '.join([dl, ll, kind] + ['%s=%s' % x for x in o.items()]), '_ssq_cwt', 'ssq_cwt', {'x': (dims, 'float32', lib)}, kind, scales=K(kind), **o)
            for o in (dict(), dict(derivative=True), dict(modulated=False)):
                add(', '.join([dl, ll] + ['%s=%s' % x for x in o.items()]), '_stft', 'stft', {'x': (dims, 'float32', lib)}, 'linear', n_fft=lambda h: h.num('nf', 'pyint'), **o)
            for o in (dict(), dict(get_w=True), dict(preserve_transform=True), dict(preserve_transform=True, get_w=True), dict(flipud=True), dict(squeezing='lebesgue'), dict(astensor=False)):
                if o.get('get_w') and dl == '2-D':
                    continue
                add(', '.join([dl, ll] + ['%s=%s' % x for x in o.items()]), '_ssq_stft', 'ssq_stft', {'x': (dims, 'float32', lib)}, 'linear', n_fft=lambda h: h.num('nf', 'pyint'), **o)
    for dt, rdt in (('complex64', 'float32'), (Z, 'float64')):
        for dims in (('na', 'N'), ('B', 'na', 'N')):
            wd = {'Wx': (dims, dt, 't'), 'dWx': (dims, dt, 't')}
            add('%s, %d-D' % (dt, len(dims)), '_ssq_cwt', 'phase_cwt', wd)
            add('%s, %d-D' % (dt, len(dims)), '_ssq_stft', 'phase_stft', {'Sx': (dims, dt, 't'), 'dSx': (dims, dt, 't'), 'Sfs': (('na',), rdt, 't')})
            for kind in ('log', 'linear', 'log-piecewise'):
                for fl in (False, True):
                    if len(dims) == 2:
                        add('%s, %s, flipud=%s' % (dt, kind, fl), 'algos', 'ssqueeze_fast', dict(wd, ssq_freqs=(('na',), 'float64', 'np'), const=(('na',), 'float64', 'np')), kind,
                            logscale=K(kind != 'linear'), flipud=K(fl), gamma=lambda h: h.num('gamma', 'pyfloat'))
                        add('%s, %s, flipud=%s' % (dt, kind, fl), 'algos', 'indexed_sum_onfly', {'Wx': (dims, dt, 't'), 'w': (dims, rdt, 't'), 'ssq_freqs': (('na',), 'float64', 'np'), 'const': (('na',), 'float64', 'np')},
                            kind, logscale=K(kind != 'linear'), flipud=K(fl))
        for f in ('replace_under_abs',):
            out.append(Sc('GPU %s(%s)' % (f, dt), 'algos', f, lambda h, dt=dt, rdt=rdt: dict(x=h.arr('x', 'na', 'N', dt=rdt, lib='t'), ref=h.arr('ref', 'na', 'N', dt=dt, lib='t')), ('x',), gpu=True))
    for kind in ('log', 'linear'):
        add(kind, '_cwt', 'icwt', {'Wx': (('na', 'N'), 'complex64', 't')}, kind, scales=K(kind))
        out[-1].kw['models'] = dict(ADM)
    add('', '_ssq_cwt', 'issq_cwt', {'Tx': (('na', 'N'), 'complex64', 't')})
    out[-1].kw['models'] = dict(ADM)
    return out


GROUPS = {'cwt': cwt_scens, 'ssq_cwt': ssq_cwt_scens, 'stft': stft_scens, 'misc': misc_scens, 'wavelet': wavelet_scens, 'signals': signal_scens, 'visuals': visual_scens, 'gpu': gpu_scens}


def all_scens(tier='quick', groups=None):
    out = [s for g in (groups or GROUPS) for s in GROUPS[g](tier)]
    seen = {}
    for s in out:
        n = seen[s.label] = seen.get(s.label, 0) + 1
        if n > 1:
            s.label += ' #%d' % n
    return out
