"""C11: options a caller passes take effect."""
import hashlib
from checks.hutil import *
from checks import refs, scen
from checks.scen import x1, x2, mkdict, mklist, wavelet_obj, val
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig

TECHNIQUE = 'abstract interpretation: per option, two values that must make a difference are passed and the returned terms (or the settings seen by the layer below) compared'
EXPLANATION = ('For every option of the public transforms, their inverses, the phase and reassignment steps, padding, framing, windows, scale selection, wavelets, ridge '
               'extraction and kernels\' front ends, pairs of values that mean different things (including 0, False, None and empty-like values against the default) are passed '
               'with everything else the same and symbolic. Both calls are interpreted; what is returned is put in canonical form together with its dtypes and array library. '
               'The same canonical form for both values means the option is dropped, overridden or replaced by its default on the way, in that mode. `patience` is observed '
               'through the planning settings in force at each transform.')
ASSUMPTIONS = ['Searches over a wavelet (scale bounds, centre frequency) are uninterpreted functions of the arguments they are passed.',
               'An option is required to matter only in modes where the documentation gives it a meaning; an option that changes the result in a wrong way is the business of the other checks.']

UNSET = object()


# ---------------------------------------------------------------- searches over the wavelet: functions of their arguments
def term(I, st, v):
    v = I.simp(st, v)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.h), InstC):
        return 'obj'
    return I.as_term(st, v)


def scales_of(name):
    def m(I, st, d, node):
        key = tuple((k, term(I, st, d[k])) for k in sorted(d) if k not in ('wavelet', 'viz', 'get_params'))
        return I.newarr(st, (sym('na'), ONE), A(('get', (name,) + key, ix(0))), 'float64')
    return m


def nums_of(name, n):
    def m(I, st, d, node):
        key = tuple(term(I, st, d[k]) for k in sorted(d) if k not in ('wavelet', 'viz'))
        out = [Num(A(('call', '%s%d' % (name, i), *key)), 'float64') for i in range(n)]
        return out[0] if n == 1 else Tup(out)
    return m


def fc(I, st, d, node):
    key = tuple(term(I, st, d[k]) for k in sorted(d) if k not in ('wavelet', 'viz', 'force_int'))
    return Num(A(('call', 'fc', *key)), 'float64')


SEARCH = {('wavelets', 'center_frequency'): fc, ('utils.cwt_utils', 'make_scales'): scales_of('make_scales'), ('utils.cwt_utils', 'cwt_scalebounds'): nums_of('bounds', 2)}


def planned(kind):
    """a transform, marked with the planning settings it is computed under"""
    def m(I, st, d, node):
        v = I.lib.call(st, 'scipy.fft.' + kind, [d['x']], {'axis': d['axis']} if d.get('axis') is not None else {}, node)
        o = d['self']
        how = []
        for a in ('patience', 'planning_timelimit'):
            u = I.simp(st, d[a]) if a == 'patience' and d.get(a) is not None else NONE
            if isinstance(u, K) and u.v is None:
                u = I.getattr(st, o, a, node)
            how.append(I.as_term(st, u))
        how = tuple(how)
        return I.newarr(st, I.ashape(st, v), A(('call', 'planned', how, I.abody(st, v))), I.adt(st, v))
    return m


PLANS = {('utils.fft_utils', 'FFT.' + k): planned(k) for k in ('fft', 'ifft', 'rfft', 'irfft')}


class Opt:
    """`fn(base..., option=a)` against `fn(base..., option=b)`"""

    def __init__(self, mod, fn, base, mode, option, a, b, what, **kw):
        self.mod, self.fn, self.base, self.mode, self.option, self.a, self.b, self.what, self.kw = mod, fn, base, mode, option, a, b, what, kw
        self.label = '%s(%s=%s)%s' % (fn, option, show(a), ' vs %s' % show(b) + (', ' + mode if mode else ''))


def show(v):
    return 'unset' if v is UNSET else getattr(v, 'label', '...') if callable(v) else repr(v)


def lab(text, f):
    f.label = text
    return f


def nm(n, t='pyfloat'):
    f = lab(n, lambda h: h.num(n, t))
    f.key = (n, t)
    return f


def ar(n, *d, dt='float64'):
    f = lab('array %s' % n, lambda h: h.arr(n, *d, dt=dt))
    f.key = (n, d, dt)
    return f


def wav(**cfg):
    return lab('gmw %s' % cfg, lambda h: Tup([K('gmw'), mkdict(h, 'cfg', {k: val(h, v) for k, v in cfg.items()})]))


def build(h, d):
    out = {}
    for k, v in d.items():
        if v is not UNSET:
            out[k] = v(h) if callable(v) else val(h, v)
    return out


# ---------------------------------------------------------------- the options
# slow combinations: what the quick tier looks at in them (everything in the thorough tier)
QUICK = {('ssq_cwt', 'numeric'): ('difforder', 'gamma'), ('ssq_cwt', 'phase'): ('gamma', 'padtype', 'ssq_freqs', 'maprange'), ('ssq_cwt', 'log-piecewise'): ('fs', 'nv', 'scales', 'maprange', 'ssq_freqs', 'flipud'),
         ('ssq_cwt', 'order 1, get_w'): ('gamma', 'padtype', 'fs', 'nan_checks'), ('ssq_cwt', 'orders'): ('gamma', 'padtype', 'fs', 'nv')}


def options(tier):
    out = []

    def group(mod, fn, base, modes, opts, **kw):
        """modes: {label: extra args}; opts: {option: [(a, b[, modes it matters in])]}"""
        for o, prs in opts.items():
            for pr in prs:
                a, b = pr[0], pr[1]
                only = pr[2] if len(pr) > 2 else None
                k2 = pr[3] if len(pr) > 3 else {}
                for m, extra in modes.items():
                    if only is not None and m not in only:
                        continue
                    if tier == 'quick' and o not in QUICK.get((fn, m), (o,)):
                        continue
                    ex = dict(extra)
                    mk = dict(ex.pop('_kw', {}))
                    bb = dict(base, **ex)
                    if o in ex and o not in base:
                        continue
                    out.append(Opt(mod, fn, bb, m, o, a, b, None, **dict(kw, **dict(mk, **k2))))

    win = ar('window', 'nf')
    x = lambda h: h.arr('x', 'N', dt='float64')
    xb = lambda h: h.arr('x', 'B', 'N', dt='float64')
    nan = ('fs', 't')
    # continuous wavelet transform
    base = dict(x=x, scales='log', nan_checks=False)
    modes = {'': {}, 'derivative': dict(derivative=True), '2-D': dict(x=xb), 'per scale': dict(vectorized=False), 'order 1': dict(order=1), 'orders 0, 1': dict(order=(0, 1)), 'orders, averaged': dict(order=(0, 1), average=True),
             'order 1, derivative': dict(order=1, derivative=True), 'per scale, derivative': dict(vectorized=False, derivative=True), '2-D, derivative': dict(x=xb, derivative=True)}
    deriv = {k for k in modes if 'derivative' in k}
    noderiv = set(modes) - deriv
    cwt_o = {'scales': [(ar('sa', 'na'), ar('sb', 'na')), (ar('sa', 'na'), UNSET)],
             'padtype': [(None, UNSET), ('zero', UNSET), ('wrap', 'symmetric')],
             'rpadded': [(True, False)],
             'l1_norm': [(False, UNSET, {k for k in modes if 'order' not in k})],
             'nv': [(nm('nv', 'pyint'), UNSET), (16, 8)],
             'order': [(0, 1, {'', 'derivative', '2-D', 'per scale'}), (1, 2, {'', 'derivative', 'per scale'}), ((0, 1), (0, 2), {''}), ((1,), 0, {''})],
             'average': [(True, False, {'orders 0, 1'}), (False, UNSET, {'orders 0, 1'})],
             'fs': [(nm('fs'), UNSET, deriv), (nm('fs'), nm('fs2'), deriv)],
             't': [(ar('t', 'N'), UNSET, deriv)],
             'derivative': [(True, False, noderiv)],
             'nan_checks': [(True, False, {'', '2-D', 'derivative', 'order 1'})],
             'wavelet': [(wav(beta=20), UNSET), (wav(beta=20), wav(beta=40)), (wav(gamma=4), UNSET, {'', 'order 1'}), (wav(order=1), UNSET, {''}), (wav(norm='energy'), UNSET, {'order 1'}), ('morlet', 'bump', {'', 'derivative'})]}
    group('_cwt', 'cwt', base, modes, cwt_o, models=SEARCH, psi=None)
    group('_cwt', 'cwt', dict(base, wavelet=wav(norm='energy')), {'': {}, 'order 1': dict(order=1), 'orders 0, 1': dict(order=(0, 1))}, {'l1_norm': [(False, True), (False, UNSET)]}, models=SEARCH, psi=None)
    # seen by the layers below
    group('_cwt', 'cwt', base, modes, {'patience': [(2, UNSET), (0, 1), (lab('(2, 30)', lambda h: Tup([K(2), K(30)])), 2)]}, models={**SEARCH, **PLANS}, psi=None)
    group('_ssq_cwt', 'ssq_cwt', base, {'': {}, 'order 1': dict(order=1), '2-D': dict(x=xb)}, {'patience': [(2, UNSET), (0, 1), (lab('(2, 30)', lambda h: Tup([K(2), K(30)])), 2)]}, models={**SEARCH, **PLANS}, psi=None)
    # synchrosqueezed wavelet transform
    sbase = dict(x=x, scales='log', nan_checks=False)
    smodes = {'': {}, 'get_w': dict(get_w=True), '2-D': dict(x=xb), 'order 1': dict(order=1), 'orders': dict(order=(0, 1)), 'per scale': dict(vectorized=False), 'order 1, get_w': dict(order=1, get_w=True),
              'linear': dict(scales='linear', _kw=dict(kind='linear')), 'log-piecewise': dict(scales='log-piecewise', _kw=dict(kind='log-piecewise')), 'numeric': dict(get_w=True, difftype='numeric'), 'phase': dict(get_w=True, difftype='phase')}
    gw = {'get_w', 'order 1, get_w'}
    ssq_o = {'scales': [(ar('sa', 'na'), ar('sb', 'na')), (ar('sa', 'na'), UNSET)],
             'nv': [(16, UNSET), (16, 8)],
             'fs': [(nm('fs'), UNSET), (nm('fs'), nm('fs2'))],
             't': [(ar('t', 'N'), UNSET)],
             'ssq_freqs': [(ar('ssq_freqs', 'na'), UNSET), ('linear', 'log', {'', 'get_w', '2-D', 'order 1'})],
             'padtype': [(None, UNSET, set(smodes) - {'phase', 'numeric'}), ('zero', UNSET)],
             'squeezing': [('lebesgue', UNSET)],
             'maprange': [('maximal', UNSET), (lab('(f0, f1)', lambda h: Tup([h.num('f0', 'pyfloat'), h.num('f1', 'pyfloat')])), UNSET), ('energy', UNSET)],
             'difftype': [('numeric', UNSET, {'get_w'}), ('phase', UNSET, {'get_w'})],
             'difforder': [(1, 2, {'numeric'}), (4, 2, {'numeric'}), (1, UNSET, {'numeric'})],
             'gamma': [(0, UNSET), (0., UNSET), (nm('gamma'), UNSET), (nm('gamma'), 0)],
             'nan_checks': [(True, False, {'', 'get_w', 'order 1', '2-D'})],
             'order': [(1, 0, {'', 'get_w', '2-D'}), ((0, 1), 0, {''}), (2, 1, {''})],
             'flipud': [(False, UNSET), (False, True)],
             'get_w': [(True, False, {'', 'order 1'})],
             'get_dWx': [(True, False, {'', 'order 1', 'get_w'})],
             'wavelet': [(wav(beta=20), UNSET, {'', 'get_w', 'order 1'}), ('morlet', 'bump', {''})]}
    group('_ssq_cwt', 'ssq_cwt', sbase, smodes, ssq_o, models=dict(SEARCH), psi=None)
    # inverse wavelet transform
    ibase = dict(Wx=ar('Wx', 'na', 'N', dt='complex128'), scales=ar('scales', 'na'))
    imodes = {'': {}, 'linear': dict(_kw=dict(kind='linear')), 'log-piecewise': dict(_kw=dict(kind='log-piecewise')), 'two integrals': dict(one_int=False, wavelet='morlet'), '3-D': dict(Wx=ar('Wx', 'B', 'na', 'N', dt='complex128'))}
    one = {'', 'linear', 'log-piecewise', '3-D'}
    group('_cwt', 'icwt', ibase, imodes, {
        'x_mean': [(nm('xm'), UNSET), (0, nm('xm')), (nm('xm'), nm('xm2'))],
        'l1_norm': [(False, UNSET), (False, True)],
        'scales': [(ar('sa', 'na'), ar('sb', 'na'), {'linear', 'two integrals'})],
        'one_int': [(False, True, {''})],
        'x_len': [(nm('N', 'pyint'), nm('N2', 'pyint'), {'two integrals'})],
        'padtype': [('zero', 'wrap', {'two integrals'})],
        'rpadded': [(True, False, {'two integrals'})]}, models={**SEARCH, ('utils.cwt_utils', 'adm_ssq'): nums_of('adm_ssq', 1), ('utils.cwt_utils', 'adm_cwt'): nums_of('adm_cwt', 1)}, pos=('N2',), ints=('N2',))
    group('_cwt', 'icwt', dict(ibase, scales='log'), {'': {}}, {'nv': [(16, 8)]}, models=SEARCH, std=True)
    # inverse synchrosqueezing
    comp = dict(Tx=ar('Tx', 'na', 'N', dt='complex128'), cc=ar('cc', 'N', dt='int64'), cw=ar('cw', 'N', dt='int64'))
    group('_ssq_cwt', 'issq_cwt', comp, {'': {}}, {'cw': [(ar('cw', 'N', dt='int64'), ar('cv', 'N', dt='int64'))], 'cc': [(ar('cc', 'N', dt='int64'), ar('cd', 'N', dt='int64'))]}, models=scen.ADM)
    # short-time Fourier transform
    tb = dict(x=x, n_fft=nm('nf', 'pyint'), window=win, hop_len=nm('hop', 'pyint'), dtype='float64')
    tmodes = {'': {}, '2-D': dict(x=xb), 'derivative': dict(derivative=True), 'not modulated': dict(modulated=False)}
    group('_stft', 'stft', tb, tmodes, {
        'window': [(win, ar('window2', 'nf')), (win, UNSET), ('hann', 'hamming', {''})],
        'n_fft': [(nm('nf', 'pyint'), nm('nf2', 'pyint'))],
        'hop_len': [(nm('hop', 'pyint'), UNSET), (nm('hop', 'pyint'), nm('hop2', 'pyint'))],
        'fs': [(nm('fs'), UNSET, {'derivative'}), (nm('fs'), nm('fs2'), {'derivative'})],
        't': [(ar('t', 'N'), UNSET, {'derivative'})],
        'padtype': [('zero', UNSET), ('wrap', 'symmetric')],
        'modulated': [(False, UNSET, {'', '2-D', 'derivative'}), (False, True, {'', '2-D', 'derivative'})],
        'derivative': [(True, False, {'', '2-D', 'not modulated'})],
        'win_len': [(nm('wl', 'pyint'), UNSET, {''}, dict(_base=dict(window=UNSET)))],
        'dtype': [('float32', 'float64')]}, pos=('nf2', 'hop2', 'wl'), ints=('nf2', 'hop2', 'wl'))
    group('_stft', 'istft', dict(Sx=ar('Sx', 'nb', 'nh', dt='complex128'), n_fft=nm('nf', 'pyint'), window=win, hop_len=nm('hop', 'pyint'), N=nm('N', 'pyint')), {'': {}, 'not modulated': dict(modulated=False)}, {
        'window': [(win, ar('window2', 'nf'))],
        'hop_len': [(nm('hop', 'pyint'), nm('hop2', 'pyint'))],
        'N': [(nm('N', 'pyint'), nm('N2', 'pyint')), (nm('N', 'pyint'), UNSET)],
        'modulated': [(False, UNSET, {''})],
        'win_exp': [(0, UNSET), (2, UNSET), (0, 2)]}, pos=('nb', 'nh', 'hop2', 'N2'), ints=('nb', 'nh', 'hop2', 'N2'))
    ssb = dict(x=x, n_fft=nm('nf', 'pyint'), window=win, hop_len=1, dtype='float64')
    ssm = {'': {}, 'get_w': dict(get_w=True), '2-D': dict(x=xb)}
    group('_ssq_stft', 'ssq_stft', ssb, ssm, {
        'window': [(win, ar('window2', 'nf'))],
        'n_fft': [(nm('nf', 'pyint'), nm('nf2', 'pyint'))],
        'fs': [(nm('fs'), UNSET), (nm('fs'), nm('fs2'))],
        't': [(ar('t', 'N'), UNSET)],
        'modulated': [(False, UNSET)],
        'ssq_freqs': [(ar('ssq_freqs', 'nq'), UNSET), (ar('ssq_freqs', 'nq'), ar('sq2', 'nq'))],
        'padtype': [('zero', UNSET)],
        'squeezing': [('lebesgue', UNSET)],
        'gamma': [(0, UNSET), (nm('gamma'), UNSET), (nm('gamma'), 0)],
        'dtype': [('float32', 'float64')],
        'flipud': [(True, UNSET), (True, False)],
        'get_w': [(True, False, {''})],
        'get_dWx': [(True, False, {'', 'get_w'})]}, kind='linear', pos=('nf2', 'nq'), ints=('nf2', 'nq'))
    group('_ssq_stft', 'issq_stft', dict(Tx=ar('Tx', 'nb', 'N', dt='complex128'), window=win, n_fft=nm('nf', 'pyint'), cc=ar('cc', 'N', dt='int64'), cw=ar('cw', 'N', dt='int64')), {'': {}}, {
        'window': [(win, ar('window2', 'nf'))],
        'cc': [(ar('cc', 'N', dt='int64'), ar('cd', 'N', dt='int64'))],
        'cw': [(ar('cw', 'N', dt='int64'), ar('cv', 'N', dt='int64'))]}, pos=('nb',), ints=('nb',))
    # reassignment on its own
    q = dict(Wx=ar('Wx', 'na', 'N', dt='complex128'), dWx=ar('dWx', 'na', 'N', dt='complex128'), scales=ar('scales', 'na'), ssq_freqs=ar('ssq_freqs', 'na'), maprange='maximal', gamma=nm('gamma'))
    qm = {'': {}, 'with w': dict(dWx=UNSET, w=ar('w', 'na', 'N')), '3-D': dict(Wx=ar('Wx', 'B', 'na', 'N', dt='complex128'), dWx=ar('dWx', 'B', 'na', 'N', dt='complex128')),
          'linear': dict(_kw=dict(kind='linear')), 'stft': dict(transform='stft', Sfs=ar('Sfs', 'na'), scales=UNSET, _kw=dict(kind='linear'))}
    group('ssqueezing', 'ssqueeze', q, qm, {
        'w': [(ar('w', 'na', 'N'), ar('w2', 'na', 'N'), {'with w'})],
        'ssq_freqs': [(ar('ssq_freqs', 'na'), ar('sq2', 'na'), {'', 'with w', '3-D', 'linear'}), ('linear', 'log', {''})],
        'scales': [(ar('scales', 'na'), ar('scales2', 'na'), {'linear'})],
        'Sfs': [(ar('Sfs', 'na'), ar('Sfs2', 'na'), {'stft'})],
        'fs': [(nm('fs'), nm('fs2'), {'stft'})],
        'squeezing': [('lebesgue', UNSET)],
        'gamma': [(0, nm('gamma'), {'', '3-D', 'linear', 'stft'}), (0, UNSET, {'', '3-D', 'linear', 'stft'}), (nm('gamma'), UNSET, {'', '3-D', 'stft'})],
        'flipud': [(True, UNSET), (True, False)],
        'dWx': [(ar('dWx', 'na', 'N', dt='complex128'), ar('dW2', 'na', 'N', dt='complex128'), {'', 'linear', 'stft'})]})
    # the range the frequencies are mapped to
    r = dict(Wx=ar('Wx', 'na', 'N', dt='complex128'), dWx=ar('dWx', 'na', 'N', dt='complex128'), scales=ar('scales', 'na'), wavelet=lab('gmw', lambda h: wavelet_obj(h)), gamma=nm('gamma'))
    whole = {'', 'linear'}
    two = lambda a, b: lab('(%s, %s)' % (a, b), lambda h: Tup([h.num(a, 'pyfloat'), h.num(b, 'pyfloat')]))
    group('ssqueezing', 'ssqueeze', r, {'': {}, 'linear': dict(ssq_freqs='linear', _kw=dict(kind='linear')), 'piecewise': dict(maprange='peak', _kw=dict(kind='log-piecewise'))}, {
        'maprange': [('maximal', 'peak', whole), (two('f0', 'f1'), two('f2', 'f1'), whole), (two('f0', 'f1'), two('f0', 'f3'), whole), (two('f0', 'f1'), 'maximal', whole), ('energy', 'peak')],
        'fs': [(nm('fs'), UNSET), (nm('fs'), nm('fs2'))],
        't': [(ar('t', 'N'), UNSET)],
        'was_padded': [(False, True, {''}, dict(_base=dict(maprange='peak')))],
        'scales': [(ar('scales', 'na'), ar('scales2', 'na'), {'linear'})]}, models=SEARCH)
    # phase transforms and their parts
    p = dict(Wx=ar('Wx', 'na', 'N', dt='complex128'), dWx=ar('dWx', 'na', 'N', dt='complex128'))
    group('_ssq_cwt', 'phase_cwt', p, {'': {}}, {'gamma': [(0, UNSET), (nm('gamma'), UNSET), (nm('gamma'), 0)], 'difftype': [('phase', 'trig')]})
    group('_ssq_cwt', 'phase_cwt_num', dict(Wx=p['Wx'], dt=nm('dt')), {'': {}}, {'difforder': [(1, UNSET), (2, UNSET), (1, 2)], 'gamma': [(0, UNSET), (nm('gamma'), UNSET), (0, nm('gamma'))], 'dt': [(nm('dt'), nm('dt2'))]})
    group('_ssq_stft', 'phase_stft', dict(Sx=p['Wx'], dSx=p['dWx'], Sfs=ar('Sfs', 'na')), {'': {}}, {'gamma': [(0, UNSET), (nm('gamma'), UNSET), (nm('gamma'), 0)], 'Sfs': [(ar('Sfs', 'na'), ar('Sfs2', 'na'))]})
    for d in ((), ('B',)):
        group('utils.common', 'trigdiff', dict(A=ar('A', *d, 'na', 'N', dt='complex128')), {'': {}}, {'fs': [(nm('fs'), UNSET), (nm('fs'), nm('fs2'))], 'padtype': [('zero', UNSET), ('zero', 'wrap')], 'rpadded': [(True, False, {''}, dict(_base=dict(padtype='zero')))]})
    ob = dict(Wx=p['Wx'], w=ar('w', 'na', 'N'), ssq_freqs=ar('ssq_freqs', 'na'))
    group('algos', 'indexed_sum_onfly', ob, {'': {}, 'log': dict(logscale=True)}, {
        'const': [(nm('c'), UNSET), (0, UNSET), (nm('c'), nm('c2')), (ar('ca', 'na'), UNSET)], 'logscale': [(True, False, {''})], 'flipud': [(True, UNSET), (True, False)]})
    fb = dict(Wx=p['Wx'], dWx=p['dWx'], ssq_freqs=ar('ssq_freqs', 'na'), const=nm('c'), gamma=nm('gamma'))
    group('algos', 'ssqueeze_fast', fb, {'': {}, 'log': dict(logscale=True), 'stft': dict(Sfs=ar('Sfs', 'na'))}, {
        'const': [(nm('c'), nm('c2')), (ar('ca', 'na'), nm('c'))], 'logscale': [(True, False, {''})], 'flipud': [(True, UNSET), (True, False)], 'gamma': [(0, nm('gamma')), (0, UNSET), (nm('gamma'), UNSET)], 'Sfs': [(ar('Sfs', 'na'), UNSET, {'', 'stft'}), (ar('Sfs', 'na'), ar('Sfs2', 'na'), {'stft'})]})
    group('algos', 'replace_under_abs', dict(x=ar('w', 'na', 'N'), ref=p['Wx']), {'': {}}, {'value': [(nm('v'), UNSET), (nm('v'), nm('v2'))], 'replacement': [(nm('v'), UNSET), (nm('v'), nm('v2'))]}, _obs='x')
    for n in ('replace_at_inf_or_nan', 'replace_at_inf', 'replace_at_nan', 'replace_at_value'):
        group('algos', n, dict(x=ar('w', 'na', 'N')), {'': {}, 'by ref': dict(ref=ar('r', 'na', 'N'))}, {'replacement': [(nm('v'), UNSET), (nm('v'), nm('v2'))], 'ref': [(ar('r', 'na', 'N'), UNSET, {''})]}, _obs='x')
    # what a GPU call hands back
    xg = lambda h: h.arr('x', 'N', dt='float32', lib='torch')
    for n, f, b, kw in (('_cwt', 'cwt', dict(base, x=xg), dict(models=SEARCH, psi=None)), ('_ssq_cwt', 'ssq_cwt', dict(sbase, x=xg), dict(models=SEARCH, psi=None)),
                        ('_ssq_stft', 'ssq_stft', dict(ssb, x=xg, dtype='float32'), dict(kind='linear'))):
        group(n, f, b, {'GPU': {}} if n == '_ssq_stft' else {'GPU': {}, 'GPU, order 1': dict(order=1), 'GPU, orders': dict(order=(0, 1))}, {'astensor': [(False, UNSET), (False, True)]}, gpu=True, par=True, **kw)
    # ridges
    rb = dict(Tf=ar('Tf', 'na', 'N', dt='complex128'), scales=ar('scales', 'na'), n_ridges=1, parallel=False)
    group('ridge_extraction', 'extract_ridges', rb, {'': {}, 'with params': dict(get_params=True), 'stft': dict(transform='stft')}, {
        'penalty': [(0, UNSET), (nm('pen'), UNSET), (nm('pen'), nm('pen2')), (0, nm('pen'))], 'scales': [(ar('scales', 'na'), ar('scales2', 'na'))], 'transform': [('stft', 'cwt', {'', 'with params'})], 'get_params': [(True, False, {'', 'stft'})], 'n_ridges': [(2, 1)]})
    group('ridge_extraction', 'extract_ridges', dict(rb, n_ridges=2), {'': {}}, {'bw': [(0, UNSET), (3, UNSET), (nm('bw', 'pyint'), UNSET)]}, nonneg=('bw',), ints=('bw',))
    # wavelets
    wv = lambda h: h.arr('w', 'N')
    out += wavelet_options(tier)
    # helpers a user calls
    group('utils.common', 'padsignal', dict(x=x, padlength=nm('P', 'pyint')), {'': {}, '2-D': dict(x=xb)}, {'padtype': [('zero', UNSET), ('wrap', 'symmetric'), ('replicate', UNSET)], 'padlength': [(nm('P', 'pyint'), nm('P2', 'pyint'))], 'get_params': [(True, False)]}, pos=('P', 'P2'), ints=('P', 'P2'))
    bb = dict(x=x, seg_len=nm('L', 'pyint'), n_overlap=nm('ov', 'pyint'))
    group('utils.stft_utils', 'buffer', bb, {'': {}, '2-D': dict(x=xb)}, {'modulated': [(True, UNSET)], 'n_overlap': [(nm('ov', 'pyint'), 0), (0, nm('ov', 'pyint'))], 'seg_len': [(nm('L', 'pyint'), nm('L2', 'pyint'))]}, pos=('L', 'L2'), ints=('L', 'L2', 'ov'), nonneg=('ov',))
    group('utils.stft_utils', 'window_norm', dict(window=win, hop_len=nm('hop', 'pyint'), n_fft=nm('nf', 'pyint'), N=nm('N', 'pyint')), {'': {}}, {'win_exp': [(0, UNSET), (2, UNSET), (0, 2)]})
    group('utils.stft_utils', 'unbuffer', dict(xbuf=ar('xb', 'nf', 'nh'), window=win, hop_len=nm('hop', 'pyint'), n_fft=nm('nf', 'pyint'), N=nm('N', 'pyint')), {'': {}}, {'win_exp': [(0, UNSET), (2, UNSET), (0, 2)]}, pos=('nh',), ints=('nh',))
    group('_stft', 'get_window', dict(window=win, win_len=nm('nf', 'pyint')), {'': {}}, {'derivative': [(True, False)], 'n_fft': [(nm('nf2', 'pyint'), UNSET)], 'window': [(win, ar('window2', 'nf')), ('hann', 'hamming')], 'dtype': [('float32', 'float64')]}, pos=('nf2',), ints=('nf2',))
    nmap = {('utils.cwt_utils', 'make_scales'): None, ('utils.cwt_utils', 'cwt_scalebounds'): nums_of('bounds', 2), ('utils.cwt_utils', 'find_downsampling_scale'): nums_of('ds', 1)}
    mk = dict(N=nm('N', 'pyint'), min_scale=nm('s0'), max_scale=nm('s1'), wavelet=lab('gmw', lambda h: wavelet_obj(h)), nv=nm('nv', 'pyint'))
    group('utils.cwt_utils', 'make_scales', mk, {'': {}, 'linear': dict(scaletype='linear')}, {
        'min_scale': [(nm('s0'), nm('s2')), (nm('s0'), UNSET)], 'max_scale': [(nm('s1'), nm('s3')), (nm('s1'), UNSET)], 'nv': [(nm('nv', 'pyint'), 8, {''})], 'scaletype': [('linear', 'log', {''})]}, models=nmap)
    group('utils.cwt_utils', 'process_scales', dict(scales='log', N=nm('N', 'pyint'), wavelet=lab('gmw', lambda h: wavelet_obj(h)), nv=16), {'': {}, 'linear': dict(scales='linear')}, {
        'nv': [(16, 8)], 'scales': [('linear', 'log', {''}), ('log:minimal', 'log', {''}), ('log:maximal', 'log:minimal', {''}), (ar('sa', 'na'), ar('sb', 'na'))], 'use_padded_N': [(False, True)], 'get_params': [(True, False)], 'N': [(nm('N', 'pyint'), nm('N2', 'pyint'))]},
        models=SEARCH, pos=('N2',), ints=('N2',))
    sb = dict(wavelet=lab('gmw', lambda h: wavelet_obj(h)), N=nm('N', 'pyint'))
    fnd = {('utils.cwt_utils', 'find_min_scale'): nums_of('fmin', 1), ('utils.cwt_utils', 'find_max_scale'): nums_of('fmax', 1), ('utils.cwt_utils', 'find_max_scale_alt'): nums_of('falt', 1), **{k: None for k in SEARCH}}
    group('utils.cwt_utils', 'cwt_scalebounds', sb, {'': {}}, {'cutoff': [(nm('c1'), UNSET), (0, UNSET)], 'use_padded_N': [(False, True)], 'preset': [('minimal', 'maximal'), ('naive', UNSET), ('maximal', UNSET)], 'N': [(nm('N', 'pyint'), nm('N2', 'pyint'))],
        'min_cutoff': [(.5, UNSET)], 'max_cutoff': [(.9, UNSET)]}, models=fnd, pos=('N2',), ints=('N2',))
    group('utils.cwt_utils', 'cwt_scalebounds', dict(sb, preset='maximal'), {'': {}}, {'bin_loc': [(3, UNSET), (1, UNSET)], 'bin_amp': [(.5, UNSET)]}, models=fnd)
    group('utils.cwt_utils', '_process_fs_and_t', dict(fs=nm('fs'), t=None, N=nm('N', 'pyint')), {'': {}}, {'fs': [(nm('fs'), None), (nm('fs'), nm('fs2'))]})
    # test signals and tools
    group('toolkit', 'lin_band', dict(Tx=ar('Tx', 'na', 'N', dt='complex128'), slope=nm('sl'), offset=nm('of')), {'': {}}, {'bw': [(nm('bw'), UNSET)], 'slope': [(nm('sl'), nm('sl2')), (0, nm('sl'))], 'offset': [(nm('of'), nm('of2')), (0, nm('of'))]})
    for f in ('cos_f', 'sin_f'):
        group('toolkit', f, dict(freqs=lab('[f]', lambda h: mklist(h, 'freqs', [h.num('f', 'pyfloat')])), N=nm('N', 'pyint')), {'': {}}, {'phi': [(nm('phi'), UNSET), (0, nm('phi'))], 'endpoint': [(True, False)], 'N': [(nm('N', 'pyint'), nm('N2', 'pyint'))]}, pos=('N2',), ints=('N2',))
    return out


def wavelet_options(tier):
    out = []
    samples = lambda h, v: h.I.call(h.st, v, [h.arr('w', 'N')], {}, None)

    def add(mod, fn, base, option, a, b, **kw):
        out.append(Opt(mod, fn, base, '', option, a, b, None, psi=None, _then=samples, **kw))
    for norm in ('bandpass', 'energy'):
        for k in (0, 1):
            b = dict(gamma=3, beta=60, norm=norm, order=k, dtype='float64')
            for o, prs in {'gamma': [(4, 3), (4, UNSET)], 'beta': [(20, 60), (20, UNSET)], 'centered_scale': [(True, UNSET), (True, False)], 'norm': [('energy', 'bandpass')]}.items():
                for p in prs:
                    add('_gmw', 'gmw', b, o, *p)
        add('_gmw', 'gmw', dict(norm=norm, dtype='float64'), 'order', 1, 0)
        add('_gmw', 'gmw', dict(norm=norm, dtype='float64'), 'order', 2, 1)
        add('_gmw', 'gmw', dict(norm=norm, dtype='float64'), 'order', 1, UNSET)
        for k in (0, 1):
            c = dict(N=nm('N', 'pyint'), scale=nm('s1'), gamma=3, beta=60, norm=norm, order=k)
            for o, prs in {'gamma': [(4, UNSET)], 'beta': [(20, UNSET)], 'centered_scale': [(True, UNSET)], 'norm_scale': [(False, UNSET)] if norm == 'energy' else [], 'scale': [(nm('s1'), nm('s2'))], 'time': [(True, False)]}.items():
                for p in prs:
                    out.append(Opt('_gmw', 'compute_gmw', c, 'order %d' % k, o, p[0], p[1], None, psi=None))
    for n, ps in {'morlet': {'mu': (7., 13.4)}, 'bump': {'mu': (6, 5), 's': (2, 1), 'om': (1, 0)}, 'cmhat': {'mu': (2, 1), 's': (2, 1)}, 'hhhat': {'mu': (6, 5)}}.items():
        for o, (a, b) in ps.items():
            add('wavelets', n, dict(dtype='float64'), o, a, b)
            add('wavelets', n, dict(dtype='float64'), o, a, UNSET)
        for o in ps:
            add('wavelets', n, dict(dtype='float64'), o, 0, UNSET) if n == 'cmhat' and o == 'mu' else None
        add('wavelets', n, {}, 'dtype', 'float32', 'float64')
    return out


# ---------------------------------------------------------------- comparison
def dtypes(r, v, out):
    v = r.I.simp(r.st, v)
    if isinstance(v, Tup):
        for x in v.items:
            dtypes(r, x, out)
    elif isinstance(v, AV):
        out.append('%s %s' % (r.dt(v), getattr(r.st.heap.get(v.h), 'lib', '?')))
    return out


def observe(proj, o, value):
    """the canonical term of what the call returns (or leaves in an argument it works on)"""
    kw = dict(o.kw)
    base = dict(o.base)
    base.update(kw.pop('_base', {}))
    obs, then = kw.pop('_obs', None), kw.pop('_then', None)
    base[o.option] = value
    got = {}

    def args(h):
        got.update(build(h, base))
        return got
    h, r = scen.execute(proj, scen.Sc(o.label, o.mod, o.fn, args, **kw))
    if r.exc is not None and r.unsup is None:
        return h, r, ('raises',)
    if not r.ok:
        return h, r, None
    with h.ctx():
        v = got[obs] if obs is not None else r.v
        if then is not None:
            try:
                v = then(h, v)
            except (Unsup, RaiseSig, RecursionError):
                return h, r, None
        r.v = v
        return h, r, (h.I.as_term(h.st, v), tuple(dtypes(r, v, [])))


def key_of(o, value):
    """two observations with the same key are the same observation"""
    def k(v):
        return getattr(v, 'key', ('id', id(v))) if callable(v) else (('id', id(v)) if isinstance(v, dict) and any(callable(x) for x in v.values()) else repr(v))
    base = dict(o.base)
    kw = dict(o.kw)
    base.update(kw.pop('_base', {}))
    base[o.option] = value
    mods = kw.pop('models', {}) or {}
    return (o.mod, o.fn, tuple(sorted(((n, k(v)) for n, v in base.items() if v is not UNSET), key=repr)), tuple(sorted(((n, k(v)) for n, v in kw.items()), key=repr)),
            tuple(sorted(((n, id(f)) for n, f in mods.items()), key=repr)))


def digest(t):
    return hashlib.sha256(repr(t).encode()).hexdigest()


_J = None


def job(i):
    proj, cells = _J
    o, value = cells[i]
    h, r, a = observe(proj, o, value)
    if a is None:
        return '?', (r.why() or 'not called')[:300]
    if a == ('raises',):
        return 'raises', ''
    return 'value', digest(a)


def run(proj, rep):
    global _J
    rep.rule('effect', 'two values of an option that mean different things give different results')
    os_ = options(rep.tier)
    cells, idx = [], {}
    for o in os_:
        for v in (o.a, o.b):
            k = key_of(o, v)
            if k not in idx:
                idx[k] = len(cells)
                cells.append((o, v))
    rep.count('calls interpreted', len(cells))
    _J = (proj, cells)
    seen = {}
    for (i,), res, err in scen.pmap(job, list(range(len(cells)))):
        seen[i] = res if res is not None else ('?', err)
    for o in os_:
        rep.count('pairs of option values')
        a, b = (seen[idx[key_of(o, v)]] for v in (o.a, o.b))
        if '?' in (a[0], b[0]):
            rep.undecided('effect', o.label, (a if a[0] == '?' else b)[1])
        elif a[0] == b[0] == 'raises':
            rep.undecided('effect', o.label, 'both calls are refused')
        elif a == b:
            rep.violation('effect', o.label, '%s.%s returns the same with `%s` = %s and %s' % (o.mod, o.fn, o.option, show(o.a), show(o.b)), '%s.%s' % (o.mod, o.fn))
        else:
            rep.good('effect', o.label)
