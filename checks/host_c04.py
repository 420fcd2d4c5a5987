"""C04, host side: all scales at once against scale by scale; one pass against two steps."""
from checks.hutil import *                                           # noqa: F401,F403
from checks import refs, scen
from checks.kutil import roles
from ssqlint.kset import KernelSet

REF = '''
from ssqueezepy._cwt import cwt
from ssqueezepy._ssq_cwt import ssq_cwt, phase_cwt
from ssqueezepy._ssq_stft import ssq_stft, phase_stft
from ssqueezepy.ssqueezing import ssqueeze


def by_scale(x, **kw):
    return cwt(x, vectorized=False, **kw)


def ssq_by_scale(x, **kw):
    return ssq_cwt(x, vectorized=False, **kw)


def ssq_cwt_two(x, **kw):
    return ssq_cwt(x, get_w=True, **kw)


def ssq_stft_two(x, **kw):
    return ssq_stft(x, get_w=True, **kw)


def squeeze_two(Wx, dWx, gamma, Sfs=None, **kw):
    if Sfs is None:
        w = phase_cwt(Wx, dWx, gamma=gamma)
    else:
        w = phase_stft(Wx, dWx, Sfs, gamma)
    return ssqueeze(Wx, w, **kw)
'''

GRID = {'vmin', 'dv', 'vlmin', 'dvl', 'vlmin0', 'vlmin1', 'dvl0', 'dvl1', 'idx1', 'const', 'const_arr', 'flipud', 'omax', 'extra'}
DROP = {'M', 'N', 'dtype', 'f', 'out'}


def unlam(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr':
        v = v[1]
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lam':
        return v[2]
    return v


def one_form(names):
    """kernel calls of the one-pass and of the two-step reassignment, in one form"""
    def num0(v):
        v = v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr' else v
        return v[2] if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lam' and v[1] == () else v

    def flat(a):
        """(kind, parameters) of a squeezing kernel call, the phase step taken in"""
        role = names.get(str(a[1]).split(':')[-1])
        if role is None or not isinstance(a[3], tuple):
            return None
        d = {k: v for k, v in a[3]}
        d = {k: num0(v) for k, v in d.items() if k not in DROP}
        if role == 'ssq_stft' or role.startswith('ssq_cwt_'):
            kind = 'stft' if role == 'ssq_stft' else 'cwt'
            d['phase of'] = d.get('Wx')
            return (kind, 'lin' if kind == 'stft' else role[8:], d)
        if not role.startswith('indexed_sum_') or 'w' not in d:
            return None
        b = unlam(d['w'])
        b = b.atom() if isinstance(b, Poly) else None
        if b is None or b[0] != 'kern':
            return None
        pr = names.get(str(b[1]).split(':')[-1])
        if pr not in ('phase_cwt', 'phase_stft') or not isinstance(b[3], tuple):
            return None
        q = {k: num0(v) for k, v in b[3] if k not in DROP}
        del d['w']
        q['phase of'] = q.pop('Wx', None)
        if set(q) & set(d):
            return None
        d.update(q)
        return (pr[6:], role[12:], d)

    def walk(t):
        if isinstance(t, T.Poly):
            return T.subst(t, f)
        if isinstance(t, tuple):
            if t and t[0] == 'kern' and len(t) > 3:
                r = flat(t)
                if r is not None:
                    kind, grid, d = r
                    ok = GRID | {'Wx', 'dWx', 'gamma', 'phase of'} | ({'Sfs'} if kind == 'stft' else set())
                    head = ('kern', 'squeeze ' + kind + ' ' + grid) if set(d) <= ok else ('call', 'apply', 'squeeze')
                    return head + ('out', tuple((k, walk(d[k])) for k in sorted(d))) + tuple(walk(x) for x in t[4:])
            return tuple(walk(x) for x in t)
        return t

    def f(a):
        b = walk(a) if isinstance(a, tuple) else a
        return A(b) if b != a else None
    return walk


def wav(**kw):
    return lambda h: scen.wavelet_obj(h, **kw)


def tup(*xs):
    return lambda h: Tup([K(x) for x in xs])


def cwt_pairs(tier):
    out = []

    def add(label, items=2, batch=False, gpu=False, dt='float64', psi='float64', kind='log', fn='cwt', mod='_cwt', ref='by_scale', **kw):
        def args(h, ref=False, kw=kw):
            x = h.arr('x', *(('B', 'N') if batch else ('N',)), dt=dt, **(dict(lib='t') if gpu else {}))
            d = {k: (v(h) if callable(v) else v) for k, v in kw.items()}
            d.setdefault('wavelet', scen.wavelet_obj(h))
            d['x'] = x
            if not ref:
                d['vectorized'] = True
            return d
        out.append(refs.Pair('%s(%s)' % (fn, label), mod, fn, args, ref, lambda h: args(h, True), items=[(k, k) for k in range(items)],
                             pos=('fs',), gpu=gpu, psi=psi, kind=kind))
    fs = lambda h: h.num('fs', 'pyfloat')
    arr = lambda h: h.arr('scales', 'na', dt='float64')
    for b in (False, True):
        t = 'batch' if b else 'signal'
        d = dict(items=3, derivative=True, fs=fs, batch=b)
        add(t, batch=b)
        add(t + ', derivative', **d)
        add(t + ', derivative, L2', l1_norm=False, wavelet=lambda h: Tup([K('gmw'), scen.mkdict(h, 'wo', {'norm': 'energy'})]), **d)
        for p in (None, 'zero', 'symmetric', 'wrap', 'replicate'):
            add('%s, derivative, padtype=%s' % (t, p), padtype=p, **d)
        add(t + ', derivative, rpadded', rpadded=True, **d)
        add(t + ', derivative, scales given', scales=arr, **d)
        add(t + ', derivative, float32', dt='float32', psi='float32', **d)
        add(t + ', derivative, float32 wavelet, float64 signal', psi='float32', **d)
        add(t + ', derivative, no wavelet cache', cache_wavelet=False, **d)
        add(t + ', derivative, nan_checks off', nan_checks=False, **d)
        add(t + ', derivative, wavelet by name', wavelet='gmw', **d)
        add(t + ', derivative, morlet', wavelet='morlet', **d)
        add(t + ', derivative, log-piecewise', kind='log-piecewise', scales='log-piecewise', **d)
        add(t + ', derivative, GPU', gpu=True, **d)
        add(t + ', derivative, GPU, to NumPy', gpu=True, astensor=False, **d)
        add(t + ', order=1, derivative', order=1, **d)
        add(t + ', orders 0, 1, derivative', order=tup(0, 1), **d)
        if not b:
            add(t + ', get_w', fn='ssq_cwt', mod='_ssq_cwt', ref='ssq_by_scale', items=6, get_w=True, get_dWx=True)
            add(t + ', numeric', fn='ssq_cwt', mod='_ssq_cwt', ref='ssq_by_scale', items=4, get_w=True, difftype='numeric')
        add(t, fn='ssq_cwt', mod='_ssq_cwt', ref='ssq_by_scale', items=4, batch=b)
        add(t + ', order=1', fn='ssq_cwt', mod='_ssq_cwt', ref='ssq_by_scale', items=4, batch=b, order=1)
    return out


def ssq_pairs(tier, names):
    out = []
    cut = one_form(names)

    def add(label, fn, batch=False, gpu=False, dt='float64', kind='log', n=4, **kw):
        def args(h, kw=kw):
            d = dict(x=h.arr('x', 'N', dt=dt, **(dict(lib='t') if gpu else {})))
            d.update({k: (v(h) if callable(v) else v) for k, v in kw.items()})
            if fn == 'ssq_cwt':
                d.setdefault('wavelet', scen.wavelet_obj(h))
            else:
                d.setdefault('n_fft', h.num('nf', 'pyint'))
                d.setdefault('window', h.arr('win', 'nf', dt='float64'))
            return d
        out.append(refs.Pair('%s(%s)' % (fn, label), '_' + fn, fn, args, fn + '_two', items=[(k, k) for k in range(n)], cut=cut,
                             pos=('fs', 'gamma'), gpu=gpu, psi=dt, kind=kind))
    fs = lambda h: h.num('fs', 'pyfloat')
    gm = lambda h: h.num('gamma', 'pyfloat')
    for gpu in (False, True):
        g = ', GPU' * gpu
        for k in ('log', 'log-piecewise', 'linear'):
            for fl in (True, False):
                add('%s%s%s' % (k, '' if fl else ', flipud=False', g), 'ssq_cwt', kind=k, flipud=fl, fs=fs, scales=k, gpu=gpu, maprange='peak')
        add('gamma given' + g, 'ssq_cwt', gamma=gm, gpu=gpu)
        add('float32' + g, 'ssq_cwt', dt='float32', gpu=gpu)
        add('order=1' + g, 'ssq_cwt', order=1, gpu=gpu)
        add('orders 0, 1' + g, 'ssq_cwt', order=tup(0, 1), gpu=gpu)
        add('padtype=None' + g, 'ssq_cwt', padtype=None, gpu=gpu)
        add('maprange=maximal' + g, 'ssq_cwt', maprange='maximal', scales='log', ssq_freqs='log', gpu=gpu)
        add('preserve_transform=False' + g, 'ssq_cwt', preserve_transform=False, gpu=gpu)
        add('linear frequencies' + g, 'ssq_cwt', ssq_freqs='linear', kind='linear', gpu=gpu)
        for m in (True, False):
            for fl in (False, True):
                add('modulated=%s%s%s' % (m, ', flipud' if fl else '', g), 'ssq_stft', modulated=m, flipud=fl, fs=fs, gpu=gpu, kind='linear')
        add('gamma given' + g, 'ssq_stft', gamma=gm, gpu=gpu, kind='linear')
        add('hop' + g, 'ssq_stft', hop_len=lambda h: h.num('hop', 'pyint'), gpu=gpu, kind='linear')
        add('float64' + g, 'ssq_stft', dtype='float64', gpu=gpu, kind='linear')
        add('preserve_transform=False' + g, 'ssq_stft', preserve_transform=False, gpu=gpu, kind='linear')
        for sq in ('sum', 'lebesgue', 'abs'):
            if sq == 'abs' and gpu:
                continue
            add('squeezing=%s%s' % (sq, g), 'ssq_cwt', squeezing=sq, gpu=gpu)
            add('squeezing=%s%s' % (sq, g), 'ssq_stft', squeezing=sq, gpu=gpu, kind='linear')

    def sq(label, tr, gpu, kind, two=True, **kw):
        lib = dict(lib='t') if gpu else {}

        def args(h):
            d = dict(Wx=h.arr('Wx', 'na', 'N', dt='complex128', **lib), dWx=h.arr('dWx', 'na', 'N', dt='complex128', **lib), gamma=h.num('gamma', 'pyfloat'), transform=tr)
            d['ssq_freqs'] = h.arr('v', 'na', dt='float64')
            if tr == 'cwt':
                d['scales'] = h.arr('scales', 'na', dt='float64')
            else:
                d['Sfs'] = h.arr('Sfs', 'na', dt='float64', **lib)
            d.update(kw)
            return d
        out.append(refs.Pair('ssqueeze(%s)' % label, 'ssqueezing', 'ssqueeze', lambda h: dict(args(h), w=None), 'squeeze_two', args, items=[(0, 0), (1, 1)], cut=cut,
                             pos=('fs', 'gamma', 'v'), gpu=gpu, kind=kind))
    for gpu in (False, True):
        for k in ('log', 'log-piecewise', 'linear'):
            for fl in (True, False):
                sq('%s%s%s' % (k, '' if fl else ', flipud=False', ', GPU' * gpu), 'cwt', gpu, k, flipud=fl)
        for fl in (True, False):
            sq('stft%s%s' % ('' if fl else ', flipud=False', ', GPU' * gpu), 'stft', gpu, 'linear', flipud=fl)
    return out


def kernel_names(proj):
    names = {}
    for role, ss in roles(proj, KernelSet(proj)).items():
        if role.startswith(('ssq_cwt_', 'indexed_sum_', 'phase_')) or role == 'ssq_stft':
            for s in ss:
                names[s.name] = role
    return names


def run(proj, rep):
    rep.rule('per-scale', 'the transform of all scales at once is the transform computed scale by scale')
    rep.rule('one-pass', 'synchrosqueezing in one pass is fed the values that the phase transform and the reassignment are fed in two steps')
    refs.run_pairs(proj, rep, 'per-scale', cwt_pairs(rep.tier), REF)
    refs.run_pairs(proj, rep, 'one-pass', ssq_pairs(rep.tier, kernel_names(proj)), REF)
