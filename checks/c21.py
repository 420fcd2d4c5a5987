"""C21: the returned tuple holds what the documentation says, in that order, for every combination of flags."""
import itertools
from checks.hutil import *
from checks.hutil import H
from checks import scen
from checks.scen import Sc, val, x1, x2, mkdict
from ssqlint import terms as T

TECHNIQUE = 'abstract interpretation of each entry point for every flag combination; every returned item is identified by what its term computes'
EXPLANATION = ('Each entry point is interpreted with symbolic arguments for every combination of its return-affecting flags. A returned item is '
               'identified by its value term, not by its name: the transform is complex and built from an FFT without a frequency factor, its '
               'derivative has the frequency factor, a synchrosqueezed transform is a complex output of a reassignment kernel fed with the '
               'transform, the phase transform is a real output of a kernel fed with it, scales and frequencies are the 1-D vectors themselves. '
               'The number, order and array library (NumPy or device tensor) of the items must be the documented one.')
ASSUMPTIONS = ['items whose term the interpretation cannot build are reported undecided']

KINDS = {'T': 'the synchrosqueezed transform', 'X': 'the transform', 'dX': 'the derivative of the transform', 'w': 'the phase transform',
         's': 'the scales', 'f': 'the frequencies', 'Sfs': 'the STFT frequencies', 'xp': 'the padded signal', 'win': 'the window',
         'dwin': 'the differentiated window', 'none': 'None', 'ri': 'ridge indices', 'rf': 'ridge frequencies or scales', 're': 'ridge energies'}


def unknown(p):
    return [t for t in tainted(p) if t not in ('str', 'loop', 'lc')]


def is_xi(a):
    return a[:2] == ('call', 'xi')


def top(p):
    """atoms reachable without entering kernels and wavelets (both are returned themselves)"""
    out = []

    def v(x):
        if isinstance(x, Poly):
            for mono in x.m:
                for a, _ in mono:
                    v(a)
        elif isinstance(x, frozenset):
            for y in x:
                v(y)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
                if x[0] == 'kern' and computes(x) or x[:2] == ('call', 'psi'):
                    return
            for y in x:
                v(y)
    v(p)
    return out


def has(p, head):
    hit = []
    T.walk(p, lambda a: hit.append(1) if a and a[0] == head else None)
    return bool(hit)


def kernel_args(a):
    """(output parameter, {param: term}) of a 'kern' atom"""
    return a[2], dict(x for x in a[3] if isinstance(x, tuple) and len(x) == 2)


def computes(a):
    """a kernel that makes a new quantity from a transform, unlike one that touches up its own array"""
    out, d = kernel_args(a)
    return any(derived(t) for p, t in d.items() if p != out)


def derived(t):
    """does the term read a transform (an FFT output or a named input transform)?"""
    hit = []
    T.walk(t, lambda a: hit.append(1) if a and (a[0] == 'fft' or a[0] == 'get' and a[1] in ('W', 'dW', 'Wx', 'dWx', 'Sx', 'dSx', 'w', 'Tf')) else None)
    return bool(hit)


def classify(r, v, freqs=None):
    """-> (kind or None, why)"""
    I, st = r.I, r.st
    v = I.simp(st, v)
    if v is NONE or isinstance(v, K) and v.v is None:
        return 'none', ''
    if isinstance(v, Ref):
        o = st.heap.get(v.h)
        return None, type(o).__name__
    if isinstance(v, (Num, K)):
        return 'num', ''
    if not isinstance(v, AV):
        return None, 'a %s' % type(v).__name__
    b, sh, dt = r.body(v), r.sh(v), r.dt(v)
    if unknown(b):
        return None, 'unknown value'
    if b == A(('get', 'scales', ix(0))) or b == A(('get', 'scales', ix(len(sh) - 1))):
        return 's', ''
    if freqs is not None and len(sh) == 1:
        return ('f' if any(a[0] == 'get' and a[1] == 'ssq_freqs' for a in top(b)) else 'Sfs'), ''
    if any(a[0] == 'kern' and 'penalty' in str(a[2:4]) or a[0] == 'get' and a[1] == 'Tf' for a in top(b)) and dt is not None:
        if str(dt).startswith('int'):
            return 'ri', ''
        return ('rf' if any(a[0] == 'get' and a[1] == 'scales' for a in top(b)) else 're' if any(a[0] == 'get' and a[1] == 'Tf' for a in top(b)) else None), 'ridge item'
    cplx = None if dt is None else str(dt).startswith('complex')
    at = top(b)
    kern = [a for a in at if a[0] == 'kern']
    main = [a for a in kern if computes(a)]
    raw = [a for a in at if a[0] == 'get' and a[1] in ('W', 'dW', 'Wx', 'dWx')]
    fft = [a for a in at if a[0] == 'fft']
    if cplx is None:
        return None, 'dtype unknown'
    if len(sh) >= 2 and cplx and main:
        return 'T', ''
    if len(sh) >= 2 and not cplx and main:
        return 'w', ''
    if len(sh) >= 2 and cplx and (fft or raw):
        if any(a[0] == 'get' and a[1] == 'dW' for a in at):
            return 'dX', ''
        return ('dX' if any(is_xi(a) for a in at) else 'X'), ''
    if len(sh) >= 2 and not cplx and (fft or raw):
        return 'w', ''
    if len(sh) == 1 and not cplx and not main:
        return 'f', ''
    return None, 'shape %s, dtype %s, atoms %s' % (sh, dt, sorted({a[0] for a in at})[:6])


def lib_of(r, v):
    v = r.I.simp(r.st, v)
    return r.I.alib(r.st, v) if isinstance(v, AV) else None


def sc_cwt(tier):
    out = []
    opts = [dict(), dict(rpadded=True), dict(vectorized=False), dict(padtype=None), dict(l1_norm=False), dict(scales=scen.scales_arr),
            dict(cache_wavelet=True), dict(nan_checks=False), dict(t=lambda h: h.arr('t', 'N'))]
    for d, o, xn in itertools.product((False, True), opts, (1, 2)):
        want = ['X', 's'] + (['dX'] if d else [])
        out.append(mk('_cwt', 'cwt', o, want, xn, derivative=d))
    for d, order, avg in itertools.product((False, True), (1, (0, 1)), (None, True)):
        if avg and order == 1:
            continue
        out.append(mk('_cwt', 'cwt', dict(order=order, average=avg), ['X', 's'] + (['dX'] if d else []), 1, derivative=d))
        out.append(mk('_cwt', 'cwt_higher_order', dict(order=order, average=avg), ['X', 's'] + (['dX'] if d else []), 1, derivative=d))
    for d, ast, vec, kind in itertools.product((False, True), (None, False, True), (False, True), ('log', 'log-piecewise')):
        o = dict(vectorized=vec)
        if ast is not None:
            o['astensor'] = ast
        out.append(mk('_cwt', 'cwt', o, ['X', 's'] + (['dX'] if d else []), 1, kind=kind, gpu=True, lib='np' if ast is False else 't', derivative=d))
    return out


def mk(mod, fn, opts, want, xn, kind='log', gpu=False, lib=None, extra=None, freqs=None, xdt='float32', **flags):
    lbl = ', '.join(['%s=%s' % (k, '...' if callable(v) else v) for k, v in dict(opts, **flags).items()])
    xd = ('N',) if xn == 1 else ('B', 'N')

    def args(h):
        d = {'x': h.arr('x', *xd, dt=xdt, lib='t' if gpu else 'np')}
        if fn in ('cwt', 'ssq_cwt', 'cwt_higher_order'):
            d['scales'] = K(kind)
        for k, v in dict(extra or {}, **dict(opts, **flags)).items():
            d[k] = v(h) if callable(v) else val(h, v)
        return d
    s = Sc('%s(%s%s%s%s)' % (fn, '1-D' if xn == 1 else '2-D', ', GPU' if gpu else '', ', ' + kind if kind != 'log' else '', ', ' + lbl if lbl else ''),
           mod, fn, args, kind=kind, gpu=gpu, psi='float32')
    s.want, s.lib, s.freqs = want, lib, freqs
    for f in ('derivative', 'get_dWx'):
        if flags.get(f):
            s.twin = mk(mod, fn, opts, want[:-1], xn, kind, gpu, lib, extra, freqs, xdt, **dict(flags, **{f: False}))
            s.flag = f
    return s


def sc_ssq_cwt(tier):
    out = []
    opts = [dict(), dict(preserve_transform=True), dict(preserve_transform=False), dict(squeezing='lebesgue'), dict(flipud=False), dict(padtype=None),
            dict(vectorized=False), dict(scales=scen.scales_arr), dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')), dict(maprange='maximal'),
            dict(difftype='phase'), dict(difftype='numeric'), dict(order=1), dict(order=(0, 1)), dict(gamma=lambda h: h.num('gamma', 'pyfloat'))]
    for gw, gd, o, xn in itertools.product((False, True), (False, True), opts, (1, 2)):
        if xn == 2 and (gw or 'order' in o):
            continue
        if not gw and 'difftype' in o:
            continue
        fr = A(('get', 'ssq_freqs', ix(0))) if 'ssq_freqs' in o else None
        want = ['T', 'X', 'f', 's'] + (['w'] if gw else []) + (['dX'] if gd else [])
        out.append(mk('_ssq_cwt', 'ssq_cwt', o, want, xn, freqs=fr, get_w=gw, get_dWx=gd))
    for gw, gd, ast, pt, kind in itertools.product((False, True), (False, True), (None, False, True), (None, True, False), ('log', 'log-piecewise')):
        o = {}
        if ast is not None:
            o['astensor'] = ast
        if pt is not None:
            o['preserve_transform'] = pt
        if kind != 'log' and pt is not None:
            continue
        want = ['T', 'X', 'f', 's'] + (['w'] if gw else []) + (['dX'] if gd else [])
        s = mk('_ssq_cwt', 'ssq_cwt', o, want, 1, kind=kind, gpu=True, lib='np' if ast is False else 't', get_w=gw, get_dWx=gd)
        out.append(s)
    return out


def sc_stft(tier):
    out = []
    nf = dict(n_fft=lambda h: h.num('nf', 'pyint'))
    for d, o, xn in itertools.product((False, True), [dict(), dict(modulated=False), dict(padtype='zero'), dict(fs=lambda h: h.num('fs', 'pyfloat')),
                                                      dict(window=lambda h: h.arr('window', 'nf'), dtype='float64'),
                                                      dict(hop_len=lambda h: h.num('hop', 'pyint'))], (1, 2)):
        out.append(mk('_stft', 'stft', o, ['X', 'dX'] if d else ['X'], xn, extra=nf, derivative=d))
    opts = [dict(), dict(preserve_transform=True), dict(preserve_transform=False), dict(flipud=True), dict(squeezing='lebesgue'), dict(modulated=False),
            dict(ssq_freqs=lambda h: h.arr('ssq_freqs', 'na')), dict(gamma=lambda h: h.num('gamma', 'pyfloat')), dict(padtype='zero')]
    for gw, gd, o, xn in itertools.product((False, True), (False, True), opts, (1, 2)):
        if xn == 2 and gw:
            continue
        fr = A(('get', 'ssq_freqs', ix(0))) if 'ssq_freqs' in o else None
        want = ['T', 'X', 'f', 'Sfs'] + (['w'] if gw else []) + (['dX'] if gd else [])
        out.append(mk('_ssq_stft', 'ssq_stft', o, want, xn, kind='linear', extra=nf, freqs=fr, get_w=gw, get_dWx=gd))
    for gw, gd, ast in itertools.product((False, True), (False, True), (None, False, True)):
        o = {} if ast is None else dict(astensor=ast)
        want = ['T', 'X', 'f', 'Sfs'] + (['w'] if gw else []) + (['dX'] if gd else [])
        out.append(mk('_ssq_stft', 'ssq_stft', o, want, 1, kind='linear', gpu=True, lib='np' if ast is False else 't', extra=nf, get_w=gw, get_dWx=gd))
    return out


def sc_ssqueeze(tier):
    out = []
    for tr, step, nd, kind in itertools.product(('cwt', 'stft'), (1, 2), (2, 3), ('linear', 'log', 'log-piecewise')):
        if tr == 'stft' and kind != 'linear':
            continue

        def args(h, tr=tr, step=step, nd=nd):
            sh = ('na', 'N') if nd == 2 else ('B', 'na', 'N')
            a = dict(Wx=h.arr('W', *sh, dt='complex64'), ssq_freqs=h.arr('ssq_freqs', 'na'), fs=h.num('fs', 'pyfloat'), transform=K(tr), gamma=h.num('gamma', 'pyfloat'))
            if tr == 'cwt':
                a['scales'] = h.arr('scales', 'na')
            if step == 1:
                a['dWx'] = h.arr('dW', *sh, dt='complex64')
                if tr == 'stft':
                    a['Sfs'] = h.arr('Sfs', 'na', dt='float32')
            else:
                a['w'] = h.arr('w', *sh, dt='float32')
            return a
        s = Sc('ssqueeze(%s, %s, %s, %d-D)' % (tr, 'one-step' if step == 1 else 'two-step', kind, nd), 'ssqueezing', 'ssqueeze', args, kind=kind)
        s.want, s.lib, s.freqs = ['T', 'f'], None, A(('get', 'ssq_freqs', ix(0)))
        out.append(s)
    return out


def sc_ridges(tier):
    out = []
    for tr, gp, par, dt in itertools.product(('cwt', 'stft'), (False, True), (False, True), ('complex64', 'float32')):
        def args(h, tr=tr, gp=gp, par=par, dt=dt):
            return dict(Tf=h.arr('Tf', 'na', 'N', dt=dt), scales=h.arr('scales', 'na'), transform=K(tr), n_ridges=K(1), get_params=K(gp), parallel=K(par))
        s = Sc('extract_ridges(%s, %s, get_params=%s, parallel=%s)' % (dt, tr, gp, par), 'ridge_extraction', 'extract_ridges', args)
        s.want, s.lib, s.freqs = ['ri', 'rf', 're'] if gp else ['ri'], None, None
        out.append(s)
    return out


# functions whose items have a closed form: expected values, as terms
def misc(proj, rep):
    T_ = T

    def eqn(label, mod, fn, args, want, **hk):
        h = H(proj, **hk)
        a = args(h)
        r = h.run(mod, fn, a)
        rep.count('calls interpreted')
        if not r.ok:
            rep.undecided('items', label, r.why()[:200])
            return
        its = [r.I.simp(r.st, v) for v in r.items()] if isinstance(r.I.simp(r.st, r.v), Tup) else [r.I.simp(r.st, r.v)]
        if len(its) != len(want):
            rep.violation('items', label, 'returns %d items, documented: %s' % (len(its), ', '.join(w[0] for w in want)), '%s.%s' % (mod, fn))
            return
        for i, (v, (nm, f)) in enumerate(zip(its, want)):
            e = f(h, r, its)
            con = '%s: item %d (%s)' % (label, i + 1, nm)
            if e is None:
                continue
            if isinstance(e, str):
                if e.startswith('?'):
                    rep.undecided('items', con, e[1:])
                else:
                    rep.violation('items', con, e, '%s.%s' % (mod, fn))
                continue
            if e is True:
                rep.good('items', con)
                continue
            got = r.body(v) if isinstance(v, AV) else (r.I.P(v) if isinstance(v, (Num, K)) and not (isinstance(v, K) and not isinstance(v.v, (int, float))) else None)
            if got is None:
                if isinstance(v, K) and isinstance(e, K):
                    if v.v == e.v:
                        rep.good('items', con)
                    else:
                        rep.violation('items', con, 'is %r, documented %r' % (v.v, e.v), '%s.%s' % (mod, fn))
                else:
                    rep.undecided('items', con, 'value not a term (%s)' % type(v).__name__)
                continue
            k, why = same(got, e, r.I.facts)
            if k == 'eq':
                rep.good('items', con)
            elif k == 'ne':
                rep.violation('items', con, 'is %s, documented %s' % (short(got), short(e)), '%s.%s' % (mod, fn))
            else:
                rep.undecided('items', con, why)
    N, n1, n2 = sym('N'), sym('n1'), sym('n2')
    # padsignal: (padded signal, total length, left pad, right pad)
    for pt in ('reflect', 'zero', 'symmetric', 'replicate', 'wrap'):
        for dims in (('N',), ('B', 'N')):
            def padded(h, r, its, dims=dims):
                sh = r.sh(its[0]) if isinstance(its[0], AV) else None
                if sh is None:
                    return 'not an array'
                k, why = same(sh[-1], N + n1 + n2, r.I.facts)
                return True if k == 'eq' and len(sh) == len(dims) else 'shape %s' % (sh,) if k == 'ne' or len(sh) != len(dims) else '?' + why
            eqn('padsignal(%d-D, %s, get_params)' % (len(dims), pt), 'utils.common', 'padsignal',
                lambda h, dims=dims, pt=pt: {'x': h.arr('x', *dims), 'padtype': K(pt), 'get_params': K(True)},
                [('padded signal', padded), ('n_up', lambda h, r, i: N + n1 + n2), ('n1', lambda h, r, i: n1), ('n2', lambda h, r, i: n2)])

            def padonly(h, r, its, dims=dims):
                return padded(h, r, its, dims)
            eqn('padsignal(%d-D, %s)' % (len(dims), pt), 'utils.common', 'padsignal',
                lambda h, dims=dims, pt=pt: {'x': h.arr('x', *dims), 'padtype': K(pt)}, [('padded signal', padonly)])
    # _process_fs_and_t: (dt, fs, t)
    fs = sym('fs')

    eqn('_process_fs_and_t(fs)', 'utils.cwt_utils', '_process_fs_and_t', lambda h: {'fs': h.num('fs', 'pyfloat'), 't': NONE, 'N': h.num('N', 'pyint')},
        [('dt', lambda h, r, i: T.power(fs, -1)), ('fs', lambda h, r, i: fs), ('t', lambda h, r, i: None)])
    # process_scales: (scales, scaletype, number of scales, nv)
    for kind in ('log', 'linear', 'log-piecewise'):
        def nvw(h, r, its, kind=kind):
            return sym('nv') if kind == 'log' else None
        for src in ('given', 'made'):
            eqn('process_scales(%s %s, get_params)' % (src, kind), 'utils.cwt_utils', 'process_scales',
                lambda h, kind=kind, src=src: {'scales': h.arr('scales', 'na') if src == 'given' else K(kind), 'N': h.num('N', 'pyint'),
                                               'wavelet': scen.wavelet_obj(h), 'nv': h.num('nv', 'pyint') if kind != 'linear' and src == 'made' else NONE, 'get_params': K(True)},
                [('scales', lambda h, r, i: A(('get', 'scales', ix(0)))), ('scaletype', lambda h, r, i, kind=kind: K(kind)),
                 ('number of scales', lambda h, r, i: sym('na')), ('nv', nvw)],
                kind=kind, models=dict(scen.SCALES))
    # get_window(derivative): (window, differentiated window)

    def win(h, r, its):
        return None if not isinstance(its[0], AV) else ('?unknown' if unknown(r.body(its[0])) else
                                                        'carries the frequency factor of a derivative' if any(is_xi(a) for a in top(r.body(its[0]))) else True)

    def dwin(h, r, its):
        return None if not isinstance(its[1], AV) else ('?unknown' if unknown(r.body(its[1])) else
                                                        True if any(is_xi(a) for a in top(r.body(its[1]))) else 'carries no frequency factor')
    for w in ('array', 'hann', None):
        eqn('get_window(%s, derivative)' % w, '_stft', 'get_window',
            lambda h, w=w: {'window': h.arr('window', 'nf') if w == 'array' else K(w), 'win_len': h.num('nf', 'pyint'), 'n_fft': h.num('nf', 'pyint'), 'derivative': K(True)},
            [('window', win), ('diff_window', dwin)])
        eqn('get_window(%s)' % w, '_stft', 'get_window',
            lambda h, w=w: {'window': h.arr('window', 'nf') if w == 'array' else K(w), 'win_len': h.num('nf', 'pyint'), 'n_fft': h.num('nf', 'pyint')},
            [('window', win)])


def pair(i):
    """the items a call returns anyway are the same values when one more is asked for"""
    proj, scens = _JOB
    s = scens[i]
    h1, r1 = scen.execute(proj, s)
    h2, r2 = scen.execute(proj, s.twin)
    if not (r1.ok and r2.ok):
        return [('?', 0, 'not interpreted')]
    out = []
    T._FACTS.append(h1.facts)
    try:
        for n, (a, b) in enumerate(zip(r1.items(), r2.items())):
            a, b = r1.I.simp(r1.st, a), r2.I.simp(r2.st, b)
            if isinstance(a, AV) and isinstance(b, AV):
                p, q = r1.body(a), r2.body(b)
                k, why = ('eq', '') if p == q else same(p, q, r1.I.facts)
                if k == 'eq' and r1.dt(a) != r2.dt(b):
                    k, why = 'ne', 'dtype %s, without it %s' % (r1.dt(a), r2.dt(b))
                elif k == 'ne':
                    why = 'is %s, without it %s' % (short(p), short(q))
                out.append((k, n, why))
            else:
                out.append(('?', n, 'not an array'))
    finally:
        T._FACTS.pop()
    return out


_JOB = None


def check(s, h, r):
    if not r.ok:
        return ('refused' if r.exc is not None else 'unknown', r.why()[:200])
    v = r.I.simp(r.st, r.v)
    its = [r.I.simp(r.st, x) for x in r.items()] if isinstance(v, Tup) else [v]
    if isinstance(v, (Phi, Opq)):
        return ('unknown', 'the returned value is conditional')
    got = []
    for x in its:
        k, why = classify(r, x, s.freqs)
        got.append((k, why, lib_of(r, x)))
    # lists of arrays (non-averaged orders) hold the arrays of their item
    return ('items', got)


def run(proj, rep):
    rep.rule('items', 'each returned item is the documented quantity, and there are as many as documented')
    rep.rule('library', 'astensor=False returns NumPy arrays only; by default device results stay on the device')
    rep.rule('flags', 'asking for one more item does not change the value of the others')
    tier = getattr(rep, 'tier', 'quick')
    scens = sc_cwt(tier) + sc_ssq_cwt(tier) + sc_stft(tier) + sc_ssqueeze(tier) + sc_ridges(tier)
    for s, got, err in scen.run_all(proj, scens, check):
        rep.count('calls interpreted')
        if err or got is None:
            rep.undecided('items', s.label, err or 'no result')
            continue
        if got[0] != 'items':
            rep.undecided('items', s.label, got[1])
            continue
        got = got[1]
        where_ = '%s.%s' % (s.mod, s.fn)
        if len(got) != len(s.want):
            rep.violation('items', s.label, 'returns %d items (%s); documented: %s' % (
                len(got), ', '.join(KINDS.get(k, '?') for k, _, _ in got), ', '.join(KINDS[k] for k in s.want)), where_)
            continue
        for i, ((k, why, lib), w) in enumerate(zip(got, s.want)):
            con = '%s: item %d' % (s.label, i + 1)
            # without a given grid the two frequency vectors of ssq_stft are the same values
            ok = k == w or s.freqs is None and k == 'f' and w == 'Sfs'
            if k is None:
                rep.undecided('items', con, why)
            elif ok:
                rep.good('items', con)
            else:
                rep.violation('items', con, 'is %s, documented: %s' % (KINDS.get(k, k), KINDS[w]), where_)
            if s.lib and lib is not None and s.want[i] in ('T', 'X', 'dX', 'w'):
                if lib == s.lib:
                    rep.good('library', con)
                else:
                    rep.violation('library', con, 'is a %s' % ('device tensor' if lib == 't' else 'NumPy array'), where_)
            elif s.lib == 'np' and lib is not None:
                if lib == 'np':
                    rep.good('library', con)
                else:
                    rep.violation('library', con, 'is a device tensor with astensor=False', where_)
    global _JOB
    tw = [s for s in scens if getattr(s, 'twin', None) is not None]
    _JOB = (proj, tw)
    for (i,), res, err in scen.pmap(pair, list(range(len(tw)))):
        s = tw[i]
        for k, n, why in res if res is not None else [('?', 0, err)]:
            con = '%s: item %d without %s' % (s.label, n + 1, s.flag)
            if k == 'eq':
                rep.good('flags', con)
            elif k == 'ne':
                rep.violation('flags', con, why, '%s.%s' % (s.mod, s.fn))
            else:
                rep.undecided('flags', con, why)
    rep.guard('items', 'helper functions', misc, proj, rep)
