"""C22: inverse transforms undo the forward normalization exactly once."""
from checks.hutil import *
from checks import c14, c21, scen, refs
from checks.c14 import NODEN, plain, HK, EVEN, ODD
from checks.refs import Pair
from ssqlint import terms as T
from ssqlint.flow import Unsup

TECHNIQUE = 'abstract interpretation: value terms of each inverse compared with those of the inversion formula, interpreted by the same engine'
EXPLANATION = ('Each inverse transform is interpreted with symbolic transform, scales, window, lengths and admissibility constant for every combination of its options, '
               'and the resulting terms are compared with those of reference code stating the inversion formula: weight per scale for L1/L2 norm and logarithmic/linear spacing, '
               'admissibility factor, mean, pieces of piecewise scales, padding, window power, masks of the selected components. '
               'Forward quadrature weights are compared with the inverse\'s, and defaults of forward and inverse with each other.')
ASSUMPTIONS = ['FFT routines do what their documentation says', 'the window overlap-add is nowhere negligible (NOLA), else samples are left as they are',
               'numeric quadrature of the admissibility integrals is accurate']
SRC = '''
import numpy as np
from numpy.fft import fft, ifft, ifftshift
from ssqueezepy.wavelets import Wavelet
from ssqueezepy._cwt import _process_gmw_wavelet
from ssqueezepy._stft import get_window
from ssqueezepy.utils.common import p2up, padsignal
from ssqueezepy.utils.cwt_utils import adm_ssq, adm_cwt, process_scales, infer_scaletype, logscale_transition_idx

def weight(scale, loglike, l1_norm):
    # W = sum of x psi* ; one factor sqrt(scale) between the L1 and L2 norms, d(scale)/scale for logarithmic scales
    p = (0 if loglike else 1) + (0 if l1_norm else .5)
    return 1 if p == 0 else scale**p

def piece(Wx, wav, scales, nv, kind, one_int, N, padtype, rpadded, l1_norm):
    loglike = kind != 'linear'
    n = Wx.shape[-1]
    if one_int:
        if rpadded and N != n:
            n1 = p2up(N)[1]
            Wx = Wx[..., n1:n1 + N]
        x = (Wx.real / weight(scales, loglike, l1_norm)).sum(axis=-2)
        C = adm_ssq(wav)
    else:
        if rpadded:
            n_up = n
            n1 = p2up(N)[1] if N != n else 0
        else:
            Wx, n_up, n1, _ = padsignal(Wx, padtype, get_params=True)
        x = np.zeros(n_up)
        for scale, W in zip(scales, Wx):
            psih = wav(scale=scale, N=n_up)
            # psih holds the wavelet centered at sample n_up/2
            conv = ifftshift(ifft(fft(W) * psih * (-1)**np.arange(n_up)))
            x += conv.real / weight(scale, loglike, l1_norm)
        x = x[n1:n1 + N]
        C = adm_cwt(wav)
    if loglike:
        return x * 2 * np.log(2**(1/nv)) / C
    return x * 2 * (np.pi/4) / C

def icwt(Wx, wavelet, scales, nv, one_int, x_len, x_mean, padtype, rpadded, l1_norm, kind):
    N = Wx.shape[-1] if x_len is None else x_len
    if nv is None and isinstance(scales, str):
        nv = 32
    wav = Wavelet._init_if_not_isinstance(_process_gmw_wavelet(wavelet, l1_norm))
    scales, _, _, nv = process_scales(scales, N, wav, nv=nv, get_params=True)
    if kind == 'log-piecewise':
        i = logscale_transition_idx(scales)
        a, b = scales[:i], scales[i:]
        x = (piece(Wx[..., :i, :], wav, a, infer_scaletype(a)[1], 'log', one_int, N, padtype, rpadded, l1_norm) +
             piece(Wx[..., i:, :], wav, b, infer_scaletype(b)[1], 'log', one_int, N, padtype, rpadded, l1_norm))
    else:
        x = piece(Wx, wav, scales, nv, kind, one_int, N, padtype, rpadded, l1_norm)
    if Wx.ndim == 3 and x_mean is not 0:
        return x + x_mean[:, None]
    return x + x_mean

def components(Tx, cc, cw):
    out = np.zeros((cc.shape[1] + 1, Tx.shape[1]))
    rows = np.arange(len(Tx))[:, None]
    free = np.ones(Tx.shape, dtype=bool)
    for n in range(cc.shape[1]):
        c, w = cc[:, n], cw[:, n]
        inside = (rows >= c - w) & (rows <= c + w) & (c != -1)
        out[n] = np.where(inside, Tx.real, 0.).sum(axis=0)
        free = free & ~inside
    out[cc.shape[1]] = np.where(free, Tx.real, 0.).sum(axis=0)
    return out

def issq_cwt(Tx, wavelet, cc, cw):
    x = Tx.real.sum(axis=0) if cc is None else components(Tx, cc, cw)
    return x * 2 / adm_ssq(Wavelet._init_if_not_isinstance(wavelet))

def issq_stft(Tx, window, n_fft, win_len, cc, cw):
    n_fft = (Tx.shape[0] - 1)*2 if n_fft is None else n_fft
    window = get_window(window, n_fft if win_len is None else win_len, n_fft=n_fft)
    x = Tx.real.sum(axis=0) if cc is None else components(Tx, cc, cw)
    return x * 2 / window[len(window)//2]
'''


def infer(kind):
    def m(I, st, d, node):
        x = I.simp(st, next(iter(d.values())))
        if isinstance(x, AV):
            n, b = I.ashape(st, x)[0], I.abody(st, x)
        else:
            n, b = sym('na'), ZERO
        if kind == 'linear':
            return Tup([K(kind), NONE])
        if kind == 'log-piecewise' and n == sym('na'):
            return Tup([K(kind), I.newarr(st, (n,), A(('get', 'nv', ix(0))), 'float64')])
        return Tup([K('log'), Num(A(('call', 'round', A(('call', 'nvof', n, T.subst(b, lambda a: ZERO if a[0] == 'ix' else None))))), 'pyint')])
    return m


def adm(name):
    def m(I, st, d, node):
        return Num(A(('call', name, '#w')), 'float64')
    return m


ADMS = {('utils.cwt_utils', 'adm_ssq'): adm('adm_ssq'), ('utils.cwt_utils', 'adm_cwt'): adm('adm_cwt')}


def icwt_pairs(tier):
    out = []
    for kind in ('log', 'linear', 'log-piecewise'):
        for arr in (True, False):
            for l1 in (True, False):
                for one in (True, False):
                    for o in ({}, {'x_len': 'N'}, {'x_mean': 'xm'}, {'rpadded': True}, {'padtype': 'zero'}, {'padtype': 'symmetric'}, {'rpadded': True, 'x_mean': 'xm'}, {'nv': 16}, {'wavelet': 'morlet'},
                              {'nd': 3}, {'nd': 3, 'x_mean': 'xm'}, {'nd': 3, 'rpadded': True}):
                        nd = o.get('nd', 2)
                        if (nd == 3 and not one) or ('padtype' in o and one) or ('nv' in o and (arr or kind == 'log-piecewise')):
                            continue
                        if kind == 'log-piecewise' and not arr:
                            continue
                        lbl = 'icwt(%s%s, %s, %s%s)' % (kind, ' scales array' if arr else '', 'L1' if l1 else 'L2', 'one integral' if one else 'double integral',
                                                       ''.join(', %s=%s' % ({'nd': 'Wx.ndim'}.get(k, k), v) for k, v in o.items()))

                        def args(h, o=o, nd=nd, kind=kind, arr=arr, l1=l1, one=one):
                            n = sym('N') + (sym('n1') + sym('n2') if o.get('rpadded') else ZERO)
                            d = dict(Wx=h.arr('Wx', *(('B',) if nd == 3 else ()), 'na', n, dt='complex64'),
                                     scales=h.arr('scales', 'na') if arr else K(kind), l1_norm=K(l1), one_int=K(one))
                            if 'x_len' in o or o.get('rpadded'):
                                d['x_len'] = Num(sym('N'), 'pyint')
                            if 'x_mean' in o:
                                d['x_mean'] = h.arr('x_mean', 'B') if nd == 3 else h.num('xm', 'pyfloat')
                            for k in ('rpadded', 'padtype', 'nv', 'wavelet'):
                                if k in o:
                                    d[k] = scen.val(h, o[k])
                            return d

                        def ra(h, args=args, kind=kind):
                            d = dict(wavelet=K('gmw'), nv=NONE, x_len=NONE, x_mean=K(0), padtype=K('reflect'), rpadded=K(False), kind=K(kind))
                            d.update(args(h))
                            return d
                        out.append(Pair(lbl, '_cwt', 'icwt', args, 'icwt', ra, kind=kind, psi='float32' if l1 or o.get('wavelet') else None, pos=('n1', 'n2'), models={**ADMS, ('utils.cwt_utils', 'infer_scaletype'): infer(kind)}))
    return out


def curves(k):
    """a center is a row, or -1 where the curve is absent; widths are not negative"""
    out = [A(('bv', 0)), sym('nf') - ONE - A(('bv', 0))] if k else []
    for q in range(k):
        cc, cw = [A(('get', n, ix(1), num(q))) for n in ('cc', 'cw')]
        out += [cc + ONE, sym('nf') - ONE - cc, cw]
    return out


def ssq_pairs(tier):
    out = []
    for k in (0, 1, 2):
        for wl in ('gmw', 'morlet'):
            def args(h, k=k, wl=wl):
                d = dict(Tx=h.arr('Tx', 'nf', 'N', dt='complex128'), wavelet=K(wl), cc=NONE, cw=NONE)
                if k:
                    d.update(cc=h.arr('cc', 'N', k, dt='int64'), cw=h.arr('cw', 'N', k, dt='int64'))
                return d
            out.append(Pair('issq_cwt(%s%s)' % (wl, ', %d components' % k if k else ''), '_ssq_cwt', 'issq_cwt', args, 'issq_cwt', args, models=dict(ADMS),
                            lits=curves(k), ints=('cc', 'cw')))
        for w in (None, 'hann', 'arr'):
            for nf in (None, 'n_fft'):
                for wl in (None, 'wl'):
                    def args(h, k=k, w=w, nf=nf, wl=wl):
                        n = num(2) * (sym('nf') - ONE)
                        d = dict(Tx=h.arr('Tx', 'nf', 'N', dt='complex128'), cc=NONE, cw=NONE)
                        if k:
                            d.update(cc=h.arr('cc', 'N', k, dt='int64'), cw=h.arr('cw', 'N', k, dt='int64'))
                        d['window'] = NONE if w is None else K(w) if w != 'arr' else h.arr('window', sym('wl') if wl else n)
                        d['n_fft'] = Num(n, 'pyint') if nf else NONE
                        d['win_len'] = Num(sym('wl'), 'pyint') if wl else NONE
                        return d
                    out.append(Pair('issq_stft(window=%s%s%s%s)' % (w, ', n_fft' if nf else '', ', win_len' if wl else '', ', %d components' % k if k else ''), '_ssq_stft', 'issq_stft', args, 'issq_stft',
                                    args, models=dict(NODEN), pos=('wl',), ints=('wl', 'cc', 'cw'), lits=[num(2) * (sym('nf') - ONE) - sym('wl'), sym('nf') - num(2)] + curves(k)))
    return out


# ---------------------------------------------------------------- quadrature weight of the forward transform
def weight_rule(proj, rep):
    rep.rule('weight', 'the squeezed transform carries the quadrature weight its inverse relies on: d(scale)/scale, or the row spacing relative to the sampling rate')
    sc = c21.sc_ssqueeze('quick')
    global _J
    _J = (proj, sc)
    for (i,), res, err in scen.pmap(weight_job, list(range(len(sc)))):
        rep.count('calls interpreted')
        if res is None:
            rep.undecided('weight', sc[i].label, err)
            continue
        for k, con, why in res:
            {'eq': rep.good, 'ne': rep.violation, '?': rep.undecided}[k]('weight', con, *(() if k == 'eq' else (why,)))


def elem(t):
    """element ix(0) of a term handed to a kernel (an array, or one value for all rows)"""
    if isinstance(t, tuple) and t and t[0] == 'lam':
        return T.subst(t[2], lambda a: ix(a[1]) if a[0] == 'lx' else None)
    if isinstance(t, tuple) and t and t[0] == 'if':
        x, y = elem(t[2]), elem(t[3])
        return y if y is not None and x == y else None
    return t if isinstance(t, Poly) else None


def weight_job(i):
    proj, sc = _J
    s = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', s.label, r.why()[:200])]
    tr, kind = s.label.split('(')[1].split(', ')[0], s.label.split(', ')[2]
    sc0 = lambda k: A(('get', 'scales', k))
    want = {'log': T.div(A(('call', 'log', num(2))), sym('nv')), 'log-piecewise': T.div(A(('call', 'log', num(2))), A(('get', 'nv', ix(0)))),
            'linear': T.div(sc0(ONE) - sc0(ZERO), sc0(ix(0)))}[kind]
    if tr == 'stft':
        want = T.div(A(('get', 'ssq_freqs', ONE)) - A(('get', 'ssq_freqs', ZERO)), sym('fs'))
    out = []
    with h.ctx():
        v = refs.value(r, r.v, 0)
        if not isinstance(v, AV):
            return [('?', s.label, 'not an array')]
        ks = atoms_of(r.body(v), lambda a: a[0] == 'kern' and any('const' in p for p, _ in [x for x in a[3] if isinstance(x, tuple) and len(x) == 2]))
        if len(ks) != 1:
            return [('?', s.label, '%d squeezing kernels' % len(ks))]
        for p, t in c21.kernel_args(ks[0])[1].items():
            if 'const' in p:
                e = elem(t)
                if e is None:
                    out.append(('?', s.label, short(t, 200)))
                else:
                    k, why = same(e, want, h.facts, [ix(0), sym('na') - ONE - ix(0)])
                    out.append((k, s.label, why))
    return out


# ---------------------------------------------------------------- admissibility
ADM_SRC = """
import numpy as np
from ssqueezepy.wavelets import Wavelet
from ssqueezepy.utils.cwt_utils import integrate_analytic

def adm_ssq(wavelet):
    f = Wavelet._init_if_not_isinstance(wavelet).fn
    return integrate_analytic(lambda w: np.conj(f(w)) / w)

def adm_cwt(wavelet):
    f = Wavelet._init_if_not_isinstance(wavelet).fn
    return integrate_analytic(lambda w: np.conj(f(w)) * f(w) / w)
"""


def integral(I, st, d, node):
    f = I.simp(st, next(iter(d.values())))
    v = I.call(st, f, [Num(sym('omega'), 'float64')], {}, node)
    return Num(A(('call', 'integral', I.P(I.simp(st, v)) if not isinstance(v, AV) else I.abody(st, v))), 'float64')


def realpart(p):
    """the real part of an integral of a real function, wherever it is taken"""
    def f(a):
        if a[0] == 'phi':
            x, y = T.subst(a[2], f), T.subst(a[3], f)
            return x if x == y else None
        if a[0] == 'call' and a[1] == 'real' and isinstance(a[2], Poly):
            return T.subst(a[2], f)
        return None
    return T.subst(p, f)


def adm_pairs():
    out = []
    for fn in ('adm_ssq', 'adm_cwt'):
        for w in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat'):
            out.append(Pair('%s(%s)' % (fn, w), 'utils.cwt_utils', fn, lambda h, w=w: dict(wavelet=K(w)), fn, psi=None, pos=('omega',),
                            models={('utils.cwt_utils', 'integrate_analytic'): integral}, cut=realpart))
    return out


# ---------------------------------------------------------------- defaults
PAIRS = [('_cwt', 'cwt', '_cwt', 'icwt'), ('_stft', 'stft', '_stft', 'istft'), ('_ssq_cwt', 'ssq_cwt', '_ssq_cwt', 'issq_cwt'), ('_ssq_stft', 'ssq_stft', '_ssq_stft', 'issq_stft')]


def defaults(proj, mod, fn):
    import ast
    node = proj.func('ssqueezepy.' + mod, fn)
    node = getattr(node, 'node', node)
    a = node.args
    names = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in names[len(names) - len(a.defaults):]], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    out = {}
    for k, v in d.items():
        try:
            out[k] = ast.literal_eval(v)
        except Exception:
            out[k] = None if isinstance(v, ast.Constant) else ast.dump(v)
    return out


def default_rule(proj, rep):
    rep.rule('defaults', 'an option the forward and the inverse transform share has one default')
    for m1, f1, m2, f2 in PAIRS:
        try:
            a, b = defaults(proj, m1, f1), defaults(proj, m2, f2)
        except Exception as e:
            rep.undecided('defaults', '%s / %s' % (f1, f2), str(e))
            continue
        for k in a:
            # None: chosen from the arguments, which the other rules follow
            if k in b and a[k] is not None and b[k] is not None:
                con = '%s / %s: %s' % (f1, f2, k)
                if a[k] == b[k]:
                    rep.good('defaults', con)
                else:
                    rep.violation('defaults', con, 'default %r forward, %r inverse' % (a[k], b[k]), '%s.%s' % (m2, f2))
    # the FFT length the inverse assumes is the one the forward used
    for par, n in (('even', EVEN), ('odd', ODD)):
        con = 'stft / istft: n_fft left unset, %s default length' % par
        s = scen.Sc(con, '_stft', 'stft', lambda h: dict(x=h.arr('x', 'N'), dtype=K('float64')), models={**NODEN, ('_stft', 'get_window'): window_model}, pos=('half',), ints=('half',))
        h, r = scen.execute(proj, s)
        if not r.ok or len(WIN) == 0:
            rep.undecided('defaults', con, r.why())
            continue
        fwd = T.subst(T.subst(WIN[-1], lambda a: n if a == ('sym', 'N') else None), uncapped)
        s2 = scen.Sc(con, '_stft', 'istft', lambda h: dict(Sx=h.arr('Sx', 'rows', 'N', dt='complex128'), N=Num(sym('N'), 'pyint')), models={**NODEN, ('_stft', 'get_window'): window_model}, pos=('rows',), ints=('rows',))
        WIN.clear()
        h2, r2 = scen.execute(proj, s2)
        if len(WIN) == 0:
            rep.undecided('defaults', con, r2.why())
            continue
        inv = WIN[-1]
        WIN.clear()
        # rows of the forward transform with n samples per frame: n//2 + 1
        m = h.I.lib
        with h.ctx():
            rows = m.floordiv(fwd, num(2)) + ONE
            got = T.subst(inv, lambda a: rows if a == ('sym', 'rows') else None)
            k, why = same(got, fwd, h.facts)
        if k == 'eq':
            rep.good('defaults', con)
        elif k == 'ne':
            rep.violation('defaults', con, 'frames of %s samples are inverted as frames of %s' % (short(fwd), short(got)), '_stft.istft')
        else:
            rep.undecided('defaults', con, why)


WIN = []


def uncapped(a):
    """min(n, constant): the case n"""
    if a[0] == 'min':
        xs = [x for x in a[1] if x.const() is None]
        if len(xs) == 1:
            return xs[0]
    return None


def window_model(I, st, d, node):
    """a window of the FFT length asked for"""
    n = I.simp(st, d.get('n_fft'))
    if not isinstance(n, (K, Num)):
        raise Unsup('window length')
    n = I.P(n)
    WIN.append(n)
    w = I.newarr(st, (n,), A(('get', 'window', ix(0))), 'float64')
    x = d.get('derivative')
    if x is not None and I.simp(st, x) == K(True):
        return Tup([w, I.newarr(st, (n,), A(('get', 'dwindow', ix(0))), 'float64')])
    return w


_J = None


def run(proj, rep):
    rep.rule('inverse', 'an inverse transform is the inversion formula, each factor once')
    try:
        nv = int(defaults(proj, '_cwt', 'cwt')['nv'])
    except Exception:
        nv = 32
    refs.run_pairs(proj, rep, 'inverse', icwt_pairs(rep.tier) + ssq_pairs(rep.tier), SRC.replace('nv = 32', 'nv = %d' % nv))
    refs.run_pairs(proj, rep, 'inverse', [p for p in c14.frame_pairs(rep.tier) if p.fn in ('istft', 'window_norm', 'unbuffer')], c14.SRC)
    rep.rule('admissibility', 'the admissibility constants are the integrals of the formula')
    refs.run_pairs(proj, rep, 'admissibility', adm_pairs(), ADM_SRC)
    weight_rule(proj, rep)
    default_rule(proj, rep)
