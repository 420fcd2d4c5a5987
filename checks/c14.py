"""C14: padding, framing and trimming keep time alignment."""
from checks.hutil import *
from checks.hutil import H
from checks import c05, scen, refs
from checks.refs import Pair
from checks.scen import Sc
from ssqlint import terms as T
from ssqlint.host import HV

TECHNIQUE = 'abstract interpretation over symbolic lengths; index maps of padding, trimming and FFT round trips compared with the identity, framing and overlap-add compared with reference code interpreted by the same engine'
EXPLANATION = ('Signal length, FFT length, hop, pad lengths and all indices are symbols. For each padding mode the padded signal at the reported offset is compared with the input; '
               'through each forward/inverse FFT pair of the wavelet transforms the index of the input sample is followed to the output column; framing, its inverse and the '
               'window norm are compared element by element with reference code; lengths of all returned arrays are compared with the documented ones.')
ASSUMPTIONS = ['n_fft >= 1, hop_len >= 1, signal at least one sample long', 'np.pad, torch pad and FFT routines do what their documentation says',
               'the STFT signal is at least as long as the reflected margin, as np.pad requires nothing else']

MODES = {'zero': None, 'reflect': 'reflect', 'symmetric': 'symmetric', 'replicate': 'edge', 'wrap': 'wrap'}
# an FFT length by parity: half >= 1
EVEN, ODD = num(2) * sym('half'), num(2) * sym('half') + ONE
PL = sym('pl')
HK = dict(pos=('half',), ints=('half',))
SRC = '''
import numpy as np
from numpy.fft import rfft, irfft, fftshift, ifftshift

def pad(x, left, right, mode):
    w = (left, right) if x.ndim == 1 else [(0, 0), (left, right)]
    if mode is None:
        return np.pad(x, w)
    return np.pad(x, w, mode=mode)

def frames(x, seg_len, n_overlap, modulated=False):
    hop = seg_len - n_overlap
    n = (x.shape[-1] - seg_len)//hop + 1
    idx = np.arange(seg_len)[:, None] + hop*np.arange(n)[None]
    out = x[idx] if x.ndim == 1 else x[:, idx]
    return ifftshift(out, axes=-2) if modulated else out

def stft(x, window, n_fft, hop_len, mode, modulated=True):
    # frame j is centered at sample hop_len*j: sample hop_len*j meets window[n_fft//2]
    N = x.shape[-1]
    xp = pad(x, n_fft//2, n_fft - 1 - n_fft//2, mode)
    n = (N - 1)//hop_len + 1
    idx = np.arange(n_fft)[:, None] + hop_len*np.arange(n)[None]
    out = (xp[idx] if x.ndim == 1 else xp[:, idx]) * window[:, None]
    if modulated:
        out = ifftshift(out, axes=-2)
    return rfft(out, axis=-2)

def unbuffer(xbuf, window, hop_len, n_fft, N, win_exp=1):
    out = np.zeros(N + n_fft - 1)
    w = 1 if win_exp == 0 else window**win_exp
    for j in range(xbuf.shape[1]):
        out[j*hop_len:j*hop_len + n_fft] += xbuf[:, j]*w
    return out

def window_norm(window, hop_len, n_fft, N, win_exp=1):
    out = np.zeros(N + n_fft - 1)
    for j in range((N - 1)//hop_len + 1):
        out[j*hop_len:j*hop_len + n_fft] += window**(win_exp + 1)
    return out

def istft(Sx, window, n_fft, hop_len, N, modulated=True, win_exp=1):
    xb = irfft(Sx, n=n_fft, axis=0)
    if modulated:
        xb = fftshift(xb, axes=0)
    x = unbuffer(xb, window, hop_len, n_fft, N, win_exp)
    x = x / window_norm(window, hop_len, n_fft, N, win_exp)
    return x[n_fft//2:n_fft//2 + N]

def center(window, n, left):
    out = np.zeros(n)
    out[left:left + len(window)] = window
    return out

def trim(x, N, n1):
    return x[..., n1:n1 + N]
'''
NODEN = {('algos', 'zero_denormals'): const_model(NONE), ('_stft', '_check_NOLA'): const_model(NONE)}


def n_(h, s):
    return h.num(s, 'pyint')


# ---------------------------------------------------------------- pad geometry
def p2up_rule(proj, rep):
    rep.rule('p2up', 'the next-power-of-2 length is left pad + signal + right pad')
    s = Sc('p2up', 'utils.common', 'p2up', lambda h: dict(n=n_(h, 'N')), models={('utils.common', 'p2up'): None})
    h, r = scen.execute(proj, s)
    if not r.ok:
        rep.undecided('p2up', 'p2up', r.why())
        return
    its = r.items()
    with h.ctx():
        try:
            up, n1, n2 = [r.I.P(r.I.simp(r.st, i)) for i in its]
        except Exception as e:
            rep.undecided('p2up', 'p2up', str(e))
            return
        k, why = same(up, n1 + n2 + sym('N'), h.facts)
        verdict(rep, 'p2up', 'p2up: n_up == n1 + n + n2', k, why, 'utils.common.p2up')


def verdict(rep, rule, con, k, why, where):
    if k == 'eq':
        rep.good(rule, con)
    elif k == 'ne':
        rep.violation(rule, con, why, where)
    else:
        rep.undecided(rule, con, why)


def pad_scens():
    out = []
    for mode in MODES:
        for dims in (('N',), ('B', 'N')):
            for pl in (False, True):
                for gpu in (False, True):
                    if gpu and mode not in ('zero', 'reflect'):
                        continue
                    for real in (False, True):
                        if real and pl:
                            continue
                        lbl = 'padsignal(%d-D, %s%s%s%s)' % (len(dims), mode, ', padlength' if pl else '', ', tensor' if gpu else '', ', its own lengths' if real else '')

                        def args(h, mode=mode, dims=dims, pl=pl, gpu=gpu):
                            d = dict(x=h.arr('x', *dims, lib='t' if gpu else 'np'), padtype=K(mode), get_params=K(True))
                            if pl:
                                d['padlength'] = Num(sym('N') + sym('extra'), 'pyint')
                            return d
                        m = {('utils.common', 'p2up'): None} if real else {}
                        out.append((Sc(lbl, 'utils.common', 'padsignal', args, ints=('extra',), nonneg=('extra',), models=m), mode, len(dims), gpu))
    return out


def pad_job(i):
    proj, scens = _J
    s, mode, nd, gpu = scens[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', 'pad', '', r.why()[:200])]
    out = []
    with h.ctx():
        its = [r.I.simp(r.st, v) for v in r.items()]
        if len(its) != 4 or not isinstance(its[0], AV):
            return [('?', 'pad', '', 'does not return the padded signal and three lengths')]
        N = sym('N')
        try:
            up, n1, n2 = [r.I.P(v) for v in its[1:]]
        except Exception as e:
            return [('?', 'pad', '', str(e))]
        sh, body = r.sh(its[0]), r.body(its[0])
        for con, p, q in (('returned lengths add up', up, n1 + n2 + N), ('length of the padded signal', sh[-1], up)):
            k, why = same(p, q, h.facts)
            out.append((k, 'pad', con, why))
        k = nd - 1
        x = A(('get', 'x') + tuple(ix(q) for q in range(nd)))
        lits = [ix(k), N - ONE - ix(k)] + ([ix(0), sym('B') - ONE - ix(0)] if nd == 2 else []) + ([n1, n2] if 'p2up' not in repr(n1) else [])
        got = at(body, {k: ix(k) + n1})
        v, why = same(got, x, h.facts, lits)
        out.append((v, 'pad', 'sample i of the signal is sample n1 + i of the padded one', why))
        # outside
        for side, e, ll in (('before', -ONE - ix(k), [ix(k), n1 - ONE - ix(k)]), ('after', N + ix(k), [ix(k), n2 - ONE - ix(k)])):
            got = simplify(at(body, {k: n1 + e}), h.facts, ll)
            want = MODES[mode]
            at_ = atoms_of(got, lambda a: a[0] == 'call' and len(a) > 1 and a[1] == 'padidx')
            if mode == 'zero':
                v, why = same(got, ZERO, h.facts, ll)
                out.append((v, 'mode', side, why))
            elif len(at_) == 1 and at_[0][2][0] == 'k':
                m = at_[0][2][1].strip("'")
                pos = at_[0][4]
                w = same(pos, e, h.facts, ll)
                if m != want:
                    out.append(('ne', 'mode', side, 'pads by %s' % m))
                else:
                    out.append((w[0], 'mode', side, w[1]))
            else:
                out.append(('?', 'mode', side, short(got, 150)))
    return out


# ---------------------------------------------------------------- FFT round trips
def bound(body):
    """the variable a transform sums over: the outermost bound one of its body"""
    m = [-1]

    def v(a):
        if a[0] == 'bv' and a[1] > m[0]:
            m[0] = a[1]
    T.walk(body, v)
    return ('bv', m[0]) if m[0] >= 0 else None


def top_fft(p, kind):
    """outermost FFT atoms of the kind"""
    out = []

    def f(a):
        if a[0] == 'fft':
            if a[1] == kind and a not in out:
                out.append(a)
            return A(('call', 'seen'))
        return None
    T.subst(p, f)
    return out


class Lost(Exception):
    pass


def inputs(p):
    """the time-domain terms an inverse transform of spectra depends on, each at the time the output is at"""
    inv = top_fft(p, 'ifft')
    if not inv:
        if top_fft(p, 'fft'):
            raise Lost('a forward transform without an inverse')
        return [p]
    out = []
    for a in inv:
        _, _, n, body, e = a[:5]
        v = bound(body)
        fw = top_fft(body, 'fft')
        if not fw:
            raise Lost('an inverse transform of something that is not a spectrum')
        for g in fw:
            if g[4] != A(v):
                raise Lost('spectrum read at %s, not at the bin of the inverse' % short(g[4], 60))
            if g[2] != n:
                return [('len', g[2], n)]
            v2 = bound(g[3])
            if v2 is None:
                raise Lost('a forward transform of a constant')
            out += inputs(T.subst(g[3], lambda t: e if t == v2 else None))
    return out


def align_scens(tier):
    out = []
    N1 = lambda h: h.arr('x', 'N', dt='float32')
    N2 = lambda h: h.arr('x', 'B', 'N', dt='float32')
    for o in [dict(), dict(padtype='zero'), dict(padtype='symmetric'), dict(padtype='replicate'), dict(padtype='wrap'), dict(padtype=None), dict(vectorized=False),
              dict(vectorized=False, padtype='wrap'), dict(vectorized=False, padtype=None), dict(l1_norm=False), dict(rpadded=True), dict(rpadded=True, vectorized=False), dict(order=1),
              dict(order=(0, 1)), dict(order=1, padtype=None), dict(rpadded=True, order=1), dict(rpadded=True, padtype=None)]:
        for der in (False, True):
            for nd, x in ((1, N1), (2, N2)):
                for gpu in (False, True) if 'order' not in o and o.get('padtype') in (None, 'reflect') or not o else (False,):
                    xx = (lambda h, nd=nd: h.arr('x', *(('B', 'N') if nd == 2 else ('N',)), dt='float32', lib='t')) if gpu else x
                    lbl = 'cwt(%d-D%s%s%s)' % (nd, ''.join(', %s=%s' % kv for kv in o.items()), ', derivative' if der else '', ', GPU' if gpu else '')

                    def args(h, x=xx, o=o, der=der, gpu=gpu):
                        d = dict(x=x(h), scales=K('log'), derivative=K(der))
                        if not gpu:
                            d['nan_checks'] = K(False)
                        d.update({k: scen.val(h, v) for k, v in o.items()})
                        return d
                    off = (ZERO, sym('n1') + sym('n2') + sym('N')) if o.get('rpadded') and 'padtype' not in o else (ZERO, sym('N'))
                    out.append((Sc(lbl, '_cwt', 'cwt', args, gpu=gpu), 'cwt', {0: 'Wx', 2: 'dWx'} if der else {0: 'Wx'}, nd, o))
    for o in [dict(), dict(padtype='zero'), dict(padtype='wrap'), dict(padtype=None), dict(vectorized=False), dict(order=1), dict(order=(0, 1)), dict(order=1, padtype=None),
              dict(order=1, padtype='symmetric'), dict(difftype='numeric'), dict(difftype='numeric', padtype=None), dict(difftype='phase'), dict(difftype='numeric', difforder=2),
              dict(difftype='numeric', order=1), dict(difftype='phase', padtype='wrap'), dict(preserve_transform=True), dict(preserve_transform=False), dict(squeezing='lebesgue')]:
        for nd, x in ((1, N1), (2, N2)):
            for gw in (False, True):
                if gw and nd == 2 or 'difftype' in o and (not gw or nd == 2):
                    continue
                for gpu in (False, True) if not o or o.get('preserve_transform') is not None else (False,):
                    xx = (lambda h, nd=nd: h.arr('x', *(('B', 'N') if nd == 2 else ('N',)), dt='float32', lib='t')) if gpu else x
                    lbl = 'ssq_cwt(%d-D%s%s%s)' % (nd, ''.join(', %s=%s' % kv for kv in o.items()), ', get_w' if gw else '', ', GPU' if gpu else '')

                    def args(h, x=xx, o=o, gw=gw, gpu=gpu):
                        d = dict(x=x(h), scales=K('log'), get_dWx=K(True), get_w=K(gw))
                        if not gpu:
                            d['nan_checks'] = K(False)
                        d.update({k: scen.val(h, v) for k, v in o.items()})
                        return d
                    names = {0: 'Tx', 1: 'Wx', 4: 'w', 5: 'dWx'} if gw else {0: 'Tx', 1: 'Wx', 4: 'dWx'}
                    out.append((Sc(lbl, '_ssq_cwt', 'ssq_cwt', args, gpu=gpu, pos=('n1',)), 'ssq_cwt', names, nd, o))
    for o in [dict(), dict(padtype='wrap'), dict(rpadded=True), dict(padtype='zero', give='N')]:
        for nd in (2, 3):
            lbl = 'trigdiff(%d-D%s)' % (nd, ''.join(', %s=%s' % kv for kv in o.items()))
            if nd == 3 and not o.get('rpadded'):
                continue

            def args(h, o=o, nd=nd):
                n = sym('N') + (sym('n1') + sym('n2') if o.get('rpadded') else ZERO)
                d = dict(A=h.arr('x', *(('B',) if nd == 3 else ()), 'na', n, dt='complex64'))
                if o.get('rpadded') or 'give' in o:
                    d['N'] = n_(h, 'N')
                d.update({k: scen.val(h, v) for k, v in o.items() if k != 'give'})
                return d
            out.append((Sc(lbl, 'utils.common', 'trigdiff', args), 'trigdiff', {None: 'derivative'}, nd, o))
    return out


def align_job(i):
    proj, scens = _J
    s, kind, names, nd, o = scens[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', 'length', '', r.why()[:200])]
    out = []
    N = sym('N')
    with h.ctx():
        for k, nm in names.items():
            v = refs.value(r, r.v, k)
            if not isinstance(v, AV):
                out.append(('?', 'length', nm, 'not an array (%s)' % type(v).__name__))
                continue
            sh = r.sh(v)
            padded = bool(o.get('rpadded')) and kind == 'cwt' and o.get('padtype', 'reflect') is not None
            want = N + sym('n1') + sym('n2') if padded else N
            w = same(sh[-1], want, h.facts)
            out.append((w[0], 'length', nm, w[1]))
            if w[0] != 'eq' or nm in ('Tx', 'w') or (nm == 'dWx' and o.get('difftype') in ('numeric', 'phase')):
                continue
            last = len(sh) - 1
            rows = nd - (0 if kind != 'trigdiff' else 1)
            j = ix(last)
            p = r.body(v)
            # the sample the column stands for
            t = j - sym('n1') if padded else j + sym('n1') if kind == 'trigdiff' and o.get('rpadded') else j
            lits = [x for q in range(last) for x in (ix(q), sh[q] - ONE - ix(q))]
            lits += [j - sym('n1'), sym('n1') + N - ONE - j] if padded else [j, N - ONE - j]
            lits += [sym('n1'), sym('n2')]
            try:
                got = inputs(p)
            except Lost as e:
                out.append(('?', 'align', nm, str(e)))
                continue
            if not got:
                out.append(('?', 'align', nm, 'no FFT round trip found'))
            for g in got:
                if isinstance(g, tuple):
                    w = same(g[1], g[2], h.facts)
                    out.append(('ne' if w[0] == 'ne' else '?', 'align', nm, 'forward transform of length %s, inverse of length %s' % (short(g[1], 60), short(g[2], 60))))
                    continue
                g = simplify(g, h.facts, lits)
                reads = atoms_of(g, lambda a: a[0] == 'get' and a[1] == 'x')
                if len(reads) != 1 or atoms_of(g, lambda a: a[0] == 'phi'):
                    w = same(g, A(('get', 'x') + tuple(([ix(0)] if nd == 2 else []) if kind != 'trigdiff' else [ix(q) for q in range(last)]) + (t,)), h.facts, lits)
                    out.append((w[0], 'align', nm, w[1]))
                    continue
                w = same(reads[0][-1], t, h.facts, lits)
                out.append((w[0], 'align', nm, 'column j is computed around sample %s' % short(reads[0][-1], 80) if w[0] == 'ne' else w[1]))
    seen = []
    for q in out:
        if q not in seen:
            seen.append(q)
    return seen


# ---------------------------------------------------------------- framing
def frame_pairs(tier):
    out = []
    pos = ('nf', 'hop')
    for nd in (1, 2):
        dims = ('N',) if nd == 1 else ('B', 'N')
        for par in (None, False, True):
            for mod in (False, True):
                def args(h, dims=dims, mod=mod, par=par):
                    d = dict(x=h.arr('x', *dims), seg_len=n_(h, 'nf'), n_overlap=Num(sym('nf') - sym('hop'), 'pyint'), modulated=K(mod))
                    if par is not None:
                        d['parallel'] = K(par)
                    return d

                def ra(h, args=args):
                    d = args(h)
                    d.pop('parallel', None)
                    return d
                out.append(Pair('buffer(%d-D, modulated=%s%s)' % (nd, mod, '' if par is None else ', parallel=%s' % par), 'utils.stft_utils', 'buffer', args, 'frames', ra,
                                lits=[sym('N') - sym('nf'), sym('hop') - ONE]))
        for mode in MODES:
            for mod, half in ((False, None), (True, EVEN), (True, ODD)):
                nf = half or sym('nf')

                def a2(h, dims=dims, mod=mod, mode=mode, nf=nf):
                    return dict(x=h.arr('x', *dims, dt='float64'), window=h.arr('window', nf), n_fft=Num(nf, 'pyint'), hop_len=n_(h, 'hop'), mode=scen.val(h, MODES[mode]), modulated=K(mod))

                def a1(h, a2=a2, mode=mode):
                    d = a2(h)
                    d.pop('mode')
                    return dict(d, padtype=K(mode), dtype=K('float64'))
                out.append(Pair('stft(%d-D, %s, modulated=%s%s)' % (nd, mode, mod, '' if not mod else ', even n_fft' if half is EVEN else ', odd n_fft'), '_stft', 'stft', a1, 'stft', a2,
                                models=dict(NODEN), lits=[sym('N') - ONE, A(('bv', 0)), nf - ONE - A(('bv', 0))], **(HK if half else {})))
    for we in (0, 1, 2):
        def a(h, we=we):
            return dict(xbuf=h.arr('xbuf', 'nf', 'hops'), window=h.arr('window', 'nf'), hop_len=n_(h, 'hop'), n_fft=n_(h, 'nf'), N=n_(h, 'N'), win_exp=K(we))

        def a2(h, we=we):
            return dict(window=h.arr('window', 'nf'), hop_len=n_(h, 'hop'), n_fft=n_(h, 'nf'), N=n_(h, 'N'), win_exp=K(we))
        lits = [sym('N') - ONE, sym('hop') - ONE, sym('nf') - ONE, sym('N') - ONE - (sym('hops') - ONE) * sym('hop')]
        out.append(Pair('unbuffer(win_exp=%d)' % we, 'utils.stft_utils', 'unbuffer', a, 'unbuffer', a, pos=('hops',), ints=('hops',), lits=lits))
        out.append(Pair('window_norm(win_exp=%d)' % we, 'utils.stft_utils', 'window_norm', a2, 'window_norm', a2, lits=lits))
        for mod in (False, True):
            def ai(h, we=we, mod=mod):
                return dict(Sx=h.arr('Sx', 'rows', 'hops', dt='complex128'), window=h.arr('window', 'nf'), n_fft=n_(h, 'nf'), hop_len=n_(h, 'hop'), N=n_(h, 'N'), modulated=K(mod), win_exp=K(we))
            out.append(Pair('istft(win_exp=%d, modulated=%s)' % (we, mod), '_stft', 'istft', ai, 'istft', ai, models=dict(NODEN), pos=('hops', 'rows'), ints=('hops', 'rows'), lits=lits,
                            cut=plain))
    for la, lb, a_, nf in (('even', 'even', EVEN, EVEN + num(2) * PL), ('odd', 'odd', ODD, ODD + num(2) * PL), ('even', 'odd', EVEN, EVEN + num(2) * PL + ONE)):
        def aw(h, a_=a_, nf=nf):
            return dict(window=h.arr('window', a_), win_len=Num(a_, 'pyint'), n_fft=Num(nf, 'pyint'), dtype=K('float64'))

        def rw(h, a_=a_, nf=nf):
            return dict(window=h.arr('window', a_), n=Num(nf, 'pyint'), left=Num(PL, 'pyint'))
        out.append(Pair('get_window(%s win_len, %s n_fft)' % (la, lb), '_stft', 'get_window', aw, 'center', rw, models=dict(NODEN), pos=('half', 'pl'), ints=('half', 'pl')))
    return out


def plain(p):
    """the value where the window norm is nowhere negligible"""
    def f(a):
        if a[0] == 'phi':
            m1, m2 = [bool(atoms_of(q, lambda t: t[0] == 'call' and t[1] in ('masked', 'scatter'))) for q in a[2:4]]
            if m1 != m2:
                return T.subst(a[3] if m1 else a[2], f)
        return None
    return T.subst(p, f)


_J = None


def run(proj, rep):
    global _J
    p2up_rule(proj, rep)
    rep.rule('pad', 'the padded signal holds the input at the reported offset, has the reported length, and the lengths add up')
    rep.rule('mode', 'the margin is filled by the requested scheme')
    sc = pad_scens()
    _J = (proj, sc)
    emit(rep, scen.pmap(pad_job, list(range(len(sc)))), [s[0] for s in sc], 'pad')
    rep.rule('length', 'transforms have one column per sample')
    rep.rule('align', 'column j of a transform is computed around input sample j')
    sc = align_scens(rep.tier)
    _J = (proj, sc)
    emit(rep, scen.pmap(align_job, list(range(len(sc)))), [s[0] for s in sc], 'length')
    rep.rule('frame', 'framing, overlap-add and window norm address the samples of the reference, frame j centered at sample hop*j')
    c05.spec_roles(proj, rep, ['buffer', 'overlap_add', 'window_norm'], 'frame')
    refs.run_pairs(proj, rep, 'frame', frame_pairs(rep.tier), SRC)
    from checks import host_c14
    host_c14.run(proj, rep)


def emit(rep, results, scs, dflt):
    for (i,), res, err in results:
        s = scs[i]
        rep.count('calls interpreted')
        if res is None:
            rep.undecided(dflt, s.label, err)
            continue
        for k, rule, con, why in res:
            c = s.label + (': ' + con if con else '')
            verdict(rep, rule, c, k, why, '%s.%s' % (s.mod, s.fn))
