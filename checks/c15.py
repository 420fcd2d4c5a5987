"""C15: results have the precision that was asked for."""
from checks.hutil import *
from checks import c21, scen
from ssqlint import terms as T

TECHNIQUE = 'abstract interpretation of the public functions with numpy dtype promotion rules; dtype of every returned array compared with the one asked for'
EXPLANATION = ('Each transform is interpreted for single and double precision input and single and double precision wavelet (or `dtype`), on CPU and GPU, for every route and return option. The interpreter '
               'carries the dtype of every array through NumPy / PyTorch promotion, kernels and FFTs; the dtype of each returned array is compared with the one asked for. Machine epsilons that end up in thresholds '
               'are compared with that precision too, and so are samples of every wavelet.')
ASSUMPTIONS = ['promotion rules of NumPy 2 (weak Python scalars)', 'FFTs keep the precision of their input']
COMPLEX = {'X', 'dX', 'T'}
NAMES = {'X': 'transform', 'dX': 'derivative', 'T': 'synchrosqueezed transform', 'f': 'ssq_freqs', 'Sfs': 'Sfs', 'w': 'phase transform', 's': 'scales'}


def variant(s, xdt, prec):
    a0 = s.args
    gpu = s.kw.get('gpu')

    def args(h):
        d = a0(h)
        x = d['x']
        sh = h_shape(h, x)
        d['x'] = h.arr('x', *sh, dt=xdt, lib='t' if gpu else 'np')
        if s.fn in ('stft', 'ssq_stft'):
            d['dtype'] = K(prec)
        return d
    kw = dict(s.kw)
    if s.fn in ('cwt', 'ssq_cwt', 'cwt_higher_order'):
        kw['psi'] = prec
    q = scen.Sc('%s [x %s, %s]' % (s.label, xdt, prec), s.mod, s.fn, args, **kw)
    q.want, q.prec = s.want, prec
    return q


def h_shape(h, x):
    return x.sh if x.sh is not None else h.st.heap[x.h].sh


def scens(tier):
    out = []
    for s in c21.sc_cwt(tier) + c21.sc_ssq_cwt(tier) + c21.sc_stft(tier):
        if 'dtype=' in s.label:
            continue
        l2 = 'l1_norm=False' in s.label
        for xdt in ('float32', 'float64'):
            for prec in ('float32', 'float64'):
                q = variant(s, xdt, prec)
                if l2:
                    q.prec = 'float64'
                out.append(q)
    out += alone(tier)
    return out


def alone(tier):
    """building blocks called with a transform of either precision"""
    out = []

    def add(label, mod, fn, want, args, **kw):
        for prec, c in (('float32', 'complex64'), ('float64', 'complex128')):
            s = scen.Sc('%s [%s]' % (label, c), mod, fn, lambda h, c=c, prec=prec: {k: v(h, c, prec) if callable(v) else scen.val(h, v) for k, v in args.items()}, **kw)
            s.want, s.prec = want, prec
            out.append(s)
    W = lambda n, *d: lambda h, c, p: h.arr(n, *(d or ('na', 'N')), dt=c)
    R = lambda n, *d: lambda h, c, p: h.arr(n, *d, dt=p)
    for gpu in (False, True):
        if gpu:
            W = lambda n, *d: lambda h, c, p: h.arr(n, *(d or ('na', 'N')), dt=c, lib='t')
            R = lambda n, *d: lambda h, c, p: h.arr(n, *d, dt=p, lib='t')
        g = ', GPU' if gpu else ''
        add('phase_cwt(trig%s)' % g, '_ssq_cwt', 'phase_cwt', ['w'], dict(Wx=W('Wx'), dWx=W('dWx')), gpu=gpu)
        add('phase_stft(%s)' % g, '_ssq_stft', 'phase_stft', ['w'], dict(Sx=W('Sx'), dSx=W('dSx'), Sfs=R('Sfs', 'na')), gpu=gpu)
        for tr, kinds in (('cwt', ('linear', 'log', 'log-piecewise')), ('stft', ('linear',))):
            for kind in kinds:
                for two in (False, True):
                    for sq in ('sum', 'lebesgue'):
                        a = dict(Wx=W('W'), ssq_freqs=R('ssq_freqs', 'na'), transform=tr, gamma=lambda h, c, p: h.num('gamma', 'pyfloat'), squeezing=sq)
                        if tr == 'cwt':
                            a['scales'] = R('scales', 'na')
                        elif not two:
                            a['Sfs'] = R('Sfs', 'na')
                        a.update({'w': R('w', 'na', 'N')} if two else {'dWx': W('dW')})
                        add('ssqueeze(%s, %s, %s, %s%s)' % (tr, kind, 'two-step' if two else 'one-step', sq, g), 'ssqueezing', 'ssqueeze', ['T', 'f'], a, kind=kind, gpu=gpu)
    W = lambda n, *d: lambda h, c, p: h.arr(n, *(d or ('na', 'N')), dt=c)
    R = lambda n, *d: lambda h, c, p: h.arr(n, *d, dt=p)
    for o in (1, 2, 4):
        add('phase_cwt_num(difforder=%d)' % o, '_ssq_cwt', 'phase_cwt_num', ['w'], dict(Wx=W('Wx'), dt=lambda h, c, p: h.num('dt', 'pyfloat'), difforder=o))
    add('phase_cwt(phase)', '_ssq_cwt', 'phase_cwt', ['w'], dict(Wx=W('Wx'), dWx=lambda h, c, p: NONE, difftype='phase'))
    for rp in (False, True):
        add('trigdiff(rpadded=%s)' % rp, 'utils.common', 'trigdiff', ['dX'], dict(A=W('A'), rpadded=rp, N=lambda h, c, p: Num(sym('N'), 'pyint')))
    return out


_J = None


def job(i):
    proj, sc = _J
    s = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', '', r.why()[:200])]
    out = []
    with h.ctx():
        its = r.items()
        if len(its) != len(s.want):
            return [('?', '', '%d items' % len(its))]
        for v, kind in zip(its, s.want):
            v = r.I.simp(r.st, v)
            want = s.prec if kind not in COMPLEX else {'float32': 'complex64', 'float64': 'complex128'}[s.prec]
            for q in leaves(r, v):
                if not isinstance(q, AV):
                    out.append(('?', kind, 'a %s' % type(q).__name__))
                    continue
                dt = r.dt(q)
                if kind in ('f', 's') and dt == 'float64':
                    dt = want
                out.append(eps_of(r, q, kind, s.prec))
                out.append(('?' if dt is None else 'eq' if dt == want else 'ne', kind, '%s instead of %s' % (dt, want)))
    return out


def eps_of(r, v, kind, prec):
    """machine epsilons in thresholds (floors of grids aside)"""
    p = T.subst(r.body(v), lambda a: ZERO if a[0] == 'max' else None)
    for b in atoms_of(p, lambda b: b[:2] in (('call', 'eps'), ('call', 'tiny'))):
        d = [q for q in ('float32', 'float64') if q in repr(b)]
        if d and d != [prec]:
            return 'ne', kind, 'a threshold uses the machine constant %s' % (b[1:],)
    return 'eq', kind, ''


WANT = {'float32': ('float32', 'complex64'), 'float64': ('float64', 'complex128')}


def wave_job(i):
    proj, sc = _J
    s = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', 'samples', r.why()[:200])]
    prec = 'float64' if 'float64' in s.label else 'float32'
    if 'norm=energy' in s.label:
        prec = 'float64'
    out = []
    with h.ctx():
        for q in leaves(r, r.v):
            if isinstance(q, AV):
                dt = r.dt(q)
                out.append(('?' if dt is None else 'eq' if dt in WANT[prec] else 'ne', 'samples', '%s for a wavelet in %s' % (dt, prec)))
    return out


def leaves(r, v):
    v = r.I.simp(r.st, v)
    return leaves(r, v.a) + leaves(r, v.b) if isinstance(v, Phi) else [v]


def run(proj, rep):
    rep.rule('dtype', 'every returned array has the precision asked for')
    rep.rule('wavelet', 'samples of a wavelet have the precision of the wavelet')
    go(proj, rep, 'dtype', scens(rep.tier), job)
    go(proj, rep, 'wavelet', [s for s in scen.wavelet_scens(rep.tier) if ').' in s.label and s.label.split('(')[0] == 'Wavelet' and '.spec' not in s.label or '(w ' in s.label], wave_job)


def go(proj, rep, rule, sc, f):
    global _J
    _J = (proj, sc)
    for (i,), res, err in scen.pmap(f, list(range(len(sc)))):
        s = sc[i]
        rep.count('calls interpreted')
        if res is None:
            rep.undecided(rule, s.label, err)
            continue
        for k, kind, why in res:
            con = '%s: %s' % (s.label, NAMES.get(kind, kind))
            if k == 'eq':
                rep.good(rule, con)
            elif k == 'ne':
                rep.violation(rule, con, why, '%s.%s' % (s.mod, s.fn))
            else:
                rep.undecided(rule, con, why)
