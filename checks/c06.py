"""C06: returned frequencies label the rows of the synchrosqueezed transform."""
import itertools
from checks.hutil import *
from ssqlint import terms as T

TECHNIQUE = 'abstract interpretation of the whole call; the returned frequency term is matched against the grid the reassignment routine is given'
EXPLANATION = ('ssqueeze, ssq_cwt and ssq_stft are interpreted symbolically for every transform x orientation x grid kind '
               '(given, linear, log, log-piecewise) x one-/two-step x 1-D/batched x CPU/GPU. The reassignment routine reached is '
               'told a grid (origin, step, transition) and an orientation; the row it fills for grid position k is k or last-k. '
               'The returned frequencies R must satisfy, as terms: R[row(0)] = origin, R[row(1)] - R[row(0)] = step (log2 '
               'of it on log grids), and for piecewise grids the same at the transition; R has one entry per row.')
ASSUMPTIONS = ['a given grid is spaced as its inferred scale type says (C05/C32 domain)', 'C05: the routine fills the row of the nearest grid position']

GRID_LIN = ('vmin', 'dv')
LOG2 = ONE


def l2(p):
    return T.A(('call', 'log', p)) * T.power(T.A(('call', 'log', num(2))), -1) if not isinstance(p, Poly) else _log2(p)


def _log2(p):
    return H_LOG(p)


H_LOG = None


def run(proj, rep):
    rep.rule('labels', 'R[row(k)] is grid position k of the routine that filled the rows')
    rep.rule('count', 'one frequency per row')
    cfgs = []
    for tr, kind, flip, step, nd, gpu in itertools.product(('cwt', 'stft'), ('linear', 'log', 'log-piecewise'), (False, True),
                                                         (1, 2), (2, 3), (False, True)):
        if tr == 'stft' and kind != 'linear':
            continue
        cfgs.append((tr, kind, flip, step, nd, gpu))
    for c in cfgs:
        name = 'ssqueeze(%s, %s grid, flipud=%s, %s, ndim=%d, %s)' % (c[0], c[1], c[2], 'one-step' if c[3] == 1 else 'two-step', c[4], 'GPU' if c[5] else 'CPU')
        rep.guard('labels', name, direct, proj, rep, name, *c)
    for kind, flip, freqs, mr, gpu in itertools.product(('linear', 'log', 'log-piecewise'), (False, True),
                                                        (None, 'same', 'linear', 'log', 'array'), ('peak', 'maximal', 'tuple'), (False, True)):
        if gpu and (freqs != None or mr != 'peak'):
            continue
        if freqs == 'array' and mr != 'peak':
            continue
        name = 'ssq_cwt(%s scales, flipud=%s, ssq_freqs=%s, maprange=%s%s)' % (kind, flip, freqs, mr, ', GPU' if gpu else '')
        rep.guard('labels', name, full_cwt, proj, rep, name, kind, flip, freqs, mr, gpu)
    for flip, given, gpu in itertools.product((False, True), (False, True), (False, True)):
        name = 'ssq_stft(flipud=%s, ssq_freqs=%s%s)' % (flip, 'given' if given else None, ', GPU' if gpu else '')
        rep.guard('labels', name, full_stft, proj, rep, name, flip, given, gpu)


def direct(proj, rep, name, tr, kind, flip, step, nd, gpu):
    h = H(proj, kind, gpu=gpu)
    lib = 't' if gpu else 'np'
    sh = ('na', 'N') if nd == 2 else ('B', 'na', 'N')
    a = dict(Wx=h.arr('W', *sh, dt='complex128', lib=lib), ssq_freqs=h.arr('sf', 'na', lib=lib), flipud=flip,
             fs=h.num('fs'), transform=tr, gamma=h.num('gamma'))
    if tr == 'cwt':
        a['scales'] = h.arr('scales', 'na', lib=lib)
    if step == 1:
        a['dWx'] = h.arr('dW', *sh, dt='complex128', lib=lib)
        if tr == 'stft':
            a['Sfs'] = h.arr('Sfs', 'na', lib=lib)
    else:
        a['w'] = h.arr('w', *sh, lib=lib)
    r = h.run('ssqueezing', 'ssqueeze', a)
    judge(proj, rep, name, h, r, 1)


def full_cwt(proj, rep, name, kind, flip, freqs, mr, gpu):
    k2 = kind if freqs in (None, 'same', 'array') else freqs
    h = H(proj, kind, gpu=gpu)
    x = h.arr('x', 'N', lib='t' if gpu else 'np')
    a = dict(x=x, scales=h.arr('scales', 'na'), fs=h.num('fs'), flipud=flip, nan_checks=False)
    if mr == 'tuple':
        a['maprange'] = Tup([K(1.), K(2.)])
    else:
        a['maprange'] = mr
    if freqs == 'array':
        a['ssq_freqs'] = h.arr('sf', 'na')
    elif freqs == 'same':
        a['ssq_freqs'] = kind
    elif freqs is not None:
        a['ssq_freqs'] = freqs
    r = h.run('_ssq_cwt', 'ssq_cwt', a)
    judge(proj, rep, name, h, r, 2)


def full_stft(proj, rep, name, flip, given, gpu):
    h = H(proj, 'linear', gpu=gpu, models={('_stft', 'stft'): stft_model})
    x = h.arr('x', 'N', lib='t' if gpu else 'np')
    a = dict(x=x, fs=h.num('fs'), flipud=flip)
    if given:
        a['ssq_freqs'] = h.arr('sf', 'na')
    r = h.run('_ssq_stft', 'ssq_stft', a)
    judge(proj, rep, name, h, r, 2)


def stft_model(I, st, d, node):
    x = I.simp(st, d['x'])
    lib = I.alib(st, x)
    lead = I.ashape(st, x)[:-1]
    mk = lambda n: I.newarr(st, lead + (sym('na'), sym('N')), A(('get', n) + tuple(ix(k) for k in range(len(lead) + 2))), 'complex64', lib)
    return Tup([mk('Sx'), mk('dSx')])


def judge(proj, rep, name, h, r, nfreq):
    if not r.ok:
        if r.exc is not None:
            rep.undecided('labels', name, 'refused: %s' % r.why()[:200])
        else:
            rep.undecided('labels', name, r.why()[:200])
        return
    items = r.items()
    if len(items) <= nfreq - (nfreq == 1) and len(items) < 2:
        rep.undecided('labels', name, 'returned %d items' % len(items))
        return
    R = items[1] if nfreq == 1 else items[2]
    Tx = items[0]
    R, Tx = r.I.simp(r.st, R), r.I.simp(r.st, Tx)
    if not isinstance(R, AV) or not isinstance(Tx, AV):
        rep.undecided('labels', name, 'returned items are not interpreted arrays')
        return
    n = r.sh(R)[0]
    rows = r.sh(Tx)[-2]
    if len(r.sh(R)) != 1 or n != rows:
        rep.violation('count', name, 'returned frequencies have shape %s for %s rows' % (r.sh(R), rows))
        return
    rep.good('count', name)
    fills = h.with_facts(routines, proj, r)
    if not fills:
        rep.undecided('labels', name, 'no reassignment routine call found')
        return
    h.with_facts(label, rep, name, h, r, R, n, fills)


def routines(proj, r):
    """parameters given to each reassignment routine reached"""
    out = []
    for e in r.ev('kernel', 'launch'):
        if e.kind == 'kernel':
            mod, fn, d = e.data
            last = fn
        else:
            k, d = launch_args(e)
            fn = k.name
            x = d.get('$extra')
            d['flipud'] = K(not (isinstance(x, K) and x.v.strip() == '')) if x is not None else None
        p = {}
        for q, v in d.items():
            v = r.I.simp(r.st, v)
            if isinstance(v, K) and isinstance(v.v, bool):
                p[q] = v.v
            elif isinstance(v, B):
                p[q] = v.c
            elif isinstance(v, (K, Num)) and not isinstance(v, K) or (isinstance(v, K) and isinstance(v.v, (int, float))):
                p[q] = r.I.P(v)
            elif isinstance(v, AV) and r.sh(v) == ():
                p[q] = r.body(v)
        if 'flipud' in p and ({'vmin', 'dv'} <= set(p) or {'vlmin', 'dvl'} <= set(p) or {'vlmin0', 'dvl0'} <= set(p)):
            out.append((fn, p, e))
    return out


def label(rep, name, h, r, R, n, fills):
    log2 = lambda p: h.I.lib.log2p(p) if hasattr(h.I.lib, 'log2p') else None
    body = r.body(R)
    lits = [n - num(2), sym('tidx') - num(2), n - sym('tidx') - num(2)]
    probs = []
    und = []
    for fn, p, e in fills:
        f = p['flipud']
        if f not in (True, False):
            und.append('%s: orientation %r' % (fn, f))
            continue
        row = (lambda k: n - ONE - k) if f else (lambda k: k)
        G = lambda k: at(body, {0: row(k if isinstance(k, Poly) else num(k))})
        want = []
        if 'vmin' in p:
            want = [('origin', G(0), p['vmin']), ('step', G(1) - G(0), p['dv'])]
        elif 'vlmin' in p:
            want = [('log2 origin', lg(h, G(0)), p['vlmin']), ('log2 step', lg(h, G(1)) - lg(h, G(0)), p['dvl'])]
        else:
            i1 = p['idx1']
            want = [('log2 origin', lg(h, G(0)), p['vlmin0']), ('log2 step', lg(h, G(1)) - lg(h, G(0)), p['dvl0']),
                    ('log2 at transition', lg(h, G(i1)), p['vlmin1']),
                    ('log2 step above transition', lg(h, G(i1 + ONE)) - lg(h, G(i1)), p['dvl1'])]
        for what, a, b in want:
            v, why = same(a, strip_floor(b), h.facts, lits)
            if v == 'ne':
                probs.append('%s (orientation %s): %s of the returned frequencies in row order is %s, the rows were filled with %s'
                             % (fn, 'flipped' if f else 'unflipped', what, short(a, 200), short(b, 200)))
            elif v == '?':
                und.append('%s %s: %s' % (fn, what, why[:150]))
    fn, p, e = fills[0]
    if probs:
        w = where(e)
        rep.violation('labels', name, probs[0], w[1])
    elif und:
        rep.undecided('labels', name, und[0])
    else:
        rep.good('labels', name, ', '.join(sorted({f[0] for f in fills})))


def lg(h, p):
    """log2 in the normal form numpy's log2 gets"""
    st = h.st
    v = h.I.lib.ufunc(st, 'log2', [Num(p, 'float64')], {}, None)
    return h.I.P(v)
