"""C07: library calls leave the caller's arguments unchanged."""
from checks.hutil import *
from checks.hutil import H
from checks import scen
from ssqlint.flow import Unsup, RaiseSig

TECHNIQUE = 'ownership/effect analysis: abstract interpretation tracking which caller-owned arrays, lists and dicts each store may reach'
EXPLANATION = ('Every public function is interpreted on symbolic inputs for a table of option combinations. Arrays, lists and dicts the caller owns carry '
               'their argument name as origin; views, reshapes, conversions that may not copy and containers keep it. A store (item or slice assignment, '
               'in-place operator, out= argument, compiled or GPU kernel output, container method) whose target may be a caller-owned object is a '
               'violation unless the function is documented to work in place on that argument. For ssq_cwt/ssq_stft with preserve_transform the returned '
               'transform is compared with that of cwt/stft as a formula.')
ASSUMPTIONS = ['NumPy/SciPy/PyTorch functions other than documented in-place ones do not modify their inputs',
               'conversions (asarray, astype(copy=False), contiguous, reshape) are taken to return the same memory whenever they may']


def post(s, h, r):
    ev = []
    for e in r.I.events:
        if e.kind == 'write':
            how, o, v = e.data
            o = set(o) - set(s.inplace)
            if o:
                ev.append((how, sorted(o), where(e), list(e.stack)))
    return r.why(), ev, sum(1 for e in r.I.events if e.kind == 'write'), r.ok or r.exc is not None


def public_fn(stack, s):
    return stack[0] if stack else s.fn


def effects(proj, rep):
    ss = scen.all_scens(rep.tier)
    n = 0
    for s, v, err in scen.run_all(proj, ss, post):
        if err:
            rep.undecided('no-write-to-argument', s.label, err)
            continue
        why, ev, nw, done = v
        n += nw
        if ev:
            for how, org, (cons, at), stack in ev:
                rep.violation('no-write-to-argument', '%s writes %s' % (cons, ','.join(org)),
                              'in %s: %s changes the object the caller passed as %s; call path %s' % (s.label, how, ', '.join(org), ' > '.join(stack)), at)
        elif done:
            rep.good('no-write-to-argument', s.label, '%d stores, none reaches an argument (%s)' % (nw, why))
        else:
            rep.undecided('no-write-to-argument', s.label, why)
    rep.count('stores examined', n)
    rep.count('calls interpreted', len(ss))


def pres_items():
    out = []
    for x, xl in ((scen.x1, '1-D'), (scen.x2, '2-D')):
        for gpu in (False, True):
            for opt in (dict(), dict(squeezing='lebesgue'), dict(squeezing='abs'), dict(get_w=True), dict(get_w=True, squeezing='lebesgue'), dict(flipud='flip')):
                if xl == '2-D' and opt.get('get_w') or gpu and opt.get('squeezing') == 'abs':
                    continue
                for fn in ('ssq_cwt', 'ssq_stft'):
                    out.append((fn, xl, gpu, opt))
    return out


def preserved(proj, rep):
    """with preserve_transform the returned transform is the forward transform's"""
    for (fn, xl, gpu, opt), v, err in scen.pmap(lambda *a: pres_one(proj, *a), pres_items()):
        lbl = '%s(%s%s%s, preserve_transform=True)' % (fn, xl, ', GPU' if gpu else '', ''.join(', %s=%s' % z for z in opt.items()))
        verdict, why = ('?', err) if err else v
        if verdict == 'eq':
            rep.good('transform-preserved', lbl, why)
        elif verdict == 'ne':
            rep.violation('transform-preserved', '%s: returned transform' % fn, '%s: %s' % (lbl, why), '_%s.py' % fn)
        else:
            rep.undecided('transform-preserved', lbl, why)


def run(proj, rep):
    rep.rule('no-write-to-argument', 'no store of a public function may reach an object the caller passed in, unless documented as in-place')
    rep.rule('transform-preserved', 'with preserve_transform=True the returned transform equals the one cwt/stft returns for the same arguments')
    effects(proj, rep)
    preserved(proj, rep)


def pres_one(proj, fn, xl, gpu, opt):
    lib = 't' if gpu else 'np'
    dims = ('N',) if xl == '1-D' else ('B', 'N')
    kind = 'log' if fn == 'ssq_cwt' else 'linear'
    h = H(proj, kind, 'float32', gpu=gpu, models=dict(scen.SCALES))
    a = dict(x=h.arr('x', *dims, dt='float32', lib=lib))
    if fn == 'ssq_cwt':
        base = dict(scales=K('log'), nan_checks=K(False))
        mod, fwd, names = '_ssq_cwt', ('_cwt', 'cwt'), 'Wx'
    else:
        base = dict(n_fft=h.num('nf', 'pyint'))
        mod, fwd, names = '_ssq_stft', ('_stft', 'stft'), 'Sx'
    o = dict(opt)
    if o.get('flipud') == 'flip':
        o['flipud'] = fn != 'ssq_cwt'
    r = h.run(mod, fn, dict(a, preserve_transform=K(True), **base, **{k: K(v) for k, v in o.items()}))
    if not r.ok:
        return '?', r.why()
    b2 = dict(base)
    f = h.run(*fwd, dict(a, **b2))
    if not f.ok:
        return '?', f.why()
    with h.ctx():
        W = r.items()[1]
        W0 = f.items()[0] if isinstance(f.v, Tup) else f.v
        sh, sh0 = r.sh(W), f.sh(W0)
        if len(sh) != len(sh0):
            return 'ne', 'shapes %s and %s' % (short(sh), short(sh0))
        lits = inb(*[(k, sh0[k]) for k in range(len(sh0))])
        for p, q in zip(sh, sh0):
            v, why = same(p, q, h.facts, [])
            if v != 'eq':
                return v, 'shape: %s' % why
        v, why = same(r.body(W), f.body(W0), h.facts, lits)
        if v == 'eq':
            return v, short(r.body(W))
        return v, 'returned %s, transform %s; %s' % (short(r.body(W)), short(f.body(W0)), why)
