"""C14, host side: column j of what synchrosqueezing returns is squeezed from column j of the transform it returns."""
from checks.hutil import *                                           # noqa: F401,F403
from checks import refs, scen
from checks.scen import Sc
from checks.host_c04 import kernel_names

_J = None


def scens(tier):
    out = []

    def add(label, fn, names, kind='log', gpu=False, dt='float64', **kw):
        def args(h, kw=kw):
            d = dict(x=h.arr('x', 'N', dt=dt, **(dict(lib='t') if gpu else {})))
            d.update({k: (v(h) if callable(v) else v) for k, v in kw.items()})
            if fn == 'ssq_cwt':
                d.setdefault('wavelet', scen.wavelet_obj(h))
            else:
                d.setdefault('n_fft', h.num('nf', 'pyint'))
                d.setdefault('window', h.arr('win', 'nf', dt='float64'))
            return d
        out.append((Sc('%s(%s)' % (fn, label), '_' + fn, fn, args, kind=kind, gpu=gpu, psi=dt, pos=('fs', 'gamma', 'n1')), names, kw.get('difftype')))
    fs = lambda h: h.num('fs', 'pyfloat')
    for diff in ('trig', 'numeric', 'phase'):
        for order in ((0, 1) if diff == 'trig' else (1, 2, 4)):
            for pad in ('reflect', 'zero', 'wrap', None):
                for got in (0, 1, 2, 3):
                    w, d = got & 1, got >> 1
                    if diff != 'trig' and not w or order == 2 and pad != 'reflect':
                        continue
                    kw = dict(padtype=pad, get_w=bool(w), get_dWx=bool(d), fs=fs)
                    if diff == 'trig':
                        kw['order'] = order
                        lab = 'trig, order=%d' % order
                    else:
                        kw.update(difftype=diff, difforder=order)
                        lab = '%s, difforder=%d' % (diff, order)
                    names = {'Tx': 0, 'Wx': 1}
                    if w:
                        names['w'] = 4
                    if d:
                        names['dWx'] = 4 + w
                    for pt in (True, False):
                        if not pt and pad != 'reflect':
                            continue
                        for gpu in (False, True):
                            if gpu and (pad not in ('reflect', None) or diff != 'trig'):
                                continue
                            add('%s, padtype=%s%s%s%s%s' % (lab, pad, ', get_w' * w, ', get_dWx' * d, '' if pt else ', preserve_transform=False', ', GPU' * gpu),
                                'ssq_cwt', names, gpu=gpu, preserve_transform=pt, **kw)
    for pad in ('reflect', 'zero', 'wrap'):
        for got in (0, 1, 2, 3):
            w, d = got & 1, got >> 1
            for m in (True, False):
                for gpu in (False, True):
                    names = {'Tx': 0, 'Wx': 1}
                    if w:
                        names['w'] = 4
                    if d:
                        names['dWx'] = 4 + w
                    add('padtype=%s, modulated=%s%s%s%s' % (pad, m, ', get_w' * w, ', get_dWx' * d, ', GPU' * gpu), 'ssq_stft', names, kind='linear', gpu=gpu,
                        padtype=pad, modulated=m, get_w=bool(w), get_dWx=bool(d), fs=fs)
    return out


def at_column(v, c):
    """a parameter of a kernel call, read at row ix(0) and column c"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr':
        v = v[1]
    if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'lam' and len(v[1]) == 2):
        return None
    keep = {('lx', k): A(('kept', k)) for k in (0, 1, 2)}
    back = {('kept', k): A(('lx', k)) for k in (0, 1, 2)}
    at = {('lx', 0): ix(0), ('lx', 1): c}

    def walk(t):
        """parameters of calls within the body keep their own indices"""
        if isinstance(t, T.Poly):
            return T.subst(t, f)
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'lam':
                return ('lam', t[1], T.subst(t[2], lambda a: keep.get(a)))
            return tuple(walk(x) for x in t)
        return t

    def f(a):
        return A(walk(a)) if a[0] == 'kern' else None
    p = T.subst(v[2], f)
    p = T.subst(p, lambda a: at.get(a))
    return T.subst(p, lambda a: back.get(a))


def params(p, names, facts):
    """what the reassignment kernel behind Tx[row, column] reads at that column, per matrix it is given"""
    b = p.atom()
    if b is not None and b[0] == 'phi':
        u, v = params(b[2], names, facts), params(b[3], names, facts)
        return {k: T.phi(b[1], u[k], v[k], facts) for k in u if k in v}
    if b is None or b[0] != 'kern' or len(b) != 6 or not isinstance(b[3], tuple):
        raise ValueError('not the result of one kernel: ' + short(p, 160))
    role = names.get(str(b[1]).split(':')[-1], '')
    if not role.startswith(('ssq_', 'indexed_sum_')):
        raise ValueError('not the result of a reassignment kernel: %s' % b[1])
    out = {k: at_column(v, b[5]) for k, v in b[3] if k in ('Wx', 'w', 'dWx')}
    if not out or None in out.values():
        raise ValueError('parameters of %s not traced' % b[1])
    return out


def job(i):
    proj, sc, names = _J
    s, items, diff = sc[i]
    h, r = scen.execute(proj, s)
    if not r.ok:
        return [('?', '', r.why()[:200])]
    out = []
    with h.ctx():
        got = {}
        for k, i in items.items():
            v = refs.value(r, r.v, i)
            q = refs.asarr(r, v)
            if q is None or len(q[0]) != 2:
                return [('?', k, 'not an array (%s)' % type(v).__name__)]
            got[k] = q
        try:
            d = params(got['Tx'][1], names, h.facts)
        except ValueError as e:
            return [('?', 'Tx', str(e))]
        N = got['Tx'][0][1]
        for k in ('Wx', 'w', 'dWx'):
            if k not in d or k not in got:
                continue
            q = d[k]
            sh, body = got[k]
            w = same(sh[1], N, h.facts)
            if w[0] != 'eq':
                out.append((w[0], k, '%s columns returned, Tx has %s' % (short(sh[1], 60), short(N, 60))))
                continue
            lits = [ix(0), sh[0] - ONE - ix(0), ix(1), N - ONE - ix(1)]
            if diff == 'numeric':
                lits += [sym('n1') - num(4), sym('n2') - num(4), sym('N') - num(9)]
            w = same(q, body, h.facts, lits)
            out.append((w[0], k, 'column j of Tx is squeezed from other values than column j of the returned %s: %s' % (k, w[1]) if w[0] == 'ne' else w[1]))
    return out


def run(proj, rep):
    global _J
    rep.rule('columns', 'column j of the squeezed transform is squeezed from column j of the transform (and of the phase transform, the derivative) returned with it')
    sc = scens(rep.tier)
    _J = (proj, sc, kernel_names(proj))
    from checks import c14
    c14.emit(rep, [(i, None if res is None else [(k, 'columns', con, why) for k, con, why in res], err) for i, res, err in scen.pmap(job, list(range(len(sc))))],
             [s[0] for s in sc], 'columns')
