"""C05: the value the phase transform assigns when the derivative is not supplied."""
from checks.hutil import *                                           # noqa: F401,F403
from checks import refs

REF = '''
import numpy as np
from ssqueezepy.algos import replace_under_abs


def numeric(Wx, dt, order, gamma):
    n = Wx.shape[1]
    # columns beyond either end are those of the other end
    before2 = np.concatenate([Wx[:, -2:], Wx[:, :-2]], axis=1)
    before1 = np.concatenate([Wx[:, -1:], Wx[:, :-1]], axis=1)
    after1 = np.concatenate([Wx[:, 1:], Wx[:, :1]], axis=1)
    after2 = np.concatenate([Wx[:, 2:], Wx[:, :2]], axis=1)
    if order == 1:
        d = (after1 - Wx) / dt
    elif order == 2:
        d = (4 * after1 - after2 - 3 * Wx) / (2 * dt)
    else:
        d = (8 * (after1 - before1) - (after2 - before2)) / (12 * dt)
    w = np.abs(np.real(-1j * d / Wx) / (2 * np.pi))
    return np.where(np.abs(Wx) < gamma, np.inf, w)


def unwrapped(Wx, gamma):
    u = np.unwrap(np.angle(Wx))
    step = np.concatenate([u[:, 1:] - u[:, :-1], u[:, -1:] - u[:, :1]], axis=1)
    w = np.abs(step / (2 * np.pi))
    replace_under_abs(w, ref=Wx, value=gamma, replacement=np.inf)
    return w
'''


def pairs(tier):
    out = []
    for dt in ('complex128', 'complex64'):
        for order in (1, 2, 4):
            out.append(refs.Pair('phase_cwt_num, difforder=%d, %s' % (order, dt), '_ssq_cwt', 'phase_cwt_num',
                                 lambda h, dt=dt, order=order: dict(Wx=h.arr('Wx', 'na', 'N', dt=dt), dt=h.num('dt', 'pyfloat'), difforder=order, gamma=h.num('gamma', 'pyfloat')),
                                 'numeric',
                                 lambda h, dt=dt, order=order: dict(Wx=h.arr('Wx', 'na', 'N', dt=dt), dt=h.num('dt', 'pyfloat'), order=order, gamma=h.num('gamma', 'pyfloat')),
                                 lits=[], pos=('dt', 'gamma')))
        out.append(refs.Pair("phase_cwt, difftype='phase', %s" % dt, '_ssq_cwt', 'phase_cwt',
                             lambda h, dt=dt: dict(Wx=h.arr('Wx', 'na', 'N', dt=dt), dWx=None, difftype='phase', gamma=h.num('gamma', 'pyfloat'), parallel=False),
                             'unwrapped', lambda h, dt=dt: dict(Wx=h.arr('Wx', 'na', 'N', dt=dt), gamma=h.num('gamma', 'pyfloat')), pos=('gamma',)))
    return out


def run(proj, rep):
    rep.rule('difference', 'without a supplied derivative the phase transform uses the finite difference of the requested order')
    refs.run_pairs(proj, rep, 'difference', pairs(rep.tier), REF)
    run_calls(proj, rep)


# ------------------------------------------------------------------ what the kernels are handed
def grid(kind, logscale):
    """{parameter: value} for the target grid v of na rows"""
    v = lambda i: A(('get', 'v', i if isinstance(i, Poly) else num(i)))
    lg = lambda p: A(('call', 'log', p)) * T.power(A(('call', 'log', num(2))), -1)
    t = sym('tidx')
    if not logscale:
        return {'vmin': v(0), 'dv': v(1) - v(0)}
    if kind == 'log-piecewise':
        return {'vlmin0': lg(v(0)), 'vlmin1': lg(v(t - ONE)), 'dvl0': lg(v(1)) - lg(v(0)), 'dvl1': lg(v(t)) - lg(v(t - ONE)), 'idx1': t - ONE}
    return {'vlmin': lg(v(0)), 'dvl': lg(v(1)) - lg(v(0))}


TYPES = {('log', True): 'log', ('log-piecewise', True): 'log_piecewise'}


def calls(tier):
    """[(label, Sc, role, {parameter: expected}, gpu)]"""
    from checks.scen import Sc
    out = []
    na = sym('na')
    for gpu in (False, True):
        lib = dict(lib='t') if gpu else {}
        Z = lambda h, n, lib=lib: h.arr(n, 'na', 'N', dt='complex128', **lib)
        R = lambda h, n, lib=lib: h.arr(n, 'na', 'N', dt='float64', **lib)
        for kind, log in (('log', True), ('log-piecewise', True), ('linear', False)):
            st = TYPES.get((kind, log), 'lin')
            for par in ((None,) if gpu else (False, True)):
                for flip in (False, True):
                    for cn, const, cexp in (('a weight per row', lambda h: h.arr('c', 'na', dt='float64'), A(('get', 'c', A(('lx', 0))))),
                                            ('a column of weights', lambda h: h.arr('c', 'na', 1, dt='float64'), A(('get', 'c', A(('lx', 0)), ZERO))),
                                            ('one weight', lambda h: h.num('cw', 'pyfloat'), sym('cw'))):
                        tail = ', '.join([st.replace('_', '-') + ' grid', cn] + ['GPU'] * gpu + ['parallel'] * bool(par) + ['flipped'] * flip)
                        common = lambda h, const=const, log=log, flip=flip, par=par: dict(ssq_freqs=h.arr('v', 'na', dt='float64'), const=const(h), logscale=log, flipud=flip, parallel=par)
                        exp = dict(grid(kind, log), const=cexp, out=ZERO, Wx=A(('get', 'Wx', A(('lx', 0)), A(('lx', 1)))))
                        if gpu:
                            exp.update(M=na, N=sym('N'))
                        if not gpu:
                            exp.update(omax=na - ONE, flipud=flip)
                        kw = dict(kind=kind, gpu=gpu, pos=('gamma', 'v', 'cw'))
                        out.append(('ssqueeze_fast, ' + tail, Sc('', 'algos', 'ssqueeze_fast', lambda h, c=common, Z=Z: dict(c(h), Wx=Z(h, 'Wx'), dWx=Z(h, 'dWx'), gamma=h.num('gamma', 'pyfloat')), **kw),
                                    'ssq_cwt_' + st, dict(exp, gamma=sym('gamma')), gpu))
                        out.append(('indexed_sum_onfly, ' + tail, Sc('', 'algos', 'indexed_sum_onfly', lambda h, c=common, Z=Z, R=R: dict(c(h), Wx=Z(h, 'Wx'), w=R(h, 'w')), **kw),
                                    'indexed_sum_' + st, exp, gpu))
                        if st == 'lin':
                            out.append(('ssqueeze_fast, STFT, ' + tail, Sc('', 'algos', 'ssqueeze_fast', lambda h, c=common, Z=Z, lib=lib: dict(c(h), Wx=Z(h, 'Wx'), dWx=Z(h, 'dWx'), gamma=h.num('gamma', 'pyfloat'),
                                        Sfs=h.arr('Sfs', 'na', dt='float64', **lib)), **kw), 'ssq_stft', dict(exp, gamma=sym('gamma'), Sfs=A(('get', 'Sfs', A(('lx', 0))))), gpu))
                if not gpu:
                    out.append(('find_closest, %s grid%s' % (st.replace('_', '-'), ', parallel' * bool(par)), Sc('', 'algos', 'find_closest', lambda h, log=log, par=par: dict(a=h.arr('a', 'na', 'N', dt='float64'),
                                v=h.arr('v', 'na', dt='float64'), logscale=log, parallel=par), kind=kind, pos=('v', 'a')), 'find_closest_' + st, dict(grid(kind, log), omax=na - ONE), gpu))
    return out


def kernel_call(p):
    """(name, {parameter: value}) of the kernel that wrote the array whose element is p"""
    a = p.atom() if isinstance(p, Poly) else None
    if a is None or a[0] != 'kern' or not isinstance(a[3], tuple):
        return None
    return a[1].split(':')[-1], dict(a[3])


ALIAS = {'const': ('const', 'const_arr'), 'Wx': ('Wx',)}


def plain(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr':
        v = v[1]
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lam':
        v = v[2]
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'k':
        return {'True': True, 'False': False}.get(v[1], v[1])
    return strip_floor(v) if isinstance(v, Poly) else v


def uniform(p, st):
    """p for a target grid that is uniform (in each of its pieces), as the kernels take it to be"""
    def place(i):
        if st == 'log_piecewise':
            c = i.const()
            if c is not None:
                return sym('g0') + i * sym('g1') if c in (0, 1, 2) else None
            k = (i - sym('tidx')).const()
            return sym('g2') + (i - sym('tidx') + ONE) * sym('g3') if k is not None and -1 <= k <= 1 else None
        return sym('g0') + i * sym('g1')

    def f(a):
        if a[0] == 'call' and a[1] == 'log' and st != 'lin':
            b = a[2].atom()
            if b is not None and b[:2] == ('get', 'v') and len(b) == 3:
                return place(b[2])
        if a[:2] == ('get', 'v') and len(a) == 3 and st == 'lin':
            return place(a[2])
        return None
    return T.subst(p, f)


_J = None


def one_call(i):
    from checks import scen
    proj, cs, names = _J
    label, sc, role, exp, gpu = cs[i]
    h, r = scen.execute(proj, sc)
    if not r.ok:
        return [('?', '', r.why()[:200])]
    p = refs.asarr(r, r.I.simp(r.st, r.v))
    if p is None:
        return [('?', '', 'no array returned: %r' % (r.v,))]
    p = p[1]
    a = p.atom()
    if gpu and a is None:
        ks = {x[1:4]: x for x in p.atoms() if x[0] == 'kern'} if isinstance(p, Poly) else {}
        if len(ks) == 1:
            p = A(list(ks.values())[0])
    kc = kernel_call(p)
    if kc is None:
        return [('?', '', 'result is not what one kernel leaves: ' + refs.short(p, 120))]
    name, args = kc
    if name not in names:
        return [('?', '', 'kernel %s plays no known role' % name)]
    if role not in names[name]:
        return [('ne', '', 'the kernel called is %s (%s)' % (name, ', '.join(sorted(names[name]))))]
    out = []
    T._FACTS.append(h.facts)
    try:
        for k, e in exp.items():
            for q in ALIAS.get(k, ()):
                if q in args:
                    args = dict(args, **{k: args[q]})
                    break
            if k not in args:
                out.append(('?', k, 'not a parameter of ' + name) if k != 'flipud' or e else ('eq', k, 'default'))
                continue
            v = plain(args[k])
            if isinstance(e, bool) or isinstance(v, (bool, str)):
                out.append(('eq' if v is e else 'ne' if isinstance(v, bool) else '?', k, '%s instead of %s' % (v, e)))
                continue
            if not isinstance(v, Poly):
                out.append(('?', k, 'not interpreted'))
                continue
            w = same(v, e, h.facts, [sym('tidx') - ONE, sym('na') - sym('tidx') - ONE])
            if w[0] == 'ne':
                st = role.split('_')[-1] if 'piecewise' not in role else 'log_piecewise'
                st = st if st in ('log', 'log_piecewise') else 'lin'
                w2 = same(uniform(v, st), uniform(e, st), h.facts, [sym('tidx') - ONE, sym('na') - sym('tidx') - ONE])
                w = w2 if w2[0] != 'ne' else w
            out.append((w[0], k, '%s instead of %s' % (refs.short(v, 120), refs.short(e, 120))))
    finally:
        T._FACTS.pop()
    return out


def run_calls(proj, rep):
    global _J
    from checks import scen
    from checks.kutil import roles
    from ssqlint.kset import KernelSet
    names = {}
    for role, ss in roles(proj, KernelSet(proj)).items():
        for s in ss:
            names.setdefault(s.name, set()).add(role)
    rule = 'grid'
    rep.rule(rule, 'the kernel chosen and the grid, weight, threshold and orientation it is handed are those of the call')
    cs = calls(rep.tier)
    _J = (proj, cs, names)
    for (i,), res, err in scen.pmap(one_call, list(range(len(cs)))):
        label = cs[i][0]
        rep.count('kernel calls')
        if res is None:
            rep.undecided(rule, label, err)
            continue
        for k, par, why in res:
            con = label + (': ' + par if par else '')
            if k == 'eq':
                rep.good(rule, con)
            elif k == 'ne':
                rep.violation(rule, con, why, 'algos.' + cs[i][1].fn)
            else:
                rep.undecided(rule, con, why)
