"""Shared set-up for the checks that interpret host code."""
from ssqlint import terms as T
from ssqlint.terms import Poly, A, ZERO, ONE, num, sym
from ssqlint.host import *                                           # noqa: F401,F403
from ssqlint.host import Host, psi_model, xi_model, p2up_model, const_model, Res
from ssqlint.flow import K, Num, Tup, Ref, AV, Phi, NONE, B, Opq, InstC, DictC, ListC, Py, UNDEF, ix

POS = {'N', 'na', 'fs', 'nv', 'gamma', 'B', 'nf', 'hop', 'dt'}
INTS = {'N', 'na', 'nv', 'B', 'n1', 'n2', 'nf', 'hop', 'tidx', 'n_up'}
NOISE = ('wisdom',)


def nv_of(kind):
    return Num(sym('nv'), 'pyint')


def stype(kind):
    def m(I, st, d, node):
        x = None
        for v in d.values():
            x = v
            break
        # a routine that handles the pieces of 'log-piecewise' scales by calling itself: each piece is 'log'
        k = 'log' if kind == 'log-piecewise' and any(I.stack.count(f) > 1 for f in set(I.stack)) else kind
        if k == 'log-piecewise':
            x = I.simp(st, x)
            sh = I.ashape(st, x) if isinstance(x, AV) else (sym('na'),)
            return Tup([K(kind), I.newarr(st, (sh[0],), A(('get', 'nv', ix(0))), 'float64')])
        if kind == 'linear':
            return Tup([K(kind), NONE])
        return Tup([K(k), Num(sym('nv'), 'pyint')])
    return m


def H(proj, kind='log', psi='float32', gpu=False, par=None, models=None, pos=(), ints=(), nonneg=(), env=None, std=True, **k):
    """A host configuration with the standard models.

    kind: what infer_scaletype/logscale_transition_idx report.  The wavelet, the frequency axis and
    the padded length are uninterpreted functions: their own correctness is decided elsewhere."""
    m = {}
    if std:
        m = {('utils.cwt_utils', 'infer_scaletype'): stype(kind),
             ('utils.cwt_utils', 'logscale_transition_idx'): const_model(Num(sym('tidx'), 'pyint') if kind == 'log-piecewise' else NONE),
             ('utils.common', 'p2up'): p2up_model,
             ('wavelets', '_xifn'): xi_model,
             ('wavelets', 'center_frequency'): fc_model}
        if psi:
            m[('_gmw', 'gmw')] = psi_model(psi)
    m.update(models or {})
    e = {}
    if gpu:
        e['SSQ_GPU'] = '1'
    if par is not None:
        e['SSQ_PARALLEL'] = '1' if par else '0'
    e.update(env or {})
    return Host(proj, pos=POS | set(pos), ints=INTS | set(ints), nonneg={'n1', 'n2', 'tidx'} | set(nonneg), models=m, gpu=gpu, env=e, **k)


def fc_model(I, st, d, node):
    """center frequency of a wavelet at a scale: an unknown function of the scale"""
    s = I.simp(st, d.get('scale'))
    p = I.abody(st, s) if isinstance(s, AV) else I.P(s)
    return Num(A(('call', 'fc', p)), 'float64')


def par_of(r):
    return [e for e in r.I.events]


def bad_events(r, kinds=('unbound', 'opaque-call', 'opaque-meth', 'opaque-store', 'array-truth', 'opaque-user')):
    out = []
    for e in r.ev(*kinds):
        s = repr(e.data)
        if any(w in s for w in NOISE):
            continue
        out.append(e)
    return out


def where(e):
    """(construct, file:line) of an event"""
    mod = getattr(e, 'mod', None)
    name = getattr(mod, 'name', mod) or ''
    fn = e.stack[-1] if e.stack else ''
    line = getattr(e.node, 'lineno', 0)
    name = str(name)
    path = name if name.endswith('.py') else name.replace('.', '/') + '.py'
    return '%s:%s' % (name, fn), '%s:%s' % (path, line)


def inb(*pairs):
    """index-range literals 0 <= ix(k) < n"""
    out = []
    for k, n in pairs:
        out += [ix(k), n - ONE - ix(k)]
    return out


def strip_floor(p):
    """drop the numerical floor of max(x, eps)"""
    def f(a):
        if a[0] == 'max':
            xs = [x for x in a[1] if not is_eps(x)]
            if len(xs) == 1:
                return T.subst(xs[0], f)
        return None
    return T.subst(p, f)


def is_eps(x):
    if not isinstance(x, Poly):
        return False
    c = x.const()
    if c is not None:
        return True
    at = x.atom()
    return at is not None and at[:1] == ('call',) and at[1] in ('eps', 'tiny')


def launch_args(e):
    """{kernel parameter name: value} of a GPU launch event"""
    from ssqlint import gpuc
    code, kw, name, grid, block, args = e.data
    k = gpuc.parse_kernel(code)
    d = {p.name: v for p, v in zip(k.params, args)}
    d.update({'$' + q: v for q, v in (kw or {}).items()})
    return k, d


def fl(e, h=None):
    return e
