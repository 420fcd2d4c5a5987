"""C16: every documented option combination yields a result or a clear refusal."""
import ast
import itertools
from checks.hutil import *
from checks.hutil import H
from checks import scen
from checks.scen import Sc, val, x1, x2, scales_arr, wavelet_obj, method, mkdict, mklist, ADM, RES
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig

TECHNIQUE = 'definite-assignment and exception-flow analysis by interpretation of the public functions on symbolic inputs over a table of option combinations'
EXPLANATION = ('Each public function is interpreted on symbolic inputs for single options, pairs of options and the documented values of each option. Along every path the analysis '
               'asks for the failure that the program would meet: a name that no assignment on the path defines, a missing table entry or attribute, an operation on None, '
               'mismatched shapes. An explicit raise or assert is a refusal; any other failure of an accepted combination is a violation. Values outside the documented sets must '
               'end in an explicit raise whose message names the option.')
ASSUMPTIONS = ['at least two scales, samples and frequency rows', 'external libraries accept the arguments their documentation lists']
IMPLICIT = ('UnboundLocalError', 'NameError', 'KeyError', 'AttributeError', 'IndexError', 'TypeError', 'ZeroDivisionError', 'RuntimeError', 'UnboundError')
BIG = ('na', 'N', 'nf', 'B', 'nb')


def feasible(pc, facts):
    """'yes' (no condition, or arithmetic conditions met by a valuation), 'no' (no valuation found), '?'"""
    if not pc:
        return 'yes'
    lits = [sym(s) - num(2) for s in BIG]
    simple = True
    for c in pc:
        bad = []
        T.walk(c, lambda a: bad.append(a) if a[0] not in ('sym',) else None) if c not in (True, False) else None
        if c is False:
            return 'no'
        if bad or 'flag' in repr(c):
            simple = False
    for s in range(600):
        v = HV(s, s % 2 == 1, facts)
        try:
            if any(v.real(l) < -1e-9 for l in lits):
                continue
            if all(v.cond(c) for c in pc):
                return 'yes' if simple else '?'
        except (CantEval, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            continue
    return 'no'


def roots(r):
    """[(exception, message, explicit?, event)] where exceptions originate"""
    out = []
    for e in r.ev('raise', 'unbound'):
        if e.kind == 'unbound':
            out.append(('UnboundLocalError', str(e.data), False, e))
        elif e.data[0] != '#raised':
            out.append((e.data[0], str(e.data[1]), isinstance(e.node, (ast.Raise, ast.Assert)), e))
    return out


def post(s, h, r):
    out = []
    for exc, msg, explicit, e in roots(r):
        out.append((exc, msg, explicit, where(e), list(e.stack), feasible(e.pc, r.I.facts), getattr(e, 'caught', False), ast.unparse(e.node)[:100] if isinstance(e.node, ast.AST) else ''))
    return r.why(), out, r.ok, r.exc is not None, r.ok and isinstance(r.I.simp(r.st, r.v), type(UNDEF))


# ------------------------------------------------------------------ combinations
def lab(o):
    return ', '.join('%s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())


def combos(tier):
    """pairs of options"""
    out = []

    def product(fn, mod, base, opts, x=x1, kind='log', skip=lambda o: False, **hk):
        items = [(k, v) for k, vs in opts.items() for v in vs]
        for (k1, v1), (k2, v2) in itertools.combinations(items, 2):
            if k1 == k2:
                continue
            o = {k1: v1, k2: v2}
            if skip(o):
                continue

            def args(h, o=o):
                d = {k: v(h) for k, v in base.items()}
                for k, v in o.items():
                    d[k] = v(h) if callable(v) else val(h, v)
                return d
            out.append(Sc('%s(%s%s)' % (fn, 'batch, ' if x is x2 else '', lab(o)), mod, fn, args, kind=kind if isinstance(kind, str) else kind(o), **hk))
    fs = lambda h: h.num('fs', 'pyfloat')
    t = lambda h: h.arr('t', 'N')
    wobj = lambda h: wavelet_obj(h)
    for x in (x1, x2):
        kd = lambda o: o.get('scales') if isinstance(o.get('scales'), str) else 'log'
        product('cwt', '_cwt', {'x': x}, dict(derivative=(True,), padtype=(None, 'zero', 'wrap'), rpadded=(True,), vectorized=(False,), astensor=(False,), l1_norm=(False,),
                                              fs=(fs,), t=(t,), order=(1, (0, 2)), scales=('linear', 'log-piecewise', scales_arr), wavelet=('morlet', wobj), cache_wavelet=(True,)),
                x, kd, psi=None, models={('wavelets', 'center_frequency'): fc_model}, skip=lambda o: 'order' in o and ('wavelet' in o or o.get('l1_norm') is False))
        product('ssq_cwt', '_ssq_cwt', {'x': x}, dict(get_w=(True,), get_dWx=(True,), preserve_transform=(True, False), squeezing=('lebesgue',), flipud=(False,), padtype=(None, 'wrap'),
                                                      vectorized=(False,), astensor=(False,), maprange=('maximal', 'energy', lambda h: Tup([K(.1), K(.2)])), ssq_freqs=('linear', 'log', lambda h: h.arr('ssq_freqs', 'na')),
                                                      order=(1, (0, 1)), fs=(fs,), t=(t,), scales=('linear', 'log-piecewise')), x, kd,
                skip=lambda o: x is x2 and o.get('get_w'))
        nf = lambda h: h.num('nf', 'pyint')
        product('stft', '_stft', {'x': x, 'n_fft': nf}, dict(derivative=(True,), modulated=(False,), padtype=('zero', 'wrap'), dtype=('float64', 'float32'), window=('hann', lambda h: h.arr('window', 'nf')),
                                                             hop_len=(lambda h: h.num('hop', 'pyint'),), fs=(fs,), t=(t,), win_len=(nf,)), x)
        product('ssq_stft', '_ssq_stft', {'x': x, 'n_fft': nf}, dict(get_w=(True,), get_dWx=(True,), preserve_transform=(True, False), squeezing=('lebesgue',), flipud=(True,), modulated=(False,),
                                                                     padtype=('zero',), ssq_freqs=('linear', lambda h: h.arr('ssq_freqs', 'na')), fs=(fs,), t=(t,), dtype=('float64',), astensor=(False,), window=('hann',)),
                x, 'linear', skip=lambda o: x is x2 and o.get('get_w'))
    product('icwt', '_cwt', {'Wx': lambda h: h.arr('Wx', 'na', 'N', dt='complex64')},
            dict(scales=('linear', 'log-piecewise', 'log', scales_arr), one_int=(False,), l1_norm=(False,), x_mean=(lambda h: h.num('xm', 'pyfloat'),), rpadded=(True,), wavelet=('morlet', wobj),
                 x_len=(lambda h: h.num('xl', 'pyint'),), nv=(16,)), kind=lambda o: o.get('scales') if isinstance(o.get('scales'), str) else 'log', psi=None, models=dict(ADM), pos=('xl',), ints=('xl',),
            skip=lambda o: o.get('l1_norm') is False and callable(o.get('wavelet')))
    for kind in ('log', 'linear', 'log-piecewise'):
        product('icwt', '_cwt', {'Wx': lambda h: h.arr('Wx', 'na', 'N', dt='complex64'), 'scales': lambda h, kind=kind: K(kind), 'wavelet': lambda h: K('morlet')},
                dict(one_int=(False,), l1_norm=(False,), rpadded=(True,)), kind=kind, psi=None, models=dict(ADM))
        for s in out[-3:]:
            s.label = s.label.replace('(', '(%s, morlet, ' % kind, 1)
    return out


# ------------------------------------------------------------------ refusals
def refusals():
    """(scenario, option, alternative words)"""
    out = []

    def add(fn, mod, opt, bad, base, words=(), **hk):
        bads = bad if isinstance(bad, list) else [bad]
        for b in bads:
            def args(h, b=b):
                d = {k: (v(h) if callable(v) else val(h, v)) for k, v in base.items()}
                d[opt] = b(h) if callable(b) else val(h, b)
                return d
            out.append((Sc('%s(%s=%s)' % (fn, opt, 'array' if callable(b) else repr(b)), mod, fn, args, **hk), opt, (opt,) + tuple(words)))
    X = {'x': x1}
    W = {'Wx': lambda h: h.arr('Wx', 'na', 'N', dt='complex64')}
    nf = lambda h: h.num('nf', 'pyint')
    add('cwt', '_cwt', 'padtype', 'bogus', X)
    add('cwt', '_cwt', 'wavelet', ['bogus', 3], X)
    add('cwt', '_cwt', 'scales', 'bogus', X, std=False, models={('utils.cwt_utils', 'cwt_scalebounds'): scen.bounds_model})
    add('cwt', '_cwt', 'x', lambda h: h.arr('x', 'B', 'na', 'N'), {}, ('dim',))
    add('cwt', '_cwt', 'x', lambda h: K('bogus'), {})
    add('ssq_cwt', '_ssq_cwt', 'squeezing', ['bogus', 3], X)
    add('ssq_cwt', '_ssq_cwt', 'maprange', ['bogus', 3], X)
    add('ssq_cwt', '_ssq_cwt', 'padtype', 'bogus', X)
    add('ssq_cwt', '_ssq_cwt', 'difftype', 'bogus', dict(X, get_w=True))
    add('ssq_cwt', '_ssq_cwt', 'difftype', ['phase', 'numeric'], X, ('get_w',))
    add('ssq_cwt', '_ssq_cwt', 'difforder', 3, dict(X, difftype='numeric', get_w=True))
    add('ssq_cwt', '_ssq_cwt', 'get_w', True, {'x': x2})
    add('ssq_stft', '_ssq_stft', 'get_w', True, {'x': x2, 'n_fft': nf}, kind='linear')
    add('ssq_stft', '_ssq_stft', 'squeezing', ['bogus', 3], dict(X, n_fft=nf), kind='linear')
    add('ssq_stft', '_ssq_stft', 'padtype', 'bogus', dict(X, n_fft=nf), kind='linear')
    add('ssq_stft', '_ssq_stft', 'ssq_freqs', 'log', dict(X, n_fft=nf), kind='linear')
    add('stft', '_stft', 'padtype', 'bogus', dict(X, n_fft=nf))
    add('padsignal', 'utils.common', 'padtype', ['bogus', 'even'], X)
    add('padsignal', 'utils.common', 'x', lambda h: h.arr('x', 'B', 'na', 'N'), {}, ('dim',))
    add('ssqueeze', 'ssqueezing', 'squeezing', 'bogus', dict(W, w=lambda h: h.arr('w', 'na', 'N'), scales=scales_arr))
    add('ssqueeze', 'ssqueezing', 'transform', 'bogus', dict(W, w=lambda h: h.arr('w', 'na', 'N'), scales=scales_arr))
    add('ssqueeze', 'ssqueezing', 'maprange', ['bogus', 'peak'], dict(W, w=lambda h: h.arr('w', 'na', 'N'), scales=scales_arr), ('wavelet',))
    add('ssqueeze', 'ssqueezing', 'w', None, dict(W, scales=scales_arr))
    add('ssqueeze', 'ssqueezing', 'scales', None, dict(W, w=lambda h: h.arr('w', 'na', 'N')))
    add('icwt', '_cwt', 'scales', 'bogus', W, std=False, models={**ADM, ('utils.cwt_utils', 'cwt_scalebounds'): scen.bounds_model})
    add('icwt', '_cwt', 'one_int', False, {'Wx': lambda h: h.arr('Wx', 'B', 'na', 'N', dt='complex64')}, models=dict(ADM))
    add('phase_cwt', '_ssq_cwt', 'difftype', 'bogus', dict(W, dWx=lambda h: h.arr('dWx', 'na', 'N', dt='complex64')))
    add('phase_cwt_num', '_ssq_cwt', 'difforder', 3, dict(W, dt=lambda h: h.num('dt', 'pyfloat')))
    add('process_scales', 'utils.cwt_utils', 'scales', ['bogus', 3], {'N': lambda h: h.num('N', 'pyint')}, std=False, models={('utils.cwt_utils', 'cwt_scalebounds'): scen.bounds_model})
    add('center_frequency', 'wavelets', 'kind', 'bogus', {'wavelet': 'gmw'})
    add('gmw', '_gmw', 'norm', 'bogus', {}, psi=None)
    add('gmw', '_gmw', 'gamma', [-1, 0], {}, psi=None)
    add('gmw', '_gmw', 'beta', -1, {}, psi=None)
    add('compute_gmw', '_gmw', 'norm', 'bogus', {'N': lambda h: h.num('N', 'pyint'), 'scale': K(4)}, psi=None)
    add('extract_ridges', 'ridge_extraction', 'transform', 'bogus', {'Tf': lambda h: h.arr('Tf', 'na', 'N', dt='complex64'), 'scales': scales_arr})
    add('issq_cwt', '_ssq_cwt', 'cc', lambda h: h.arr('cc', 'N', dt='int64'), {'Tx': lambda h: h.arr('Tx', 'na', 'N', dt='complex64')}, ('cw',), models=dict(ADM))
    add('issq_stft', '_ssq_stft', 'hop_len', 2, {'Tx': lambda h: h.arr('Tx', 'na', 'N', dt='complex64'), 'n_fft': nf})
    add('issq_stft', '_ssq_stft', 'modulated', False, {'Tx': lambda h: h.arr('Tx', 'na', 'N', dt='complex64'), 'n_fft': nf})
    add('get_window', '_stft', 'window', 3, {'win_len': nf})
    for lbl, spec, kw, words in (("'bogus'", 'bogus', {}, ('wavelet',)), ('3', 3, {}, ('wavelet',)), ("'morlet', dtype='int32'", 'morlet', {'dtype': 'int32'}, ('dtype',))):
        out.append((Sc('Wavelet(%s)' % lbl, 'wavelets', 'Wavelet', lambda h: {}, psi=None, call=lambda h, a, spec=spec, kw=kw: wavelet_obj(h, spec, **kw)), words[0], words))
    add('make_scales', 'utils.cwt_utils', 'scaletype', 'bogus', {'N': K(64), 'wavelet': 'gmw'}, models={('utils.cwt_utils', 'make_scales'): None})
    add('cwt_scalebounds', 'utils.cwt_utils', 'preset', 'bogus', {'N': K(64), 'wavelet': 'gmw'}, models={('utils.cwt_utils', 'cwt_scalebounds'): None})
    for nm in ('bogus', 'lchirp:bogus', '#bogus'):
        def call(h, a, nm=nm):
            ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], {'N': K(64)}, None)
            return method(h, ts, 'make_signals', [mklist(h, 'signals', [K(nm)])], {})
        out.append((Sc('TestSignals.make_signals([%r])' % nm, '_test_signals', 'TestSignals', lambda h: {}, call=call), 'signals', ('signal', 'bogus')))
    return out


UNDOC = ("squeezing=abs",)


def run(proj, rep):
    rep.rule('combination', 'an accepted combination of options reaches a result or an explicit refusal on every path')
    rep.rule('refusal', 'a value outside the documented set ends in an explicit raise that names the option')
    ss = [s for s in scen.all_scens(rep.tier) if not any(u in s.label for u in UNDOC)] + combos(rep.tier)
    rf = refusals()
    meta = {}
    for s, o, w in rf:
        meta[id(s)] = (o, w)
    for s, v, err in scen.run_all(proj, ss + [x[0] for x in rf], post):
        ref = id(s) in meta
        rule = 'refusal' if ref else 'combination'
        if err:
            rep.undecided(rule, s.label, err)
            continue
        why, rs, ok, exc, _ = v
        if ref:
            opt, words = meta[id(s)]
            expl = [x for x in rs if x[2]]
            if ok:
                rep.violation('refusal', s.label, 'accepted although %s is not a documented value' % opt, s.mod)
            elif exc and rs:
                e, msg, explicit, (c, at), stack, feas, _, node = rs[-1]
                if explicit and any(w in msg or w in node for w in words):
                    rep.good('refusal', s.label, '%s: %s' % (e, msg[:120]))
                elif explicit:
                    rep.undecided('refusal', s.label, 'refused with %s: %s' % (e, msg[:160]))
                else:
                    rep.violation('refusal', s.label, 'not refused: fails later with %s: %s in %s' % (e, msg[:120], c), at)
            else:
                rep.undecided('refusal', s.label, why)
            continue
        bad = False
        for e, msg, explicit, (c, at), stack, feas, caught, node in rs:
            if explicit or e not in IMPLICIT or feas != 'yes':
                continue
            bad = True
            rep.violation('combination', '%s: %s %s' % (c, e, msg), '%s fails with %s: %s at `%s`; call path %s' % (s.label, e, msg, node, ' > '.join(stack)), at)
        if not bad:
            done = ok or exc and any(x[2] for x in rs)
            (rep.good if done else rep.undecided)('combination', s.label, why)
    rep.count('option combinations', len(ss))
    rep.count('undocumented values', len(rf))
