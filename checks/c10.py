"""C10: parallelism and GPU flags are resolved with one documented precedence."""
import ast
import itertools
import os
from checks.hutil import *
from checks.hutil import H
from ssqlint.flow import Unsup, RaiseSig

TECHNIQUE = 'abstract interpretation of every operation offering a parallel variant, over explicit argument x environment x configs.ini; the loop variant reached is compared with the documented precedence'
EXPLANATION = ('Every function of the package with a `parallel` parameter, every wavelet constructor and the FFT thread count are '
               'interpreted for each explicit value (unset, False, True), each SSQ_PARALLEL (unset, 0, 1), each configs.ini value (0, 1). '
               'The compiled loop reached (numba parallel=True or its serial twin) is the decision; it must be the explicit value if given, '
               'else the environment flag if set, else configs.ini. Repeated with a different environment at import time, so a flag '
               'read at import instead of at the call shows. The transforms themselves (cwt, stft, ssq_cwt, ssq_stft) are interpreted '
               'for each environment: every loop with a parallel twin must be of the resolved kind.')
ASSUMPTIONS = ['a loop compiled with parallel=True is the multi-threaded variant; one with a twin of the opposite kind in the same module or selected by the same function is a variant']

INI = 'configs.ini'


def ini_text(proj, cfg):
    with open(os.path.join(proj.repo, 'ssqueezepy', INI), encoding='utf-8') as f:
        out = []
        for line in f.read().split('\n'):
            if line.replace(' ', '').startswith('parallel='):
                line = 'parallel=%d' % cfg
            out.append(line)
        return '\n'.join(out)


def want(explicit, env, cfg):
    if explicit is not None:
        return explicit
    if env is not None:
        return env
    return bool(cfg)


def ops():
    """(label, module, function, arguments(h), has explicit parameter)"""
    z = 'complex128'

    def sq(h, tr='cwt', two=False, kind='log'):
        d = dict(Wx=h.arr('W', 'na', 'N', dt=z), ssq_freqs=h.arr('sf', 'na'), const=h.num('c', 'pyfloat'), logscale=kind != 'linear')
        if two:
            d['w'] = h.arr('w', 'na', 'N')
        else:
            d['dWx'] = h.arr('dW', 'na', 'N', dt=z)
            d['gamma'] = h.num('gamma', 'pyfloat')
            if tr == 'stft':
                d['Sfs'] = h.arr('Sfs', 'na')
        return d
    o = []
    for kind in ('linear', 'log', 'log-piecewise'):
        o.append(('ssqueeze_fast (cwt, %s)' % kind, 'algos', 'ssqueeze_fast', lambda h, k=kind: sq(h, kind=k), kind))
        o.append(('indexed_sum_onfly (%s)' % kind, 'algos', 'indexed_sum_onfly', lambda h, k=kind: sq(h, two=True, kind=k), kind))
        o.append(('find_closest (%s, smart=False)' % kind, 'algos', 'find_closest',
                  lambda h, k=kind: dict(a=h.arr('w', 'na', 'N'), v=h.arr('sf', 'na'), logscale=k != 'linear', smart=False), kind))
    o.append(('ssqueeze_fast (stft)', 'algos', 'ssqueeze_fast', lambda h: sq(h, 'stft', kind='linear'), 'linear'))
    o.append(('indexed_sum', 'algos', 'indexed_sum', lambda h: dict(a=h.arr('W', 'na', 'N', dt=z), k=h.arr('k', 'na', 'N', dt='int64')), 'log'))
    o.append(('replace_under_abs', 'algos', 'replace_under_abs',
              lambda h: dict(x=h.arr('w', 'na', 'N'), ref=h.arr('W', 'na', 'N', dt=z), value=h.num('gamma', 'pyfloat')), 'log'))
    o.append(('zero_denormals', 'algos', 'zero_denormals', lambda h: dict(x=h.arr('x', 'N')), 'log'))
    ph = lambda h: dict(Wx=h.arr('W', 'na', 'N', dt=z), dWx=h.arr('dW', 'na', 'N', dt=z), gamma=h.num('gamma', 'pyfloat'))
    ps = lambda h: dict(Sx=h.arr('W', 'na', 'N', dt=z), dSx=h.arr('dW', 'na', 'N', dt=z), Sfs=h.arr('Sfs', 'na'), gamma=h.num('gamma', 'pyfloat'))
    o.append(('phase_cwt_cpu', 'algos', 'phase_cwt_cpu', ph, 'log'))
    o.append(('phase_cwt', '_ssq_cwt', 'phase_cwt', ph, 'log'))
    o.append(('phase_stft_cpu', 'algos', 'phase_stft_cpu', lambda h: {{'Sx': 'Wx', 'dSx': 'dWx'}.get(k, k): v for k, v in ps(h).items()}, 'log'))
    o.append(('phase_stft', '_ssq_stft', 'phase_stft', ps, 'log'))
    for nd in (1, 2):
        o.append(('buffer (%d-D)' % nd, 'utils.stft_utils', 'buffer',
                  lambda h, n=nd: dict(x=h.arr('x', *(('N',) if n == 1 else ('B', 'N'))), seg_len=h.num('nf', 'pyint'), n_overlap=h.num('ov', 'pyint')), 'log'))
    o.append(('extract_ridges', 'ridge_extraction', 'extract_ridges', lambda h: dict(Tf=h.arr('W', 'na', 'N', dt=z), scales=h.arr('sc', 'na'), n_ridges=1), 'log'))
    return o


def kernels(proj, r, host_only=False):
    """{kernel name: is it parallel} of the loops reached that exist in both kinds"""
    out = {}
    for e in r.ev('kernel', 'call'):
        mod, fn, d = e.data
        ji = jit(proj, mod, fn)
        if ji is None:
            continue
        out[(mod, fn)] = (ji, e)
    return out


def jit(proj, mod, fn):
    m = proj.modules.get(mod)
    if m is None:
        return None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name == fn:
            from ssqlint import project
            ji = project.jit_info(proj, m, n)
            if ji is None:
                return None
            return bool(getattr(ji, 'parallel', None) if not isinstance(ji, dict) else ji.get('parallel'))
    return None


def twins(proj, mod, fn):
    """a kernel of the opposite kind with (nearly) the same name in the module"""
    m = proj.modules.get(mod)
    base = bases(fn)
    mine = jit(proj, mod, fn)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name != fn and bases(n.name) & base:
            o = jit(proj, mod, n.name)
            if o is not None and o != mine:
                return True
    return False


def bases(n):
    """the name and the name without a suffix marking the parallel kind"""
    return {n} | {n[:-len(s)] for s in ('_parallel', '_par', 'p') if n.endswith(s)}


def configs():
    for explicit, env, cfg in itertools.product((None, False, True), (None, False, True), (0, 1)):
        yield explicit, env, cfg, None
    # import-time environment opposite to the one at the call
    for env in (False, True):
        yield None, env, 1, not env


def show(explicit, env, cfg, imp):
    return 'parallel=%s, SSQ_PARALLEL=%s, configs.ini parallel=%d%s' % (
        'unset' if explicit is None else explicit, 'unset' if env is None else int(env), cfg,
        '' if imp is None else ', SSQ_PARALLEL=%d at import' % imp)


def host(proj, kind, env, cfg, imp, **k):
    k.setdefault('psi', None)
    return H(proj, kind, par=env, files={INI: ini_text(proj, cfg)},
             import_env=None if imp is None else {'SSQ_PARALLEL': '1' if imp else '0'}, **k)


def run(proj, rep):
    rep.rule('precedence', 'the loop variant reached is the explicit argument, else the environment flag, else configs.ini')
    rep.rule('call-time', 'flags are read at the call, not at import')
    rep.rule('covered', 'every function with a `parallel` parameter is one of the analysed operations or only forwards it')
    for op in ops():
        rep.guard('precedence', op[0], one, proj, rep, *op)
    rep.guard('precedence', 'configs.IS_PARALLEL', flag, proj, rep)
    rep.guard('precedence', 'FFT threads', threads, proj, rep)
    for name, args in (('morlet', {}), ('bump', {}), ('cmhat', {}), ('hhhat', {}), ('gmw', {}), ('gmw', {'norm': 'energy', 'dtype': 'float64'}),
                       ('gmw', {'order': 1}), ('gmw', {'order': 1, 'norm': 'energy', 'dtype': 'float64'})):
        rep.guard('precedence', 'wavelet %s%s' % (name, args or ''), wav, proj, rep, name, args)
    for t in ('cwt', 'stft', 'ssq_cwt', 'ssq_cwt two-step', 'ssq_stft', 'ssq_stft two-step'):
        rep.guard('precedence', t, transform, proj, rep, t)
    rep.guard('call-time', 'SSQ_GPU', gpu_flag, proj, rep)
    rep.guard('covered', 'parallel parameters', covered, proj, rep)


def judge(rep, key, probs, und, det=''):
    late = [p for p in probs if 'at import' in p[0]]
    for rule, ps in (('precedence', [p for p in probs if p not in late]), ('call-time', late)):
        if ps:
            rep.violation(rule, key, '%s: %s (%d configurations)' % (ps[0][0], ps[0][1], len(ps)), ps[0][2])
        elif und:
            rep.undecided(rule, key, und[0])
        else:
            rep.good(rule, key, det)


def one(proj, rep, label, mod, fn, mk, kind):
    probs, und, det = [], [], set()
    has = 'parallel' in params(proj, mod, fn)
    if not has:
        rep.undecided('precedence', label, 'no `parallel` parameter')
        return
    m = proj.modules['ssqueezepy.' + mod]
    default = param_default(m, fn, 'parallel')
    for c in configs():
        explicit, env, cfg, imp = c
        if explicit is None and default not in (None, 'None'):
            continue                      # documented default other than "unset"
        h = host(proj, kind, env, cfg, imp, pos=('nf', 'ov'), ints=('nf', 'ov'))
        a = mk(h)
        if explicit is not None:
            a['parallel'] = explicit
        r = h.run(mod, fn, a)
        rep.count('configurations')
        if not r.ok:
            und.append('%s: %s' % (show(*c), r.why()[:200]))
            continue
        decide(proj, r, c, want(explicit, env, cfg), probs, und, det)
    judge(rep, '%s:%s %s' % (m.rel, fn, label), probs, und, ', '.join(sorted(det)))


def decide(proj, r, c, w, probs, und, det, need=True):
    ks = kernels(proj, r)
    found = False
    for (mod, fn), (par, e) in ks.items():
        if not twins(proj, mod, fn):
            continue
        found = True
        det.add(fn)
        if par != w:
            probs.append((show(*c), 'runs %s %s' % ('multi-threaded' if par else 'single-threaded', fn), where(e)[1]))
    if not found and need:
        und.append('%s: no loop with a parallel twin reached' % show(*c))


def params(proj, mod, fn):
    m = proj.modules.get('ssqueezepy.' + mod)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name == fn:
            return [a.arg for a in n.args.args + n.args.kwonlyargs]
    return []


def param_default(m, fn, p):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name == fn:
            a = n.args
            ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
            d = ds.get(p)
            return 'required' if d is None else (d.value if isinstance(d, ast.Constant) else ast.unparse(d))
    return None


def flag(proj, rep):
    probs, und = [], []
    for c in configs():
        explicit, env, cfg, imp = c
        if explicit is not None:
            continue
        h = host(proj, 'log', env, cfg, imp)
        r = h.run('configs', 'IS_PARALLEL', {})
        rep.count('configurations')
        v = truth(r)
        if v is None:
            und.append('%s: %s' % (show(*c), r.why()[:160]))
        elif v != want(None, env, cfg):
            probs.append((show(*c), 'IS_PARALLEL() is %s' % v, 'ssqueezepy/configs.py'))
    judge(rep, 'ssqueezepy/configs.py:IS_PARALLEL', probs, und)


def truth(r):
    if not r.ok:
        return None
    v = r.I.simp(r.st, r.v)
    if isinstance(v, K):
        return bool(v.v)
    if isinstance(v, B) and v.c in (True, False):
        return v.c
    return None


def threads(proj, rep):
    """thread count of an FFT handler, for every configuration and for explicit counts"""
    def resolve(h, kw):
        cls = h.glob('utils.fft_utils', 'FFT')
        T._FACTS.append(h.facts)
        st = h.st
        try:
            o = h.I.call(st, cls, [], {k: K(v) for k, v in kw.items()}, None)
            return h.I.simp(st, h.I.getattr(st, o, 'threads', None))
        finally:
            T._FACTS.pop()

    probs, und = [], []
    for c in configs():
        explicit, env, cfg, imp = c
        if explicit is not None:
            continue
        rep.count('configurations')
        try:
            w = resolve(host(proj, 'log', env, cfg, imp), {})
        except (Unsup, RaiseSig) as e:
            und.append('%s: %s' % (show(*c), str(e)[:160]))
            continue
        one_ = isinstance(w, K) and w.v == 1
        many = '#cpus' in repr(w)
        if not (one_ or many):
            und.append('threads=%r' % (w,))
        elif many != want(None, env, cfg):
            probs.append((show(*c), 'FFT thread count is %s' % ('1' if one_ else 'the core count'), 'ssqueezepy/utils/fft_utils.py'))
    judge(rep, 'ssqueezepy/utils/fft_utils.py:FFT.threads', probs, und)
    # an explicit thread count is used as given
    for n in (1, 3):
        key = 'ssqueezepy/utils/fft_utils.py:FFT(threads=%d)' % n
        try:
            w = resolve(host(proj, 'log', n == 1, 1, None), {'threads': n})
        except (Unsup, RaiseSig) as e:
            rep.undecided('precedence', key, str(e)[:160])
            continue
        if isinstance(w, K) and w.v == n:
            rep.good('precedence', key)
        elif isinstance(w, K) or '#cpus' in repr(w):
            rep.violation('precedence', key, 'threads resolves to %r' % (w,), 'ssqueezepy/utils/fft_utils.py')
        else:
            rep.undecided('precedence', key, '%r' % (w,))


def fft_workers(r):
    out = []
    for e in r.ev('fft'):
        d = e.data
        if isinstance(d, tuple) and isinstance(d[-1], dict):
            w = d[-1].get('workers')
            if w is not None:
                out.append((r.I.simp(r.st, w), e))
    return out


def wav(proj, rep, name, args):
    probs, und, det = [], [], set()
    mod = '_gmw' if name == 'gmw' else 'wavelets'
    for c in configs():
        explicit, env, cfg, imp = c
        if explicit is not None:
            continue
        h = host(proj, 'log', env, cfg, imp)
        r = h.run(mod, name, dict(args))
        rep.count('configurations')
        if not r.ok:
            und.append('%s: %s' % (show(*c), r.why()[:160]))
            continue
        T._FACTS.append(h.facts)
        try:
            r.I.call(r.st, r.I.simp(r.st, r.v), [h.arr('w', 'N')], {}, None)
        except (Unsup, RaiseSig) as e:
            und.append('%s: %s' % (show(*c), str(e)[:160]))
            continue
        finally:
            T._FACTS.pop()
        decide(proj, r, c, want(None, env, cfg), probs, und, det)
    judge(rep, 'ssqueezepy/%s.py:%s%s' % (mod, name, args or ''), probs, und, ', '.join(sorted(det)))


def transform(proj, rep, t):
    probs, und, det = [], [], set()
    for c in configs():
        explicit, env, cfg, imp = c
        if explicit is not None:
            continue
        h = host(proj, 'log' if 'cwt' in t else 'linear', env, cfg, imp, psi='float32')
        x = h.arr('x', 'N')
        fn = t.split()[0]
        a = dict(x=x, fs=h.num('fs'))
        if 'cwt' in t:
            a.update(scales=h.arr('scales', 'na'), nan_checks=False)
        if fn == 'ssq_cwt':
            a['ssq_freqs'] = h.arr('sf', 'na')
        if 'stft' in t:
            a.update(window=h.arr('win', 'nf'), n_fft=h.num('nf', 'pyint'))
        if 'two' in t:
            a['get_w'] = True
        r = h.run('_' + fn, fn, a)
        rep.count('configurations')
        if not r.ok:
            und.append('%s: %s' % (show(*c), r.why()[:160]))
            continue
        b = bad_events(r, ('opaque-user',))
        if b:
            und.append('%s: %r' % (show(*c), b[0].data[:2]))
            continue
        for w, e in fft_workers(r):
            one_ = isinstance(w, K) and w.v == 1
            if (one_ or '#cpus' in repr(w)) and one_ == want(None, env, cfg):
                probs.append((show(*c), 'FFT runs with workers=%s' % ('1' if one_ else 'all cores'), where(e)[1]))
            elif one_ or '#cpus' in repr(w):
                det.add('fft workers')
        decide(proj, r, c, want(None, env, cfg), probs, und, det, need=fn != 'cwt')
    judge(rep, 'ssqueezepy/_%s.py:%s' % (t.split()[0], t), probs, und, ', '.join(sorted(det)))


def gpu_flag(proj, rep):
    """SSQ_GPU set after import takes effect, unset after import stops taking effect"""
    for imp, now in ((False, True), (True, False)):
        key = 'SSQ_GPU=%d at import, %d at the call' % (imp, now)
        h = H(proj, 'log', gpu=True, env={'SSQ_GPU': '1' if now else '0'}, import_env={'SSQ_GPU': '1' if imp else '0'})
        r = h.run('_cwt', 'cwt', dict(x=h.arr('x', 'N', lib='np'), scales=h.arr('scales', 'na'), nan_checks=False))
        if not r.ok:
            rep.undecided('call-time', key, r.why()[:160])
            continue
        W = r.I.simp(r.st, r.items()[0])
        lib = r.I.alib(r.st, W) if isinstance(W, AV) else None
        if lib not in ('t', 'np'):
            rep.undecided('call-time', key, 'result %r' % (W,))
        elif (lib == 't') != now:
            rep.violation('call-time', 'cwt: ' + key, 'cwt returns a %s' % ('tensor' if lib == 't' else 'NumPy array'), 'ssqueezepy/_cwt.py')
        else:
            rep.good('call-time', 'cwt: ' + key)


def covered(proj, rep):
    done = {(o[1], o[2]) for o in ops()}
    for n, m in sorted(proj.modules.items()):
        for f in m.tree.body:
            if isinstance(f, ast.FunctionDef) and any(a.arg == 'parallel' for a in f.args.args + f.args.kwonlyargs):
                k = (n[len('ssqueezepy.'):], f.name)
                key = '%s:%s' % (m.rel, f.name)
                if k in done:
                    rep.good('covered', key, 'analysed')
                elif f.name.startswith('_') or f.name in ('find_closest_log', 'find_closest_lin', 'warn_if_tensor_and_par'):
                    rep.good('covered', key, 'internal: reached from an analysed operation')
                else:
                    rep.undecided('covered', key, 'no model of its arguments')
