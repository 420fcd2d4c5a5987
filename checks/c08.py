"""C08: temporarily changed shared state is restored however the call ends."""
import ast
from checks.hutil import *
from checks.hutil import H
from checks import scen
from ssqlint.flow import Unsup, RaiseSig
from ssqlint import terms as T

TECHNIQUE = 'typestate analysis: abstract interpretation of every path, with an exceptional exit simulated at every call and raise site (finally blocks, handlers and context managers applied)'
EXPLANATION = ('The wavelet object a caller passes and the global FFT object are tracked through each call. At every normal return their observable '
               'attributes (N, xi, dtype, fn, config; patience, planning_timelimit, threads, ...) are compared with those before the call; at every call '
               'site and raise statement reached while one of them differs, the state in which an exception starting there would leave the call '
               '(through the enclosing finally blocks, except handlers and context managers of every active frame) is computed and compared as well. '
               'FFT settings are symbolic, so restoring a constant instead of the saved value is seen.')
ASSUMPTIONS = ['attributes whose name marks them as a cache of the wavelet are not compared (C09)', 'exceptions do not start inside the property setters that make or undo the change, except by an explicit raise',
               'asynchronous exceptions between two statements are not considered']
WAV = ('N', 'xi', 'dtype', 'fn', 'config')
FFT = ('patience', 'planning_timelimit', 'cache_fft_objects', 'wisdom_dir', 'verbose')
HARMLESS = {'isinstance', 'len', 'hasattr', 'getattr', 'bool', 'tuple', 'slice', 'type', 'str', 'repr', 'print', 'WARN', 'NOTE', 'range', 'list', 'dict', 'enumerate', 'zip', 'id', 'callable', 'setattr'}


def fft_model(kind):
    """the transform itself, whatever planner computes it"""
    def m(I, st, d, node):
        kw = {'axis': d['axis']} if d.get('axis') is not None else {}
        if kind == 'irfft' and d.get('n') is not None:
            kw['n'] = d['n']
        return I.lib.call(st, 'scipy.fft.' + kind, [d['x']], kw, node)
    return m


FFTS = {('utils.fft_utils', 'FFT.' + k): fft_model(k) for k in ('fft', 'ifft', 'rfft', 'irfft')}


class Track:
    """observable attributes of the tracked objects"""

    def __init__(self, h, objs):
        self.h, self.objs, self.I = h, objs, h.I
        self.raw0 = {n: self.raw(h.st, o) for n, (o, _) in objs.items()}
        self.base = {n: {a: self.get(h.st, o, a) for a in attrs} for n, (o, attrs) in objs.items()}
        self.hits = []
        self.open = []
        self.points = 0
        self.seen = set()

    def raw(self, st, o):
        c = st.heap[o.h]
        return {k: v for k, v in c.attrs.items() if not k.startswith('_Psih')}

    def get(self, st, o, a):
        I = self.I
        I.faulting += 1
        ne = len(I.events)
        try:
            v = I.simp(st, I.getattr(st, o, a, None))
            return self.val(st, v)
        except RaiseSig as e:
            return ('raises', e.exc)
        finally:
            I.faulting -= 1
            del I.events[ne:]

    def val(self, st, v):
        I = self.I
        if isinstance(v, AV):
            return ('array', I.ashape(st, v), I.abody(st, v), I.adt(st, v))
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, DictC):
                return ('dict', tuple((k, self.val(st, I.simp(st, x))) for k, x in c.d.items()))
            return ('ref', v.h)
        if isinstance(v, K):
            return ('const', v.v)
        if isinstance(v, Num):
            return ('num', v.p)
        if isinstance(v, Phi):
            return ('phi', v.c, self.val(st, v.a), self.val(st, v.b))
        if isinstance(v, Fn):
            return ('fn', v.name)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.val(st, x) for x in v.items)
        return ('other', repr(v))

    def dirty(self, st):
        out = []
        for n, (o, attrs) in self.objs.items():
            r, r0 = self.raw(st, o), self.raw0[n]
            if len(r) == len(r0) and all(k in r0 and r[k] is r0[k] for k in r):
                continue
            for a in attrs:
                v = self.get(st, o, a)
                if not self.eq(v, self.base[n][a]):
                    out.append((n, a, v, self.base[n][a]))
        return out

    def eq(self, v, w):
        if v == w:
            return True
        if isinstance(v, tuple) and isinstance(w, tuple) and v and w:
            if v[0] in ('num', 'const') and w[0] in ('num', 'const'):
                p, q = [x[1] if x[0] == 'num' else (num(x[1]) if isinstance(x[1], (int, float)) and not isinstance(x[1], bool) else None) for x in (v, w)]
                return p is not None and q is not None and same(p, q, self.h.facts, [])[0] != 'ne'
            if v[0] == 'array' and w[0] == 'array' and len(v[1]) == len(w[1]):
                return all(same(p, q, self.h.facts, [])[0] != 'ne' for p, q in zip(v[1] + (v[2],), w[1] + (w[2],))) and v[3] == w[3]
            if v[0] == 'phi':
                return self.eq(v[2], w) and self.eq(v[3], w)
        return False

    def watch(self, st, node, kind):
        I = self.I
        if kind == 'done':                # a call that puts things back is no exit of its own
            for i, (nd, stack, h0) in enumerate(reversed(self.open)):
                if nd is node and stack == tuple(I.stack):
                    del self.open[len(self.open) - 1 - i:]
                    if h0:
                        d = {(n, a) for n, a, _, _ in self.dirty(st)}
                        self.hits = [x for x in self.hits if not (any(x is y for y in h0) and x[:2] not in d)]
                    break
            return
        if kind == 'call':
            self.open.append([node, tuple(I.stack), []])
            if isinstance(node.func, ast.Name) and node.func.id in HARMLESS:
                return
            if any(self.is_setter(fr) for fr in I.frames):
                return
            if any(g[2] == 'final' for fr in I.frames for g in fr.guards):
                return
        key = (tuple(I.stack), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), kind)
        if key in self.seen:
            return
        self.seen.add(key)
        if any(o.h not in st.heap for o, _ in self.objs.values()) or not self.dirty(st):
            return
        self.points += 1
        try:
            s = I.exc_exit(st)
        except (Unsup, RaiseSig) as e:
            return
        if s is None:
            return
        for n, a, v, w in self.dirty(s):
            mod = I.frames[-1].mod.rel if I.frames else ''
            hit = (n, a, kind, I.stack[-1] if I.stack else '', ast.unparse(node)[:80], '%s:%s' % (mod, getattr(node, 'lineno', 0)), short(v, 80), short(w, 80), list(I.stack))
            self.hits.append(hit)
            if kind == 'call':
                self.open[-1][2].append(hit)

    def is_setter(self, fr):
        n = getattr(fr, 'node', None)
        return isinstance(n, ast.FunctionDef) and any(ast.unparse(d).endswith('.setter') for d in n.decorator_list)


def one(proj, mod, fn, lbl, dims, kind, opt, hk):
    h = H(proj, kind, 'float32', models={**scen.SCALES, **scen.ADM, **FFTS, **hk.get('models', {})}, **{k: v for k, v in hk.items() if k != 'models'})
    with h.ctx():
        a = {k: (v(h) if callable(v) else scen.val(h, v)) for k, v in opt.items()}
        F = h.glob('utils.fft_utils', 'FFT_GLOBAL')
        c = h.st.heap[F.h]
        at = dict(c.attrs)
        for k, v in list(at.items()):
            if k.lstrip('_') == 'patience':
                at[k] = Num(sym('P0'), 'pyint')
            elif k == 'planning_timelimit':
                at[k] = Num(sym('L0'), 'pyint')
        h.st.heap[F.h] = InstC(c.cls, at, c.sym, c.org)
        objs = {'FFT_GLOBAL': (F, [x for x in FFT])}
        if 'wavelet' in opt and isinstance(a['wavelet'], Ref):
            objs['wavelet'] = (a['wavelet'], WAV)
        tr = Track(h, objs)
        h.I.watch = tr.watch
    try:
        r = h.run(mod, fn, a)
    finally:
        h.I.watch = None
    with h.ctx():
        end = []
        if r.ok:
            for n, at, v, w in tr.dirty(r.st):
                end.append((n, at, short(v, 80), short(w, 80)))
    return r.why(), r.ok or r.exc is not None, tr.hits, end, tr.points, len(tr.seen)


def table(tier):
    W = lambda h: scen.wavelet_obj(h)
    WM = lambda h: scen.wavelet_obj(h, 'morlet')
    out = []
    pyfftw = dict(models={})
    for dims in (('N',), ('B', 'N')):
        x = (lambda h, dims=dims: h.arr('x', *dims, dt='float32'))
        for o in (dict(), dict(derivative=True), dict(vectorized=False), dict(vectorized=False, derivative=True), dict(cache_wavelet=True), dict(padtype=None), dict(padtype='wrap'),
                  dict(rpadded=True), dict(l1_norm=True, order=0), dict(nan_checks=True), dict(patience=lambda h: h.num('P', 'pyint')), dict(patience=lambda h: Tup([h.num('P', 'pyint'), h.num('L', 'pyint')])),
                  dict(patience=7), dict(patience='x'), dict(scales=scen.scales_arr), dict(scales=lambda h: Opq(sym('bad'))), dict(astensor=False),
                  dict(fs=lambda h: h.num('fs', 'pyfloat')), dict(t=lambda h: h.arr('t', 'N')), dict(wavelet=WM), dict(wavelet='gmw'), dict(wavelet='gmw', order=1),
                  dict(order=1), dict(order=(0, 1)), dict(l1_norm=False), dict(derivative=True, cache_wavelet=True)):
            for kind in ('log', 'linear'):
                if kind != 'log' and o:
                    continue
                d = dict(x=x, wavelet=W, scales=K(kind))
                d.update(o)
                out.append(('_cwt', 'cwt', '%d-D %s%s' % (len(dims), kind, lab(o)), dims, kind, d, {}))
        for o in (dict(), dict(get_w=True), dict(padtype=None), dict(vectorized=False), dict(difftype='numeric', get_w=True), dict(order=1), dict(patience=7), dict(ssq_freqs='linear'), dict(maprange='maximal'),
                  dict(maprange='energy'), dict(squeezing='lebesgue')):
            if len(dims) == 2 and 'get_w' in o:
                continue
            d = dict(x=x, wavelet=W, scales=K('log'))
            d.update(o)
            out.append(('_ssq_cwt', 'ssq_cwt', '%d-D%s' % (len(dims), lab(o)), dims, 'log', d, {}))
        d = dict(x=x, n_fft=lambda h: h.num('nf', 'pyint'))
        for o in (dict(), dict(derivative=True), dict(modulated=False)):
            out.append(('_stft', 'stft', '%d-D%s' % (len(dims), lab(o)), dims, 'linear', {**d, **o}, {}))
        out.append(('_ssq_stft', 'ssq_stft', '%d-D' % len(dims), dims, 'linear', dict(d), {}))
    for o in (dict(), dict(one_int=False), dict(l1_norm=False)):
        out.append(('_cwt', 'icwt', lab(o), (), 'log', dict(Wx=lambda h: h.arr('Wx', 'na', 'N', dt='complex64'), wavelet=W, scales=K('log'), **o), {}))
    out.append(('_ssq_cwt', 'issq_cwt', '', (), 'log', dict(Tx=lambda h: h.arr('Tx', 'na', 'N', dt='complex64'), wavelet=W), {}))
    out.append(('_ssq_stft', 'issq_stft', '', (), 'linear', dict(Tx=lambda h: h.arr('Tx', 'na', 'N', dt='complex64')), {}))
    out.append(('_stft', 'istft', '', (), 'linear', dict(Sx=lambda h: h.arr('Sx', 'na', 'N', dt='complex64')), {}))
    out.append(('utils.cwt_utils', 'process_scales', '', (), 'log', dict(scales=K('log'), N=lambda h: h.num('N', 'pyint'), wavelet=W), {}))
    for kind in ('log', 'linear', 'log-piecewise'):
        for mr in ('maximal', 'peak', 'energy'):
            out.append(('ssqueezing', '_compute_associated_frequencies', '%s, %s' % (kind, mr), (), kind,
                        dict(scales=scen.scales_arr, N=lambda h: h.num('N', 'pyint'), wavelet=W, ssq_scaletype=K(kind), maprange=K(mr), dt=lambda h: h.num('dt', 'pyfloat'), was_padded=K(True), transform=K('cwt')), {}))
    for f in ('freq_resolution', 'time_resolution'):
        out.append(('wavelets', f, '', (), 'log', dict(wavelet=W, N=lambda h: h.num('N', 'pyint')), {}))
    out.append(('experimental', 'phase_ssqueeze', '', (), 'log', dict(Wx=lambda h: h.arr('Wx', 'na', 'N', dt='complex128'), dWx=lambda h: h.arr('dWx', 'na', 'N', dt='complex128'), get_w=K(True), transform=K('cwt'),
                                                                      scales=scen.scales_arr, ssq_freqs=lambda h: h.arr('ssq_freqs', 'na'), wavelet=W, difftype=K('trig')), {}))
    return out


def lab(o):
    return ''.join(', %s=%s' % (k, '...' if callable(v) else v) for k, v in o.items())


def run(proj, rep):
    rep.rule('restored-on-return', 'observable attributes of the passed wavelet and of FFT_GLOBAL are the same after the call as before it')
    rep.rule('restored-on-exception', 'an exception starting at any call or raise site while they differ leaves the call with them restored')
    items = table(rep.tier)
    n = m = 0
    for it, v, err in scen.pmap(lambda *a: one(proj, *a), items):
        mod, fn, lbl = it[:3]
        c = '%s(%s)' % (fn, lbl.strip(', '))
        if err:
            rep.undecided('restored-on-return', c, err)
            continue
        why, done, hits, end, pts, sites = v
        n += pts
        m += sites
        for o, a, k, f, text, at, v1, v0, stack in hits:
            rep.violation('restored-on-exception', '%s: %s.%s' % (fn, o, a),
                          '%s: an exception in %s at `%s` (call path %s) leaves %s.%s = %s, before the call %s' % (c, f, text, ' > '.join(stack), o, a, v1, v0), at)
        for o, a, v1, v0 in end:
            rep.violation('restored-on-return', '%s: %s.%s' % (fn, o, a), '%s returns with %s.%s = %s, before the call %s' % (c, o, a, v1, v0), mod)
        if not done:
            rep.undecided('restored-on-return', c, why)
            continue
        if not end:
            rep.good('restored-on-return', c, why)
        if not hits:
            rep.good('restored-on-exception', c, '%d points reached with changed state, %d sites in all' % (pts, sites))
    rep.count('exit points simulated', n)
    rep.count('call and raise sites reached', m)
