"""Reference definitions the properties give for the loop kernels.  Read as syntax only:
each is summarised by the same analysis as the code under check."""
import ast
from .project import Project, Module
from .kset import KernelSet, Summ, same_kernel, SEG, BUF_FACTS, FACTS
from .kern import Array
from .terms import sym, Unsupported

_BODY_FUSED = '''
def {name}(Wx, dWx, {sfs}out, const, gamma, {params}, omax, flipud):
    for i in range(Wx.shape[0]):
        for j in range(Wx.shape[1]):
            if abs(Wx[i, j]) > gamma:
                w = {w}
{bin}
                if flipud:
                    k = omax - k
                out[k, j] += Wx[i, j] * const[i]
'''
_BODY_SUM = '''
def {name}(Wx, w, out, const, {params}, omax, flipud):
    for i in range(Wx.shape[0]):
        for j in range(Wx.shape[1]):
            if not isinf(w[i, j]):
                v = w[i, j]
{bin}
                if flipud:
                    k = omax - k
                out[k, j] += Wx[i, j] * const[i]
'''
_BODY_FC = '''
def {name}(a, out, {params}, omax):
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            {skip}
                v = a[i, j]
{bin}
                out[i, j] = k
'''
BINS = {
    'lin': ('vmin, dv', ['k = min(max(round((VAR - vmin) / dv), 0), omax)']),
    'log': ('vlmin, dvl', ['k = min(max(round((log2(VAR) - vlmin) / dvl), 0), omax)']),
    'log_piecewise': ('vlmin0, vlmin1, dvl0, dvl1, idx1',
                      ['if log2(VAR) > vlmin1:',
                       '    k = min(round((log2(VAR) - vlmin1) / dvl1) + idx1, omax)',
                       'else:',
                       '    k = max(round((log2(VAR) - vlmin0) / dvl0), 0)']),
}
PHASE_CWT = 'abs((dWx[i, j] / Wx[i, j]).imag / (2 * pi))'
PHASE_STFT = 'abs(Sfs[i] - (dWx[i, j] / Wx[i, j]).imag / (2 * pi))'


def _bin(kind, var):
    return '\n'.join(' ' * 16 + l.replace('VAR', var) for l in BINS[kind][1])


SRC = {}
for _k in BINS:
    SRC['ssq_cwt_' + _k] = _BODY_FUSED.format(name='ssq_cwt_' + _k, sfs='', params=BINS[_k][0], w=PHASE_CWT, bin=_bin(_k, 'w'))
    SRC['indexed_sum_' + _k] = _BODY_SUM.format(name='indexed_sum_' + _k, params=BINS[_k][0], bin=_bin(_k, 'v'))
    SRC['find_closest_' + _k] = _BODY_FC.format(name='find_closest_' + _k, params=BINS[_k][0], bin=_bin(_k, 'v'),
                                                skip='if not isinf(a[i, j]):' if _k == 'log_piecewise' else 'if True:')
SRC['ssq_stft'] = _BODY_FUSED.format(name='ssq_stft', sfs='Sfs, ', params=BINS['lin'][0], w=PHASE_STFT, bin=_bin('lin', 'w'))
SRC['indexed_sum'] = '''
def indexed_sum(a, k, out):
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[k[i, j], j] += a[i, j]
'''
SRC['phase_cwt'] = '''
def phase_cwt(Wx, dWx, out, gamma):
    for i in range(Wx.shape[0]):
        for j in range(Wx.shape[1]):
            out[i, j] = inf if abs(Wx[i, j]) < gamma else %s
''' % PHASE_CWT
SRC['phase_stft'] = '''
def phase_stft(Wx, dWx, Sfs, out, gamma):
    for i in range(Wx.shape[0]):
        for j in range(Wx.shape[1]):
            out[i, j] = inf if abs(Wx[i, j]) < gamma else %s
''' % PHASE_STFT
SRC['xifn'] = '''
def xifn(scale, N, dtype=None):
    xi = zeros(N)
    for i in range(N // 2 + 1):
        xi[i] = i * scale * 2 * pi / N
    for i in range(N // 2 + 1, N):
        xi[i] = (i - N) * scale * 2 * pi / N
    return xi
'''
SRC['overlap_add'] = '''
def overlap_add(x, xbuf, window, hop_len, n_fft):
    for i in range(xbuf.shape[1]):
        for j in range(n_fft):
            x[i * hop_len + j] += xbuf[j, i] * window[j]
'''
SRC['window_norm'] = '''
def window_norm(wn, window, hop_len, n_fft, win_exp):
    for i in range((len(wn) - n_fft) // hop_len + 1):
        for j in range(n_fft):
            wn[i * hop_len + j] += window[j] ** (win_exp + 1)
'''
SRC['buffer'] = '''
def buffer(x, out, seg_len, n_segs, hop_len, s20, s21, modulated):
    for i in range(n_segs):
        if modulated:
            for j in range(s20):
                out[j, i] = x[i * hop_len + s21 + j]
            for j in range(s21):
                out[s20 + j, i] = x[i * hop_len + j]
        else:
            for j in range(s20 + s21):
                out[j, i] = x[i * hop_len + j]
'''
SRC['penalty_fw'] = '''
def penalty_fw(penalized_energy, penalty_matrix):
    for t in range(1, penalized_energy.shape[1]):
        for f in range(penalized_energy.shape[0]):
            penalized_energy[f, t] += amin(penalized_energy[:, t - 1] + penalty_matrix[f, :])
'''
SRC['penalty_bw'] = '''
def penalty_bw(e, penalty_matrix, pen_e, ridge_idxs_fw, eps):
    for t in range(e.shape[1] - 2, -1, -1):
        v = pen_e[ridge_idxs_fw[t + 1], t + 1] - e[ridge_idxs_fw[t + 1], t + 1]
        for f in range(e.shape[0]):
            if abs(v - (pen_e[f, t] + penalty_matrix[ridge_idxs_fw[t + 1], f])) < eps:
                ridge_idxs_fw[t] = f
'''
_HEAD = 'from numpy import inf, pi, log2, isinf, zeros, amin\n'


class SpecSet:
    """Summaries of the reference definitions."""
    def __init__(self, ks):
        self.ks = ks
        self.cache = {}

    def get(self, name):
        if name not in self.cache:
            m = Module.__new__(Module)
            m.name, m.path, m.is_pkg, m.rel = 'ssqlint.spec', '<spec>', False, 'spec'
            m.src = _HEAD + SRC[name]
            m.tree = ast.parse(m.src)
            m.globals = {}
            m._index(m.tree.body)
            self.ks.proj.modules[m.name] = m
            try:
                fn = m.tree.body[-1]
                self.cache[name] = self.ks.summ(m, fn)
            finally:
                del self.ks.proj.modules[m.name]
        return self.cache[name]

    def check(self, name, s):
        """('equal'|'differ'|'unknown', text) of a summary against reference `name`."""
        sp = self.get(name)
        spp = list(sp.sum.params)
        if s.gpu:
            known = set(spp) | {'const', 'flipud'}
            arrays = {e.target for e in s.sum.effects} | {r.target for r in s.sum.reads}
            odd = {a for a in arrays if a not in known and not a.startswith('#')}
            if odd:
                return 'unknown', 'parameters %s are not in the reference' % sorted(odd)
            return same_kernel(sp, s)
        pp = list(s.sum.params)
        if set(pp) != set(spp):
            if len(pp) != len(spp):
                return 'unknown', 'parameters %s / %s' % (pp, spp)
            try:
                s = self.ks.summ(s.mod, s.node, names=dict(zip(pp, spp)))
            except (Unsupported, RecursionError) as e:
                return 'unknown', str(e)
        elif pp != spp:
            # same names, another order: only sound when called by keyword
            pass
        return same_kernel(sp, s)
