"""C17: each CUDA launch agrees with the kernel it launches."""
import ast
import itertools
from checks.hutil import *
from checks.hutil import H
from ssqlint import gpuc
from ssqlint.flow_np import Ptr
from ssqlint.bounds import Prover
from ssqlint.terms import Facts

TECHNIQUE = 'abstract interpretation of every GPU route to its launch; the launch configuration is matched against the parsed CUDA source'
EXPLANATION = ('Every route to a CUDA launch is interpreted with symbolic tensors (both precisions, 1-D and batched, all grids). '
               'Each launch must: fill every placeholder of the kernel text, name the kernel it contains, pass one argument per parameter, '
               'pass addresses of contiguous arrays of the element type and shape the parameter declares, pass scalars of the declared type, '
               'use a legal block, and start at least as many threads per axis as the kernel guards for.')
ASSUMPTIONS = ['CuPy passes Python int/float/bool as int64/float64/bool and arrays as addresses; a narrower integer parameter reads the low bytes (little endian)',
               'tensors supplied by the caller are contiguous', 'no GPU here: launches are decided from source only']

ELEM = {'float': 'float32', 'double': 'float64', 'int': 'int32', 'long': 'int64', 'long long': 'int64', 'unsigned int': 'uint32', 'bool': 'bool'}


def scenarios(proj):
    """(label, kind, module, function, args(h))"""
    out = []
    for p in (32, 64):
        z, f = 'complex%d' % (2 * p), 'float%d' % p

        def sq(h, kind, const, stft=False, z=z, f=f, two=False):
            c = {'scalar': lambda: h.num('c', 'pyfloat'), 'np': lambda: h.arr('c', 'na', dt=f),
                 't': lambda: h.arr('c', 'na', dt=f, lib='t')}[const]()
            d = dict(Wx=h.arr('W', 'na', 'N', dt=z, lib='t'), ssq_freqs=h.arr('sf', 'na'), const=c, logscale=kind != 'linear')
            if two:
                d['w'] = h.arr('w', 'na', 'N', dt=f, lib='t')
            else:
                d.update(dWx=h.arr('dW', 'na', 'N', dt=z, lib='t'), gamma=h.num('gamma', 'pyfloat'))
                d['Sfs'] = h.arr('Sfs', 'na', dt=f, lib='t') if stft else NONE
            return d
        for kind in ('linear', 'log', 'log-piecewise'):
            for const in ('scalar', 'np', 't'):
                for fl in (False, True):
                    nm = '%s, %s const, flipud=%s, %s' % (kind, const, fl, z)
                    out.append(('ssqueeze_fast (cwt, %s)' % nm, kind, 'algos', 'ssqueeze_fast',
                                lambda h, k=kind, c=const, fl=fl, sq=sq: dict(sq(h, k, c), flipud=fl)))
                    out.append(('indexed_sum_onfly (%s)' % nm, kind, 'algos', 'indexed_sum_onfly',
                                lambda h, k=kind, c=const, fl=fl, sq=sq: dict(sq(h, k, c, two=True), flipud=fl)))
                    if kind == 'linear':
                        out.append(('ssqueeze_fast (stft, %s)' % nm, kind, 'algos', 'ssqueeze_fast',
                                    lambda h, k=kind, c=const, fl=fl, sq=sq: dict(sq(h, k, c, stft=True), flipud=fl)))
        out.append(('phase_cwt (%s)' % z, 'log', '_ssq_cwt', 'phase_cwt', lambda h, z=z: dict(
            Wx=h.arr('W', 'na', 'N', dt=z, lib='t'), dWx=h.arr('dW', 'na', 'N', dt=z, lib='t'), gamma=h.num('gamma', 'pyfloat'))))
        out.append(('phase_stft (%s)' % z, 'log', '_ssq_stft', 'phase_stft', lambda h, z=z, f=f: dict(
            Sx=h.arr('W', 'na', 'N', dt=z, lib='t'), dSx=h.arr('dW', 'na', 'N', dt=z, lib='t'), Sfs=h.arr('Sfs', 'na', dt=f, lib='t'), gamma=h.num('gamma', 'pyfloat'))))
        out.append(('replace_under_abs (%s)' % z, 'log', 'algos', 'replace_under_abs', lambda h, z=z, f=f: dict(
            x=h.arr('w', 'na', 'N', dt=f, lib='t'), ref=h.arr('W', 'na', 'N', dt=z, lib='t'), value=h.num('gamma', 'pyfloat'), replacement=h.num('rep', 'pyfloat'))))
        for nd in (1, 2):
            for mod in (False, True):
                out.append(('buffer (%d-D, modulated=%s, %s)' % (nd, mod, f), 'log', 'utils.stft_utils', 'buffer', lambda h, nd=nd, mod=mod, f=f: dict(
                    x=h.arr('x', *(('N',) if nd == 1 else ('B', 'N')), dt=f, lib='t'), seg_len=h.num('nf', 'pyint'), n_overlap=h.num('ov', 'pyint'), modulated=mod)))
    for kind in ('log', 'log-piecewise'):
        for two in (False, True):
            for nd in (1, 2):
                out.append(('ssq_cwt (%s%s, %d-D)' % (kind, ', get_w' if two else '', nd), kind, '_ssq_cwt', 'ssq_cwt', lambda h, two=two, nd=nd: dict(
                    x=h.arr('x', *(('N',) if nd == 1 else ('B', 'N')), lib='t'), scales=h.arr('scales', 'na'), ssq_freqs=h.arr('sf', 'na'),
                    fs=h.num('fs'), get_w=two, nan_checks=False)))
    for two in (False, True):
        for nd in (1, 2):
            for fn in ('ssq_stft', 'stft'):
                if fn == 'stft' and two:
                    continue
                out.append(('%s (%s%d-D)' % (fn, 'get_w, ' if two else '', nd), 'linear', '_' + fn, fn, lambda h, two=two, nd=nd, fn=fn: dict(
                    x=h.arr('x', *(('N',) if nd == 1 else ('B', 'N')), lib='t'), window=h.arr('win', 'nf'), n_fft=h.num('nf', 'pyint'),
                    fs=h.num('fs'), **(dict(get_w=two) if fn == 'ssq_stft' else {}))))
    return out


def run(proj, rep):
    rep.rule('placeholders', 'every placeholder of the kernel text is filled')
    rep.rule('name', 'the function requested is the kernel of the text')
    rep.rule('arity', 'one argument per kernel parameter')
    rep.rule('argument', 'argument type, shape and layout are those of the parameter')
    rep.rule('grid', 'threads started cover the extent the kernel guards, with a legal block')
    rep.rule('reached', 'every kernel text of the package is launched by an analysed route')
    seen = set()
    agg = {}
    for label, kind, mod, fn, mk in scenarios(proj):
        rep.guard('reached', label, one, proj, rep, label, kind, mod, fn, mk, seen, agg)
    for (rule, key), (st, why, wh, n) in agg.items():
        if st == 'bad':
            rep.violation(rule, key, '%s (%d routes)' % (why, n), wh)
        elif st == '?':
            rep.undecided(rule, key, why)
        else:
            rep.good(rule, key, '%d routes' % n)
    for name, m in sorted(proj.modules.items()):
        for code in kernel_texts(m):
            try:
                k = gpuc.parse_kernel(code)
            except gpuc.CError as e:
                rep.undecided('reached', '%s kernel' % m.rel, str(e))
                continue
            key = '%s: %s' % (m.rel, k.name)
            if code in seen:
                rep.good('reached', key)
            else:
                rep.undecided('reached', key, 'no analysed route launches it')


def kernel_texts(m):
    for c in gpuc.kernel_strings(m):
        yield next(x for x in (c if isinstance(c, tuple) else (c,)) if isinstance(x, str) and "void" in x)


def put(agg, rule, key, st, why='', wh=''):
    cur = agg.get((rule, key))
    rank = {'ok': 0, '?': 1, 'bad': 2}
    if cur is None or rank[st] > rank[cur[0]]:
        agg[(rule, key)] = (st, why, wh, 1 if cur is None or cur[0] != st else cur[3] + 1)
    else:
        agg[(rule, key)] = cur[:3] + (cur[3] + (cur[0] == st),)


def one(proj, rep, label, kind, mod, fn, mk, seen, agg):
    h = H(proj, kind, gpu=True, pos=('nf', 'ov', 'hop'), ints=('nf', 'ov'),
          models={('algos', '_ensure_nonzero_nonnegative'): lambda I, st, d, node: d['x']})
    r = h.run(mod, fn, mk(h))
    rep.count('routes')
    if not r.ok:
        rep.undecided('reached', label, r.why()[:200])
        return
    ls = r.ev('launch')
    for e in r.ev('opaque-user'):
        rep.undecided('reached', label, 'not followed: %r' % (e.data[:2],))
        break
    if not ls:
        rep.undecided('reached', label, 'no launch on this route')
        return
    for e in ls:
        rep.count('launches')
        T._FACTS.append(h.facts)
        try:
            launch(rep, label, h, r, e, seen, agg)
        finally:
            T._FACTS.pop()


def val(r, v):
    """Poly of a scalar value or None"""
    v = r.I.simp(r.st, v)
    try:
        return r.I.P(v)
    except Exception:
        return None


def launch(rep, label, h, r, e, seen, agg):
    code, kw, name, grid, block, args = e.data
    k = gpuc.parse_kernel(code)
    seen.add(code)
    wh = where(e)[1]
    base = k.name
    fill = {q: r.I.simp(r.st, v) for q, v in (kw or {}).items()}

    miss = sorted(set(k.placeholders) - set(fill))
    put(agg, 'placeholders', base, 'bad' if miss else 'ok', '%s: %s not filled' % (label, ', '.join(miss)), wh)
    put(agg, 'name', base, 'ok' if name == k.name else 'bad', '%s: %r requested' % (label, name), wh)
    if len(args) != len(k.params):
        put(agg, 'arity', base, 'bad', '%s: %d arguments for %d parameters' % (label, len(args), len(k.params)), wh)
        return
    put(agg, 'arity', base, 'ok')

    def ctype(t):
        for q, v in fill.items():
            t = t.replace('${%s}' % q, str(v.v) if isinstance(v, K) else '?').replace('$' + q, str(v.v) if isinstance(v, K) else '?')
        return ' '.join(w for w in t.split() if w not in ('const', 'unsigned', '__restrict__'))

    def ext(n):
        """extent expression of the kernel text -> Poly"""
        if isinstance(n, ast.Constant):
            return num(n.value)
        if isinstance(n, ast.Name):
            if n.id.startswith('__ph_'):
                v = fill.get(n.id[5:])
                return None if v is None else val(r, v)
            for p, a in zip(k.params, args):
                if p.name == n.id:
                    return val(r, a)
            return None
        if isinstance(n, ast.BinOp):
            a, b = ext(n.left), ext(n.right)
            if a is None or b is None:
                return None
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
        return None

    for p, v in zip(k.params, args):
        v = r.I.simp(r.st, v)
        key = '%s %s' % (base, p.name)
        st, why = argument(r, h, p, v, ctype(p.ctype), ext, list(e.pc or ()) + list(r.st.pc or ()))
        put(agg, 'argument', key, st, '%s: %s' % (label, why), wh)

    coverage(rep, label, h, r, k, grid, block, ext, agg, wh, list(fill.values()))


def argument(r, h, p, v, ct, ext, pc):
    el = ELEM.get(ct)
    if isinstance(v, NONE.__class__) and v == NONE:
        return 'bad', 'None is passed'
    if p.ptr or p.dims:
        av = v.av if isinstance(v, Ptr) else v
        if not isinstance(av, AV):
            if isinstance(v, (K, Num)):
                return 'bad', 'a scalar (%r) is passed where the kernel takes an address' % (v,)
            return '?', 'argument %r' % (v,)
        lib = r.I.alib(r.st, av)
        dt = r.I.adt(r.st, av)
        sh = [s if isinstance(s, Poly) else num(s) for s in r.I.ashape(r.st, av)]
        if dt in ('complex64', 'complex128'):
            sh = sh + [num(2)]
            dt = {'complex64': 'float32', 'complex128': 'float64'}[dt]
        if el is None or dt is None:
            return '?', 'element type %s for %s' % (dt, ct)
        if dt != el:
            return 'bad', 'array of %s passed for %s' % (dt, ct)
        if isinstance(v, Ptr) and lib not in ('t', 'cp', None) and lib != 'np':
            return 'bad', 'host array (%s) passed' % lib
        c = contiguous(r, av)
        if c is not None:
            return c
        dims = [d for d in (p.dims or [])]
        if not dims:
            return 'ok', ''
        if not sh and len(dims) == 1:
            q = ext(dims[0])
            if q is not None and any(c == ('eq0', q - ONE) or c == ('eq0', ONE - q) for c in pc):
                return 'ok', 'one element'
            if any('eq0' in repr(c) for c in pc):
                return '?', 'a 0-d array for %s under a size condition' % p.name
        if len(dims) != len(sh):
            return 'bad', 'array with axes (%s) passed for %s%s' % (', '.join(short(s) for s in sh), p.name, ''.join('[%s]' % ast.unparse(d) for d in dims))
        for i, (d, s) in enumerate(zip(dims, sh)):
            q = ext(d)
            if q is None:
                return '?', 'declared extent %s' % ast.unparse(d)
            a, w = same(q, s, h.facts)
            if a == 'ne':
                return 'bad', 'axis %d has %s entries, the kernel declares %s' % (i, short(s), short(q))
            if a != 'eq':
                return '?', 'axis %d: %s vs %s' % (i, short(s), short(q))
        return 'ok', ''
    # by-value scalar
    if isinstance(v, (Ptr,)):
        return 'bad', 'an address is passed for a scalar %s' % ct
    if isinstance(v, AV):
        sh = r.I.ashape(r.st, v)
        return ('bad', 'an array is passed for a scalar %s' % ct) if len(sh) or r.I.alib(r.st, v) != 'np' or True else ('ok', '')
    if isinstance(v, K):
        d = {bool: 'bool', int: 'int64', float: 'float64', complex: 'complex128'}.get(type(v.v))
    elif isinstance(v, Num):
        d = {'pyint': 'int64', 'pyfloat': 'float64', 'pycomplex': 'complex128'}.get(v.dt, v.dt)
    elif isinstance(v, B):
        d = 'bool'
    else:
        return '?', 'argument %r' % (v,)
    if el is None or d is None:
        return '?', '%s for %s' % (d, ct)
    ints = ('int64', 'int32', 'bool', 'int16', 'int8', 'uint32', 'uint8')
    if d == el or (d in ints and el in ints and (int(''.join(c for c in d if c.isdigit()) or 8) >= int(''.join(c for c in el if c.isdigit()) or 8))):
        return 'ok', ''
    return 'bad', '%s passed for %s %s' % (d, ct, p.name)


def contiguous(r, av):
    if r.st.heap[av.h].lay:
        return 'bad', 'the result of an FFT along a leading axis is passed by address without being made contiguous'
    if av.maps is None:
        return None
    bsh = r.st.heap[av.h].sh
    n = len(r.I.ashape(r.st, av))
    if len(av.maps) < n:
        return None if False else ('?', 'layout of a reshaped view')
    lead = len(av.maps) - n
    for i, m in enumerate(av.maps[lead:]):
        if m != ix(i):
            # the trailing axes permuted: address arithmetic of the kernel no longer matches
            if any(m == ix(j) for j in range(n)):
                return 'bad', 'a transposed view is passed by address'
            off = m - ix(i)
            if any(a[0] == 'ix' for a in atoms_of(off, lambda a: True)):
                return '?', 'layout of a strided view'
            if i and same(off, ZERO, r.I.facts)[0] == 'ne':
                return 'bad', 'a column slice is passed by address'
    for i, s in enumerate(r.I.ashape(r.st, av)):
        b = bsh[lead + i]
        if i and same(b if isinstance(b, Poly) else num(b), s if isinstance(s, Poly) else num(s), r.I.facts if hasattr(r.I, 'facts') else None)[0] == 'ne':
            return 'bad', 'a column slice is passed by address'
    return None


def coverage(rep, label, h, r, k, grid, block, ext, agg, wh, kwvals):
    _, threads = gpuc.to_function(k)
    g = [val(r, x) for x in r.I.iter_all(r.st, r.I.simp(r.st, grid))]
    b = [val(r, x) for x in r.I.iter_all(r.st, r.I.simp(r.st, block))]
    prod = ONE
    for x in b:
        prod = prod * x
    c = prod.const()
    key = '%s block' % k.name
    put(agg, 'grid', key, 'ok' if c is not None and 0 < c <= 1024 else '?' if c is None else 'bad', '%s: block of %s threads' % (label, c), wh)
    for t in threads:
        i = 'xyz'.index(t.axis)
        key = '%s %s' % (k.name, t.name)
        if t.extent is None:
            put(agg, 'grid', key, 'bad', 'thread coordinate %s is not bounded' % t.name, wh)
            continue
        E = ext(t.extent)
        if E is None:
            put(agg, 'grid', key, '?', 'extent %s' % ast.unparse(t.extent))
            continue
        G = g[i] if i < len(g) else ONE
        Bk = b[i] if i < len(b) else ONE
        if G is None or Bk is None:
            put(agg, 'grid', key, '?', 'grid')
            continue
        a = G.atom()
        inner = None
        if a is not None and a[0] == 'call' and a[1] == 'ceil':
            inner = a[2]
        low = inner * Bk if isinstance(inner, Poly) else G * Bk
        multiple = any(low == E * x for x in [val(r, v) for v in kwvals] if x is not None)     # extent times a size, sizes are >= 1
        if multiple or covered_by_sizes(low - E, h) or Prover(h.facts, []).nonneg(low - E) or same(low, E, h.facts)[0] == 'eq':
            put(agg, 'grid', key, 'ok')
            continue
        # low = E * (something at least one)
        bad = refute(G * Bk - E, h)
        if bad:
            put(agg, 'grid', key, 'bad', '%s: %s threads along %s for an extent of %s when %s' % (label, short(G * Bk), t.axis, short(E), bad), wh)
        elif bad is None:
            put(agg, 'grid', key, '?', '%s threads vs %s' % (short(G * Bk), short(E)))
        else:
            put(agg, 'grid', key, 'ok')


def refute(p, h):
    """sizes making p negative: text; False if p = E*(nonneg) is evidently nonnegative; None if open"""
    syms = sorted({a[1] for a in atoms_of(p, lambda a: a[0] == 'sym')})
    if not syms or len(syms) > 6:
        return None
    for vals in itertools.product((1, 2, 33, 1500, 4099), repeat=min(len(syms), 6)):
        d = dict(zip(syms, vals))
        if 'ov' in d and 'nf' in d and d['ov'] >= d['nf'] or ('nf' in d and 'N' in d and d['nf'] > d['N']):
            continue
        q = T.subst(p, lambda a: num(d[a[1]]) if a[0] == 'sym' and a[1] in d else None)
        c = q.const()
        if c is None:
            return None
        if c < 0:
            return ', '.join('%s=%d' % i for i in d.items())
    return None


def covered_by_sizes(p, h):
    """p >= 0 because, with every size written 1 + s (s >= 0), all its coefficients are nonnegative"""
    sizes = set(h.facts.pos) & set(h.facts.ints)
    out = ZERO
    for mono, c in p.m.items():
        t = num(c)
        for a, e in mono:
            if e != int(e) or e < 0:
                return False
            x = A(a)
            if a[0] == 'sym':
                if a[1] not in sizes:
                    return False
                x = ONE + x
            elif not (a[0] == 'call' and a[1] == 'floordiv'):   # floordiv: a count of whole frames, the signal holds one
                return False
            for _ in range(int(e)):
                t = t * x
        out = out + t
    return all(c >= 0 for c in out.m.values())
