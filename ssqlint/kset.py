"""The repository's loop kernels, summarised once: CPU functions and CUDA kernels in one
normal form, with the facts that hold where they are called."""
import ast
from fractions import Fraction
from . import terms as T
from . import gpuc
from .kern import KernelAnalyzer, Array, Effect, leaves, compare
from .project import jit_info, dotted
from .terms import A, num, sym, ONE, ZERO, Poly, Unsupported

OMAX = sym('omax')

# 1-D parameters some kernels use whole, in step with a slice
WHOLE_1D = {'window'}

FACTS = T.Facts(pos=['dvl', 'dvl0', 'dvl1', 'dv'],
                nonneg=['omax', 'idx1', 'gamma'],
                ints=['omax', 'idx1'])


# names CUDA kernels give to what the CPU functions call otherwise
RENAME = {'const_arr': 'const', ('replace_under_abs', 'w'): 'x', ('replace_under_abs', 'Wx'): 'ref'}


SEG = sym('s20') + sym('s21')
BUF_FACTS = T.Facts(FACTS.pos, FACTS.nonneg | {'s20', 's21', 'n_segs', 'hop_len'},
                    FACTS.ints | {'s20', 's21', 'n_segs', 'hop_len'})


class Summ:
    """A summarised kernel with its decision tree."""
    def __init__(s, name, mod, node, summary, gpu=False, kernel=None, threads=()):
        s.name, s.mod, s.node, s.sum, s.gpu, s.kernel, s.threads = name, mod, node, summary, gpu, kernel, threads
        s._leaves = None
        s._eff = None

    @property
    def where(s):
        return '%s:%s' % (s.mod.rel, s.name)

    def leaves(s):
        if s._leaves is None:
            s._leaves = leaves(s.effects(), FACTS)
        return s._leaves

    def effects(s):
        if s._eff is None:
            # a local array whose every read was resolved to its store is a temporary
            r = s.sum.ret
            es = [e for e in s.sum.effects if not (e.target in s.sum.locals and e.target not in s.sum.kept)
                  or isinstance(r, Array) and e.target == r.name]
            if isinstance(r, Array) and r.local:
                es = [Effect('#ret' if e.target == r.name else e.target, e.idx, e.op, e.value, e.guard, e.loops, e.node, e.extents) for e in es]
            elif isinstance(r, Poly):
                es = es + [Effect('#ret', (), '=', r, True, (), s.node)]
            s._eff = canon_effects(split_complex(es), ordered=s.ordered())
        return s._eff

    def ordered(s):
        """Iterations depend on one another: some array is both written and read."""
        w = {e.target for e in s.sum.effects}
        return any(r.target in w for r in s.sum.reads if not _self_update(r, s.sum.effects))


def _self_update(r, effects):
    return any(e.target == r.target and e.idx == r.idx for e in effects)


def lin_coef(p, atom):
    """Coefficient of a loop counter in an index term, None if it occurs otherwise."""
    c = 0
    for mono, k in p.m.items():
        for a, e in mono:
            if a == atom:
                if len(mono) == 1 and e == 1:
                    c = k
                else:
                    return None
            elif has_atom(a, lambda b: b == atom):
                return None
    return c


def effect_indices(e):
    out = [i for i in e.idx if isinstance(i, Poly)]

    def visit(a):
        if a[0] == 'get':
            out.extend(x for x in a[2:] if isinstance(x, Poly))
    T.walk(e.value, visit)
    T.walk(e.guard, visit) if isinstance(e.guard, tuple) else None
    for i in list(e.idx):
        if isinstance(i, Poly):
            T.walk(i, visit)
    return out


def subst_effect(e, f):
    g = e.guard if isinstance(e.guard, bool) else T.subst_cond(e.guard, f, FACTS)
    return Effect(e.target, tuple(T.subst(i, f) if isinstance(i, Poly) else i for i in e.idx), e.op,
                  T.subst(e.value, f), g, e.loops, e.node, e.extents)


def canon_effects(effects, ordered=False):
    """Slices become loops; where iterations are independent, a loop run backwards over an
    index becomes the forward loop."""
    from .kern import Loop
    out = []
    for e in effects:
        loops = list(e.loops)
        for n, ext in enumerate(e.extents):
            occ = sum(1 for l in loops if l.trip == ext)
            at = ('call', 'loopvar', ext, occ)
            loops.append(Loop(at, ext, False, e.node))
            s_ = ('sym', '#s%d' % n)
            one = len(e.extents) == 1
            e = subst_effect(e, lambda a: A(at) if a == s_ else
                             A(('get', a[1], A(at))) if one and a[0] == 'sym' and a[1] in WHOLE_1D else None)
        e = Effect(e.target, e.idx, e.op, e.value, e.guard, tuple(loops), e.node, ())
        if not ordered:
            for l in loops:
                cs = [c for c in (lin_coef(i, l.atom) for i in effect_indices(e)) if c not in (0, None)]
                if cs and all(c == -1 for c in cs):
                    e = subst_effect(e, lambda a: l.trip - ONE - A(l.atom) if a == l.atom else None)
        out.append(e)
    return out


def has_atom(x, pred):
    hit = []
    T.walk(x, lambda a: hit.append(1) if pred(a) else None)
    return bool(hit)


def whole(q, how):
    """The integer bound a counter meets at q."""
    if all(Fraction(c).denominator == 1 for c in q.m.values()):
        return q
    return A(('call', how, q))


def domain_form(lv, facts):
    """Writes regrouped by the region of the target they fill: conditions on a loop counter
    become bounds.  {flags: {(target, axis bounds, op, value)}}; raises Unsupported."""
    out = {}
    for asg, effs in lv:
        flags = frozenset((c, v) for c, v in asg.items() if not has_atom(c, lambda a: a[0] == 'call' and a[1] == 'loopvar'))
        cons = [(c, v) for c, v in asg.items() if has_atom(c, lambda a: a[0] == 'call' and a[1] == 'loopvar')]
        for target, idx, op, val, loops in effs:
            for d, ix in enumerate(idx):
                lvs = [l for l in loops if lin_coef(ix, l) not in (0,)]
                if len(lvs) != 1 or lin_coef(ix, lvs[0]) != 1:
                    raise Unsupported('index form')
            dims = []
            f_all = {}
            for d, ix in enumerate(idx):
                L = [l for l in loops if lin_coef(ix, l)][0]
                c0 = ix - A(L)
                lo, hi = ZERO, L[2]
                for c, v in cons:
                    if c[0] != 'gt0' or lin_coef(c[1], L) in (0, None):
                        if c[0] != 'gt0' or lin_coef(c[1], L) is None:
                            raise Unsupported('condition form')
                        continue
                    k = lin_coef(c[1], L)
                    q = c[1] - A(L).scale(k)
                    if k == -1:          # q - L > 0
                        if v:
                            hi = T.fmin([hi, whole(q, 'ceil')], facts)
                        else:
                            lo = T.fmax([lo, whole(q, 'ceil')], facts)
                    elif k == 1:         # L + q > 0
                        if v:
                            lo = T.fmax([lo, ONE + whole(ZERO - q, 'floor')], facts)
                        else:
                            hi = T.fmin([hi, ONE + whole(ZERO - q, 'floor')], facts)
                    else:
                        raise Unsupported('condition form')
                u = sym('#u%d' % d)
                f_all[L] = u - c0
                dims.append((c0 + lo, c0 + hi))
            v2 = T.subst(val, lambda a: f_all.get(a))
            out.setdefault(flags, set()).add((target, tuple(dims), op, v2))
    return out


KNOWN_CALLS = {'loopvar', 'dim', 'log', 'exp', 'sqrt', 'abs', 're', 'im', 'round', 'floor', 'ceil', 'trunc',
               'floordiv', 'mod', 'min', 'argmin', 'sumover', 'sum'}


def opaque(effects):
    """Names of uninterpreted things in a summary."""
    out = set()

    def visit(a):
        if a[0] == 'call' and a[1] not in KNOWN_CALLS:
            out.add('call %s' % a[1])
        if a[0] == 'sym' and str(a[1]).startswith(('global:', '#carried', '#acc')):
            out.add(str(a[1]))
        if a[0] == 'flag' and isinstance(a[1], Poly) and (a[1].atom() is None or a[1].atom()[0] != 'sym'):
            out.add('condition ' + str(a[1]))
    for e in effects:
        for i in e.idx:
            if isinstance(i, Poly):
                T.walk(i, visit)
        T.walk(e.value, visit)
        if isinstance(e.guard, tuple):
            T.walk(e.guard, visit)
    return out


def same_kernel(a, b):
    """('equal', how) | ('differ', text) | ('unknown', why)"""
    from . import interp
    l1 = l2 = None
    try:
        l1, l2 = a.leaves(), b.leaves()
        d, n = compare(l1, l2, FACTS)
    except Unsupported as e:
        d, n = str(e), 0
    if d is None and not a.effects() and not b.effects():
        return 'unknown', 'no effects to compare'
    if d is None:
        k1 = {(e.target, frozenset(l.atom for l in e.loops)) for e in a.effects()}
        k2 = {(e.target, frozenset(l.atom for l in e.loops)) for e in b.effects()}
        if k1 == k2:
            return 'equal', 'normal forms agree in all %d cases' % n
        d = 'the writes are repeated over different loops: %s / %s' % (k1 - k2, k2 - k1)
        return 'unknown', d
    try:
        f1, f2 = domain_form(l1, BUF_FACTS), domain_form(l2, BUF_FACTS)
        T._FACTS.append(BUF_FACTS)
        try:
            f1 = {k: merge_regions(v) for k, v in f1.items()}
            f2 = {k: merge_regions(v) for k, v in f2.items()}
        finally:
            T._FACTS.pop()
        if f1 == f2:
            return 'equal', 'the same regions get the same values'
        if all(len(v) for v in f1.values()) and set(f1) == set(f2) and len(f1) > 0:
            for k in f1:
                if f1[k] != f2[k]:
                    x, y = sorted(map(str, f1[k] - f2[k])), sorted(map(str, f2[k] - f1[k]))
                    if regions_agree(f1[k] - f2[k], f2[k] - f1[k], BUF_FACTS):
                        continue
                    if not (opaque(a.effects()) ^ opaque(b.effects())):
                        return 'differ', 'regions written: %s / %s' % (x, y)
                    break
            else:
                return 'equal', 'the same cells get the same values for every sampled size'
    except (Unsupported, TypeError):
        pass
    o = opaque(a.effects()) ^ opaque(b.effects())
    r = interp.effects_differ(a.effects(), b.effects(), FACTS)
    if r is None:
        return 'equal', 'equal under random interpretation'
    if r == 'unknown':
        return 'unknown', 'terms differ and cannot be valued'
    if o:
        return 'unknown', 'uninterpreted: %s' % sorted(o)
    return 'differ', explain(d) + '  (valuation %s: %s / %s)' % (r[0], r[1], r[2])


def regions_agree(r1, r2, facts, n=40):
    """The two sets of regions give the same values to the same cells, for sampled array lengths."""
    import itertools
    import random
    from . import interp
    sizes = {}

    def size(a):
        if a[0] == 'sym' or a[:2] == ('call', 'dim'):
            sizes[a] = None
    for r in (*r1, *r2):
        for b in r[1]:
            for x in b:
                T.walk(x, size)
    ok = 0
    for seed in range(n):
        g = random.Random(repr(seed))
        env = {a: g.randint(1, 8) for a in sorted(sizes, key=repr)}

        def cells(regs):
            out = {}
            for target, dims, op, val in regs:
                v = interp.Valuation(seed, False, facts)
                v.memo.update(env)
                spans = [range(round(v.real(lo)), round(v.real(hi))) for lo, hi in dims]
                for ix in itertools.product(*spans):
                    w = interp.Valuation(seed, False, facts)
                    w.memo.update(env)
                    w.memo.update({sym('#u%d' % d).atom(): float(i) for d, i in enumerate(ix)})
                    y = w.poly(val)
                    out.setdefault((target, ix, op), []).append(y)
            return out
        try:
            c1, c2 = cells(r1), cells(r2)
        except (interp.CantEval, OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError):
            continue
        if set(c1) != set(c2):
            return False
        for k in c1:
            if len(c1[k]) != len(c2[k]) or not all(interp.close(x, y) for x, y in zip(sorted(c1[k], key=repr), sorted(c2[k], key=repr))):
                return False
        ok += bool(c1)
    return ok >= 8


def merge_regions(regs):
    """Drop empty regions, join adjacent ones holding the same value."""
    regs = {r for r in regs if not any(lo == hi for lo, hi in r[1])}
    changed = True
    while changed:
        changed = False
        for r in list(regs):
            for q in list(regs):
                if r is q or r[0] != q[0] or r[2:] != q[2:] or len(r[1]) != len(q[1]):
                    continue
                diff = [d for d in range(len(r[1])) if r[1][d] != q[1][d]]
                if len(diff) == 1 and r[1][diff[0]][1] == q[1][diff[0]][0]:
                    dims = list(r[1])
                    dims[diff[0]] = (r[1][diff[0]][0], q[1][diff[0]][1])
                    regs -= {r, q}
                    regs.add((r[0], tuple(dims), *r[2:]))
                    changed = True
                    break
            if changed:
                break
    return regs


def explain(d):
    if isinstance(d, str):
        return d
    return 'when %s: one writes {%s}, the other {%s}' % (
        ' and '.join(short(T.show_cond(c if v else T.cnot(c))) for c, v in d['assignment'].items()),
        '; '.join('%s[%s] %s %s' % (t, ', '.join(short(str(i)) for i in ix), op, short(str(v))) for t, ix, op, v, _ in d['left']) or 'nothing',
        '; '.join('%s[%s] %s %s' % (t, ', '.join(short(str(i)) for i in ix), op, short(str(v))) for t, ix, op, v, _ in d['right']) or 'nothing')


def short(s):
    import re
    s = s.replace('loopvar((omax + 1),0)', 'i').replace('loopvar(dim(#2d,1),0)', 'j').replace('(omax + 1)', 'M').replace('dim(#2d,1)', 'N')
    return s if len(s) < 300 else s[:300] + '...'


def split_complex(effects):
    """A complex store becomes its two component stores, as the CUDA kernels spell it."""
    out = []
    for e in effects:
        if isinstance(e.value, Poly) and T.is_complex(e.value) and all(isinstance(i, Poly) for i in e.idx) and e.op in ('=', '+='):
            re, im = T.re_im(e.value)
            out.append(Effect(e.target, tuple(e.idx) + (ZERO,), e.op, re, e.guard, e.loops, e.node, e.extents))
            out.append(Effect(e.target, tuple(e.idx) + (ONE,), e.op, im, e.guard, e.loops, e.node, e.extents))
        else:
            out.append(e)
    return out


class KernelSet:
    def __init__(self, proj):
        self.proj = proj
        self.cpu = {}        # name -> Summ
        self.gpu = {}        # kernel name -> list of Summ
        self.undecided = {}  # where -> reason
        self.kernels = []    # (mod, owner, node, Kernel)
        self.extra, self.extra_why = host_extra(proj)
        self.gpu_errors = {}
        self._load()

    def analyzer(self, shape_omax=True):
        K = KernelAnalyzer(self.proj, FACTS)
        if shape_omax:
            K.dim_subst = {(2, 0): OMAX + ONE}
        return K

    def summ(self, m, st, names=None):
        """Summary of a CPU function; `names` renames its parameters (old -> new)."""
        names = names or {}
        K = self.analyzer()
        K.mod = m
        pn = [names.get(a.arg, a.arg) for a in st.args.args]
        args = {}
        back = {v: k for k, v in names.items()}
        if {'s20', 's21', 'seg_len', 'n_segs'} <= set(pn):
            # buffer() makes s20 + s21 == seg_len (checked on the host side)
            args = {back.get('seg_len', 'seg_len'): SEG, back.get('out', 'out'): Array('out', dims=(SEG, sym('n_segs')))}
            K.facts = BUF_FACTS
        if names:
            nd = K._index_arity(st)
            for a in st.args.args:
                n = names.get(a.arg, a.arg)
                if a.arg in args:
                    continue
                if nd.get(a.arg):
                    args[a.arg] = Array(n, dims=K._dims(n, nd[a.arg]))
                else:
                    args[a.arg] = sym(n)
        s = K.summarize(m, st, args=args)
        s.params = pn
        return Summ(st.name, m, st, s)


    def _load(self):
        for m in self.proj.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef) and jit_info(self.proj, m, st):
                    try:
                        self.cpu[st.name] = self.summ(m, st)
                    except Unsupported as e:
                        self.undecided['%s:%s' % (m.rel, st.name)] = str(e)
                    except RecursionError:
                        self.undecided['%s:%s' % (m.rel, st.name)] = 'too deep'
            for owner, node, text in gpuc.kernel_strings(m):
                try:
                    k = gpuc.parse_kernel(text)
                    self.kernels.append((m, owner, node, k))
                except gpuc.CError as e:
                    self.gpu_errors['%s:%s' % (m.rel, owner)] = str(e)
                    continue
                try:
                    fn, th = gpuc.to_function(k, self.extra)
                    K = self.analyzer()
                    K.gpu = True
                    args = {}
                    dims = {'__ph_M': OMAX + ONE, '__ph_N': A(('call', 'dim', '#2d', 1)),
                            '__ph_W': sym('n_segs'), '__ph_L': SEG}
                    K.mod = m
                    K.facts = T.Facts(BUF_FACTS.pos, BUF_FACTS.nonneg, BUF_FACTS.ints | {p.name for p in k.params if p.ctype == 'int'})
                    if {'s20', 's21', 'seg_len'} <= {p.name for p in k.params}:
                        args['seg_len'] = SEG
                    for p in k.params:
                        if p.dims:
                            d = p.dims
                            if len(d) > 1 and isinstance(d[-1], ast.Constant) and d[-1].value == 2:
                                d = d[:-1]
                            args[p.name] = Array(RENAME.get((k.name, p.name), RENAME.get(p.name, p.name)), dims=tuple(self._dim(x, dims) for x in d))
                    for p in k.placeholders:
                        key = '__ph_' + p
                        if key in dims:
                            args[key] = dims[key]
                    s = K.summarize(m, fn, args=args, par=True)
                    self.gpu.setdefault(k.name, []).append(Summ(k.name, m, node, s, True, k, th))
                except (Unsupported, gpuc.CError, KeyError) as e:
                    self.undecided['%s:%s(cuda %s)' % (m.rel, owner, k.name)] = str(e)

    def _dim(self, e, dims):
        if isinstance(e, ast.Name):
            return dims.get(e.id, sym(e.id))
        if isinstance(e, ast.Constant):
            return num(e.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self._dim(e.left, dims), self._dim(e.right, dims)
            return a + b if isinstance(e.op, ast.Add) else a - b
        raise Unsupported('array extent')


def host_extra(proj):
    """The statement host code fills `${extra}` with, as  if flipud: <statement>."""
    found = []
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            cand = None
            if isinstance(n, ast.keyword) and n.arg == 'extra':
                cand = n.value
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == 'extra':
                cand = n.value
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == 'extra':
                        cand = v
            if cand is not None:
                found.append((m, cand))
    if len(found) != 1:
        return None, 'expected one value for ${extra}, found %d' % len(found)
    m, v = found[0]
    if isinstance(v, ast.Name):
        defs = [n for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == v.id]
        if len(defs) == 1:
            v = defs[0].value
    if not isinstance(v, ast.IfExp):
        return None, 'unrecognised ${extra}'

    def text(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.JoinedStr):
            out = ''
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                elif isinstance(p, ast.FormattedValue) and isinstance(p.value, ast.Name):
                    out += '${%s}' % p.value.id
                elif isinstance(p, ast.FormattedValue) and isinstance(p.value, ast.BinOp) :
                    t = ast.unparse(p.value)
                    import re
                    out += '(' + re.sub(r'\b([A-Z])\b', r'${\1}', t) + ')'
                else:
                    return None
            return out
        return None
    a, b = text(v.body), text(v.orelse)
    if a is None or b is None:
        return None, 'unrecognised ${extra}'
    try:
        pa = gpuc.Parser('{' + a + '}')
        pa.ptrs = set()
        pa.ctypes = {'k': 'int'}
        pa.expect('{')
        A_ = pa.block()
        pb = gpuc.Parser('{' + b + '}')
        pb.ptrs = set()
        pb.ctypes = {'k': 'int'}
        pb.expect('{')
        B_ = pb.block()
    except gpuc.CError as e:
        return None, str(e)
    tr = gpuc._Names(None)
    A_ = [tr.visit(x) for x in A_]
    B_ = [tr.visit(x) for x in B_]
    st = ast.If(test=v.test, body=A_ or [ast.Pass()], orelse=B_)
    ast.fix_missing_locations(st)
    return [st], None
