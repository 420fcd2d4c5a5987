"""C01: every parallel loop nest has disjoint writes and no cross-iteration reads."""
import ast
from ssqlint import terms as T
from ssqlint.terms import Poly, ZERO, num
from ssqlint.kset import KernelSet, lin_coef, has_atom, FACTS
from ssqlint.project import functions_of, dotted

TECHNIQUE = ('dependence analysis of parallel loops over value-numbered index expressions '
             '(write disjointness, read/write distance, carried scalars, reductions)')
EXPLANATION = ('Each numba function with prange loops under parallel=True and each CUDA kernel is '
               'reduced to its array writes and reads with index terms over the loop counters. For '
               'every parallel loop L and every array written inside it: some index coordinate of the '
               'write must be k*L + (term free of L, of inner loops and of loaded data), so different '
               'iterations write different elements; each read of a written array must be of the '
               'same coordinate (own element) or differ from it by a nonzero constant in an '
               'iteration-independent coordinate; no scalar is carried around a parallel loop and '
               'no floating-point reduction is left to the threaded runtime.')
ASSUMPTIONS = ['numba executes prange iterations in any order, on any threads, everything else sequentially',
               'array arguments of one kernel call do not overlap in memory (host aliasing is C07)']


def run(proj, rep):
    rep.rule('disjoint-writes', 'two iterations of a parallel loop never write the same element')
    rep.rule('no-cross-reads', 'an iteration of a parallel loop never reads an element another one writes')
    rep.rule('no-carried-scalar', 'no scalar flows between iterations of a parallel loop')
    rep.rule('no-threaded-reduction', 'no floating-point sum is split among threads')
    ks = KernelSet(proj)
    units = list(ks.cpu.values()) + [s for l in ks.gpu.values() for s in l]
    for s in units:
        if s.gpu or s.sum.par_loops or par_flag(proj, s):
            rep.count('parallel_kernels')
            rep.guard('disjoint-writes', s.where, kernel, s, rep)
    for w, why in list(ks.undecided.items()) + list(ks.gpu_errors.items()):
        rep.undecided('disjoint-writes', w, why)
    threads(proj, rep)


def par_flag(proj, s):
    from ssqlint.project import jit_info
    i = jit_info(proj, s.mod, s.node) if isinstance(s.node, ast.FunctionDef) else None
    return bool(i and i['parallel'])


def loops_in(x):
    out = []
    T.walk(x, lambda a: out.append(a) if a[0] == 'call' and a[1] == 'loopvar' else None)
    return set(out)


def has_data(x):
    return has_atom(x, lambda a: a[0] == 'get' or (a[0] == 'sym' and str(a[1]).startswith('#')
                                                   and not str(a[1]).startswith(('#pi', '#inf'))))


def varying(e, L):
    """Counters that differ freely between two iterations of L: L itself, other parallel
    loops and every loop entered inside L."""
    at = [l.atom for l in e.loops]
    i = at.index(L.atom)
    return set(at[i:]) | {l.atom for l in e.loops if l.par}


def coord_ok(ix, L, var):
    k = lin_coef(ix, L.atom)
    if k in (0, None):
        return False
    rest = ix - T.A(L.atom).scale(k)
    return not (loops_in(rest) & var) and not has_data(rest)


def mixed_radix(ix, e, var):
    """ix = sum of c_m * L_m with c_{m+1} = c_m * trip(L_m): a flattened element number."""
    loops = [l for l in e.loops if l.atom in loops_in(ix)]
    items = []
    rest = ix
    for l in loops:
        cs = [(mono, c) for mono, c in ix.m.items() if any(a == l.atom and p == 1 for a, p in mono)]
        if len(cs) != 1:
            return False
        mono, c = cs[0]
        co = Poly({tuple((a, p) for a, p in mono if a != l.atom): c})
        if loops_in(co) or has_data(co):
            return False
        rest = rest - T.A(l.atom) * co
        items.append((l, co))
    if loops_in(rest) & var or has_data(rest):
        return False
    used = []
    step = None
    for _ in range(len(items)):
        for it in items:
            if it in used:
                continue
            if (step is None and it[1].const() in (1, -1)) or (step is not None and it[1] == step):
                used.append(it)
                step = it[1] * it[0].trip
                break
        else:
            return False
    return True


def kernel(s, rep):
    sm = s.sum
    private = lambda name, L: name in sm.locals and any(l is L for l in sm.locals[name].loops)
    effs = sm.effects
    par = []
    for e in effs:
        for l in e.loops:
            if l.par and l not in par:
                par.append(l)
    for L in par:
        inside = [e for e in effs if L in e.loops and not private(e.target, L)]
        rep.count('parallel_loops')
        for e in inside:
            rep.count('writes')
            desc = '%s write %s' % (s.where, e.target)
            var = varying(e, L)
            # slice stores cover a whole extent: the slice counter is an inner loop
            if any(isinstance(i, Poly) and coord_ok(i, L, var) for i in e.idx):
                if any(i_has_slice(i) for i in e.idx if coord_ok(i, L, var)) and not any(
                        not i_has_slice(i) and coord_ok(i, L, var) for i in e.idx):
                    rep.undecided('disjoint-writes', desc, 'slice along the parallel axis: ' + show(e))
                    continue
                rep.good('disjoint-writes', desc, 'index %s separates iterations of %s' % (ixs(e), T.show_atom(L.atom)))
                continue
            if any(isinstance(i, Poly) and L.atom in loops_in(i) and mixed_radix(i, e, var) for i in e.idx):
                rep.good('disjoint-writes', desc, 'flattened index')
                continue
            if any(has_atom(i, lambda a: a[0] == 'call' and a[1] in ('floordiv', 'mod') and L.atom in loops_in(T.A(a))) for i in e.idx if isinstance(i, Poly)):
                rep.undecided('disjoint-writes', desc, 'index split by division: ' + show(e))
                continue
            if any(not isinstance(i, Poly) for i in e.idx):
                # whole-array statement outside prange semantics
                rep.undecided('disjoint-writes', desc, 'whole-array update')
                continue
            if e.op == '=' and not (loops_in(e.value) & var) and not has_data(e.value) \
                    and not any(r.target == e.target and L in r.loops for r in sm.reads):
                rep.good('disjoint-writes', desc, 'all iterations store the same value')
                continue
            if single_iteration(e, L):
                rep.good('disjoint-writes', desc, 'one iteration only')
                continue
            rep.violation('disjoint-writes', desc,
                          'iterations of the parallel loop over %s may write the same element %s[%s]'
                          % (T.show_atom(L.atom), e.target, ixs(e)), line(s, e))
        written = {e.target for e in inside}
        for r in sm.reads:
            if L not in r.loops or r.target not in written:
                continue
            rep.count('reads')
            desc = '%s read %s' % (s.where, r.target)
            bad = None
            for w in inside:
                if w.target != r.target:
                    continue
                v = conflict(r, w, L)
                if v == 'safe':
                    continue
                bad = (v, w)
                break
            if bad is None:
                rep.good('no-cross-reads', desc, 'own element or different element of %s[%s]' % (r.target, ixs(r)))
            elif bad[0] == 'unknown':
                rep.undecided('no-cross-reads', desc, '%s vs %s' % (ixs(r), ixs(bad[1])))
            else:
                rep.violation('no-cross-reads', desc,
                              'reads %s[%s] while another iteration of %s writes %s[%s]'
                              % (r.target, ixs(r), T.show_atom(L.atom), r.target, ixs(bad[1])), line(s, r))
    for k, c, v, guard, loops, st in sm.scalars:
        lp = [l for l in loops if l.par and l.node is st]
        if not lp:
            continue
        d = v - T.A(c)
        self_ref = has_atom(d, lambda a: a == c)
        desc = '%s scalar %s' % (s.where, k)
        if not has_atom(v, lambda a: a == c):
            # overwritten each iteration: private in the loop; the value after it is the
            # last iteration's, which numba does not define
            rep.undecided('no-carried-scalar', desc, 'overwritten in each iteration')
        elif not self_ref and FACTS.is_int(d):
            rep.good('no-carried-scalar', desc, 'integer reduction')
        else:
            rep.violation('no-carried-scalar', desc,
                          '%s is carried from one iteration of the parallel loop to the next: %s' % (k, str(v)[:200]))
    if par_flag_of(s):
        for name, node, loops in sm.reductions:
            desc = '%s %s()' % (s.where, name)
            if any(l.par for l in loops):
                rep.good('no-threaded-reduction', desc, 'inside one iteration')
            else:
                rep.violation('no-threaded-reduction', desc,
                              '%s() outside prange is split among threads: its rounding depends on their number' % name)
    if not par:
        rep.good('disjoint-writes', s.where, 'no parallel loop writes memory')


def par_flag_of(s):
    for d in getattr(s.node, 'decorator_list', ()):
        if isinstance(d, ast.Call) and any(k.arg == 'parallel' and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
            return True
    return False


def single_iteration(e, L):
    """The guard pins the loop counter to one value."""
    def pins(c):
        if c[0] == 'eq0' and isinstance(c[1], Poly) and lin_coef(c[1], L.atom) not in (0, None):
            return True
        return c[0] == 'and' and any(pins(x) for x in c[1:])
    return isinstance(e.guard, tuple) and pins(e.guard)


def i_has_slice(i):
    return isinstance(i, Poly) and has_atom(i, lambda a: a[0] == 'sym' and str(a[1]).startswith('#s'))


def conflict(r, w, L):
    if len(r.idx) != len(w.idx):
        n = min(len(r.idx), len(w.idx))
    else:
        n = len(r.idx)
    simple = True
    for d in range(n):
        a, b = r.idx[d], w.idx[d]
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            simple = False
            continue
        va, vb = varying(r, L), varying(w, L)
        if a == b and coord_ok(a, L, va | vb) and not i_has_slice(a):
            return 'safe'
        diff = (a - b).const()
        free = lambda x, v: not (loops_in(x) & v) and not has_data(x) and not i_has_slice(x)
        if diff is not None and diff != 0 and free(a, va) and free(b, vb):
            return 'safe'
        if has_data(a) and not i_has_slice(a) or has_data(b) and not i_has_slice(b):
            pass
        if has_atom(a, lambda x: x[0] == 'call' and x[1] in ('floordiv', 'mod')) or has_atom(b, lambda x: x[0] == 'call' and x[1] in ('floordiv', 'mod')):
            simple = False
    return 'conflict' if simple else 'unknown'


def ixs(e):
    return ', '.join(str(i) for i in e.idx)[:300]


def show(e):
    return '%s[%s]' % (e.target, ixs(e))


def line(s, e):
    n = getattr(e.node, 'lineno', None)
    return '%s:%s' % (s.mod.rel, n) if n and not s.gpu else s.mod.rel


def threads(proj, rep):
    """Host code starts no threads of its own."""
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names = [a.name for a in n.names] + [getattr(n, 'module', '') or '']
                for x in names:
                    if x.split('.')[0] in ('threading', 'multiprocessing', 'concurrent', 'joblib', '_thread'):
                        rep.undecided('disjoint-writes', '%s import %s' % (m.rel, x), 'host threads are not analysed')
