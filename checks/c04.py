"""C04: fused squeezing == phase transform followed by squeezing (kernel composition)."""
from ssqlint import terms as T
from ssqlint import interp
from ssqlint.terms import A, Poly, Unsupported
from ssqlint.kern import Effect, leaves, consistent
from ssqlint.kset import KernelSet, FACTS, opaque, explain, canon_effects, split_complex, short
from checks.kutil import roles

TECHNIQUE = 'composition of kernel normal forms (value numbering): substitute the phase kernel into the squeezing kernel and compare with the fused kernel'
EXPLANATION = ('For each grid kind (linear, log, piecewise log) and transform, CPU serial, CPU threaded and CUDA, '
               'the writes of the fused kernel are compared, case by case, with those of the two-step '
               'squeezing kernel in which every load w[i, j] is replaced by the value the phase kernel '
               'stores there. Cases where the magnitude equals the threshold are excluded, as the property '
               'says. On the host side, public calls are interpreted in pairs and their results compared as terms: '
               'all scales at once against scale by scale (rule per-scale), and one pass against two steps, the '
               'kernel calls of both brought to one form (rule one-pass).')
ASSUMPTIONS = ['a coefficient above the threshold has a finite reassignment frequency']


def phase_value(s):
    """The term stored at (i, j) by a phase kernel, as a function of its loop counters."""
    effs = s.effects()
    assert effs and all(e.op == '=' and e.idx == effs[0].idx for e in effs)
    val = None
    lv = leaves(effs, FACTS)
    idx = effs[0].idx
    # rebuild as selections
    out = None
    for asg, res in lv:
        if len(res) != 1:
            raise Unsupported('phase kernel writes %d values in one case' % len(res))
        g = True
        for c, v in asg.items():
            g = T.cand(g, c if v else T.cnot(c))
        out = res[0][3] if out is None else T.phi(g, res[0][3], out, FACTS)
    return idx, out


def compose(sq, ph):
    idx, val = phase_value(ph)
    l0, l1 = idx[0].atom(), idx[1].atom()
    finite = []

    def f(a):
        if a[0] == 'get' and a[1] == 'w':
            return T.subst(val, lambda b: a[2] if b == l0 else (a[3] if b == l1 else None))
        return None
    out = []
    for e in sq.effects():
        g = e.guard if isinstance(e.guard, bool) else T.subst_cond(e.guard, f, FACTS)
        out.append(Effect(e.target, tuple(T.subst(i, f) if isinstance(i, Poly) else i for i in e.idx), e.op,
                          T.subst(e.value, f), g, e.loops, e.node, e.extents))
    return out


def finite_pre(effects):
    """isinf of anything but the literal infinity is false by assumption."""
    pre = {}

    def visit(a):
        if a[0] == 'isinf':
            pass
    return pre


def assume_finite(c):
    if c is True or c is False:
        return c
    if c[0] == 'not':
        return T.cnot(assume_finite(c[1]))
    if c[0] == 'and':
        return T.cand(*[assume_finite(x) for x in c[1:]])
    if c[0] == 'isinf':
        if c[1] == A(T.INF):
            return True
        at = c[1].atom()
        if at is not None and at[0] == 'phi':
            # inf exactly where the selection picks it
            def sel(p):
                t = p.atom()
                if p == A(T.INF):
                    return True
                if t is not None and t[0] == 'phi':
                    a, b = sel(t[2]), sel(t[3])
                    return T.cor(T.cand(t[1], a), T.cand(T.cnot(t[1]), b))
                return False
            return sel(c[1])
        if not any(x[0] == 'get' and x[1] == 'w' for x in c[1].atoms()):
            return False
    return c


def run(proj, rep):
    rep.rule('fused-equals-two-step', 'fused kernel == squeezing kernel after phase kernel, off the threshold')
    ks = KernelSet(proj)
    R = roles(proj, ks)
    for tr, kinds in (('cwt', ('lin', 'log', 'log_piecewise')), ('stft', ('lin',))):
        for kind in kinds:
            fr = 'ssq_cwt_' + kind if tr == 'cwt' else 'ssq_stft'
            for F in R.get(fr, []):
                for P in R.get('phase_' + tr, []):
                    for Q in R.get('indexed_sum_' + kind, []):
                        if P.gpu != F.gpu or Q.gpu != F.gpu or bool(P.sum.par_loops) != bool(F.sum.par_loops) or bool(Q.sum.par_loops) != bool(F.sum.par_loops):
                            continue
                        c = '%s ~ %s + %s' % (F.where, P.name, Q.name) + (' (CUDA)' if F.gpu else '')
                        rep.guard('fused-equals-two-step', c, pair, F, P, Q, c, rep)
    from checks import host_c04
    host_c04.run(proj, rep)


def pair(F, P, Q, c, rep):
    rep.count('compositions')
    comp = [e for e in compose(Q, P)]
    for e in comp:
        e.guard = assume_finite(e.guard)
    T._FACTS.append(FACTS)
    try:
        l1 = leaves(comp, FACTS)
        l2 = F.leaves()
    finally:
        T._FACTS.pop()
    n = 0
    for a1, r1 in l1:
        for a2, r2 in l2:
            if any(k in a2 and a2[k] != v for k, v in a1.items()):
                continue
            m = dict(a1)
            m.update(a2)
            if not consistent(m, FACTS):
                continue
            if tie(m):
                continue
            n += 1
            k1 = sorted(map(repr, (x[:4] for x in r1)))
            k2 = sorted(map(repr, (x[:4] for x in r2)))
            if k1 != k2:
                o = opaque(comp) ^ opaque(F.effects())
                d = explain(dict(assignment=m, left=r2, right=r1))
                w = values_differ(m, r1, r2)
                if w is None:
                    continue
                if o or w == 'unknown':
                    rep.undecided('fused-equals-two-step', c, d[:300])
                else:
                    rep.violation('fused-equals-two-step', c, 'one-pass and two-step results differ ' + d, F.mod.rel)
                return
    if not n:
        rep.undecided('fused-equals-two-step', c, 'no comparable case')
    else:
        rep.good('fused-equals-two-step', c, 'equal in all %d cases' % n)


def tie(m):
    """The case pins a quantity to the threshold: neither above nor below."""
    for c, v in m.items():
        if v is False and c[0] == 'gt0':
            if m.get(('gt0', -c[1])) is False:
                return True
    return False


def values_differ(m, r1, r2):
    """Valuation consistent with the case under which the writes differ."""
    ok = 0
    for v in interp.valuations(FACTS, 300):
        try:
            if any(v.cond(c) != b for c, b in m.items()):
                continue
            x = sorted((t, tuple(v.poly(i) for i in ix), op, v.poly(val)) for t, ix, op, val, _ in r1)
            y = sorted((t, tuple(v.poly(i) for i in ix), op, v.poly(val)) for t, ix, op, val, _ in r2)
        except (interp.CantEval, OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
        ok += 1
        if len(x) != len(y) or any(not interp.close(a, b) for a, b in zip(x, y)):
            return v.seed
    return None if ok else 'unknown'
