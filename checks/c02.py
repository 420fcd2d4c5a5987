"""C02: every index of the reassignment kernels stays inside its array."""
from ssqlint import terms as T
from ssqlint import interp
from ssqlint.terms import Poly, A, ONE, ZERO, sym, num
from ssqlint.kset import KernelSet, has_atom, OMAX, FACTS, BUF_FACTS
from ssqlint.bounds import Prover, lits_of

TECHNIQUE = 'interval analysis of value-numbered index expressions, per decision-tree case, with loop-counter ranges and branch conditions'
EXPLANATION = ('For every CPU and CUDA loop kernel the index terms of all writes and reads are bounded '
               'below by 0 and above by the extent of the indexed dimension, in every case of the branch '
               'conditions; the reassigned row is bounded by omax for finite frequencies, both '
               'orientations, all three grids. Accumulating kernels must exclude infinite frequencies '
               '(isinf test, or magnitude strictly above a nonnegative threshold) before using them.')
ASSUMPTIONS = ['frequencies in bins fit a 64-bit integer (|bin| < 2^62)',
               'omax = rows-1, vlmin1 = vlmin0 + idx1*dvl0, 0 <= idx1 <= omax (decided on the host side, C05)',
               'weight and row-frequency vectors have one entry per row; all 2-D arguments of one call have one shape',
               'NaN coefficients are excluded by the caller']

ROWS = {'const', 'const_arr', 'Sfs'}


def axioms(a):
    if a == ('sym', 'vlmin1'):
        return sym('vlmin0') + sym('idx1') * sym('dvl0')
    return None


def dim_of(name, axis, nd, arr_dims):
    d = arr_dims.get(name)
    if d is not None and axis < len(d):
        x = d[axis]
        if name in ROWS and isinstance(x, Poly):
            return OMAX + ONE
        return x
    if name in ROWS:
        return OMAX + ONE
    if nd == 1:
        return A(('call', 'dim', name, 0))
    if nd == 2:
        return OMAX + ONE if axis == 0 else A(('call', 'dim', '#2d', 1))
    return A(('call', 'dim', '#%dd' % nd, axis))


def run(proj, rep):
    rep.rule('lower', 'index >= 0')
    rep.rule('upper', 'index <= extent - 1')
    rep.rule('skip-infinite', 'a row computed from an infinite frequency is never used')
    rep.rule('thread-guard', 'GPU threads beyond the array return')
    ks = KernelSet(proj)
    units = list(ks.cpu.values()) + [s for l in ks.gpu.values() for s in l]
    # modules holding reassignment kernels: a row index rounded from a value
    mods = {s.mod.rel for s in units if any(e.op == '+=' and any(has_atom(i, lambda a: a[0] == 'call' and a[1] in ('round', 'trunc', 'floor'))
                                            for i in e.idx if isinstance(i, Poly)) for e in s.sum.effects)}
    for s in units:
        if s.mod.rel not in mods:
            continue
        rep.guard('upper', s.where, kernel, s, rep)
    for w, why in list(ks.undecided.items()) + list(ks.gpu_errors.items()):
        if w.split(':')[0] in mods:
            rep.undecided('upper', w, why)


def get_reads(x, out):
    def visit(a):
        if a[0] == 'get' and isinstance(a[1], str):
            out.add(a)
    T.walk(x, visit)


def kernel(s, rep):
    rep.count('kernels')
    if s.gpu:
        for t in s.threads:
            rep.count('gpu_threads')
            if t.extent is None:
                rep.violation('thread-guard', '%s %s' % (s.where, t.name), 'thread coordinate %s is used without a bound' % t.name)
            else:
                rep.good('thread-guard', '%s %s' % (s.where, t.name))
    arr_dims = {}
    buf = any(e.target == 'out' and any('s20' in str(i) or 'hop_len' in str(i) for i in e.idx if isinstance(i, Poly)) for e in s.sum.effects)
    facts = BUF_FACTS if buf else FACTS
    T._FACTS.append(facts)
    try:
        lv = s.leaves()
        seen = {}
        for asg, effs in lv:
            lits = [x for c, v in asg.items() for x in lits_of(c, v, facts)]
            lits = [T.subst(x, axioms) for x in lits]
            lits.append(OMAX - sym('idx1'))
            pr = Prover(facts, lits, axioms)
            for target, idx, op, val, loops in effs:
                acc = [(target, tuple(i for i in idx), 'write')]
                rd = set()
                for i in idx:
                    if isinstance(i, Poly):
                        get_reads(i, rd)
                get_reads(val, rd)
                for c in asg:
                    get_reads(c, rd) if isinstance(c, tuple) else None
                acc += [(a[1], a[2:], 'read') for a in rd]
                for name, ix, kind in acc:
                    check(s, rep, name, ix, kind, asg, pr, facts, seen, arr_dims, op)
                if op == '+=':
                    skip(s, rep, target, idx, asg, facts, seen)
        for (rule, desc), (ok, why, det) in seen.items():
            if ok is True:
                rep.good(rule, desc, det)
            elif ok is False:
                rep.violation(rule, desc, why, s.mod.rel)
            else:
                rep.undecided(rule, desc, why)
    finally:
        T._FACTS.pop()


def put(seen, key, ok, why='', det=''):
    cur = seen.get(key)
    if cur is None or (cur[0] is True and ok is not True) or (cur[0] is None and ok is False):
        seen[key] = (ok, why, det)


def check(s, rep, name, ix, kind, asg, pr, facts, seen, arr_dims, op):
    ix = [i for i in ix]
    nd = len(ix)
    if s.gpu and nd == 3 and isinstance(ix[-1], Poly) and ix[-1].const() in (0, 1) or \
            (nd == 3 and isinstance(ix[-1], Poly) and ix[-1].const() in (0, 1) and name in ('out', 'Tx')):
        ix = ix[:-1]
        nd = 2
    for d, i in enumerate(ix):
        if not isinstance(i, Poly):
            continue
        rep.count('index_terms')
        data = has_atom(i, lambda a: a[0] == 'get') and not has_atom(i, lambda a: a[0] == 'call' and a[1] in ('round', 'trunc', 'floor'))
        ext = dim_of(name, d, nd, arr_dims)
        if 'modulated' in s.sum.params and ('s20' in s.sum.params) and nd == 2 and name in ('out',):
            ext = sym('s20') + sym('s21') if d == 0 else sym('n_segs')
        if name.startswith('#loc'):
            a = s.sum.locals.get(name)
            if a is None or not a.dims or d >= len(a.dims):
                continue
            ext = a.dims[d]
        key = '%s %s %s[axis %d]' % (s.where, kind, name, d)
        if data:
            put(seen, ('upper', key), None, 'index loaded from memory: %s' % i)
            continue
        if has_atom(i, lambda a: a[0] == 'sym' and a[1].startswith('#s')):
            continue
        if has_atom(i, lambda a: a[0] == 'sym' and a[1] == 'hop_len') or name == 'x' and 'modulated' in s.sum.params:
            put(seen, ('upper', key), None, 'depends on the number of frames chosen by the caller (C14)')
            continue
        for rule, p in (('lower', i), ('upper', ext - ONE - i)):
            if pr.nonneg(p):
                put(seen, (rule, key), True, det=str(i)[:120])
                continue
            w = witness(p, asg, facts)
            if w is None:
                put(seen, (rule, key), None, 'not shown: %s >= 0' % str(p)[:200])
            else:
                put(seen, (rule, key), False, '%s of %s %s[axis %d] can be violated: index %s, extent %s%s'
                    % (rule + ' bound', kind, name, d, str(i)[:300], ext,
                       '' if not asg else ', when ' + ' and '.join(T.show_cond(c if v else T.cnot(c)) for c, v in asg.items())[:300]))


def witness(p, asg, facts):
    """A valuation of the atoms, consistent with the case, making p negative."""
    p = T.subst(p, axioms)
    if has_atom(p, lambda a: a[0] == 'call' and a[1] not in ('loopvar', 'dim', 'log', 'exp', 'sqrt', 'abs', 're', 'im', 'round', 'floor', 'ceil', 'trunc', 'floordiv', 'mod')):
        return None
    if has_atom(p, lambda a: a[0] == 'sym' and str(a[1]).startswith(('global:', '#carried'))):
        return None
    for v in interp.valuations(facts, 500):
        try:
            if v.atom(('sym', 'idx1')) > v.atom(('sym', 'omax')):
                continue
            ok = True
            for c, val in asg.items():
                c2 = T.subst_cond(c, axioms, facts)
                if c2 in (True, False):
                    r = c2
                else:
                    r = v.cond(c2)
                if r != val:
                    ok = False
                    break
            if not ok:
                continue
            x = v.real(p)
            if x < -1e-6:
                return v.seed
        except (interp.CantEval, OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
    return None


def skip(s, rep, target, idx, asg, facts, seen):
    freq = None
    for i in idx:
        if not isinstance(i, Poly):
            continue
        rd = []
        T.walk(i, lambda a: rd.append(a) if a[0] == 'call' and a[1] in ('round', 'trunc', 'floor') else None)
        if rd:
            freq = rd[0]
    if freq is None:
        return
    arrays = {}
    T.walk(freq, lambda a: arrays.setdefault(a[1], []).append(a) if a[0] == 'get' else None)
    key = ('skip-infinite', '%s %s' % (s.where, target))
    if 'w' in arrays and 'Wx' not in arrays:
        w = A(arrays['w'][0])
        if asg.get(('isinf', w)) is False:
            put(seen, key, True, det='isinf(w) is tested')
        elif any(c[0] == 'isinf' for c in asg):
            put(seen, key, None, 'another isinf test')
        else:
            put(seen, key, False, 'the bin is computed from w without excluding infinite w')
    elif 'Wx' in arrays:
        mag = T.fabs(A(arrays['Wx'][0]), facts)
        ok = False
        for c, v in asg.items():
            for q in lits_of(c, v, facts):
                # |Wx| - t >= 0 (strict), t >= 0
                if facts.sign(mag - q) in ('0+', '+', '0') and c[0] == 'gt0' and v:
                    ok = True
        if ok:
            put(seen, key, True, det='magnitude above threshold is tested')
        else:
            put(seen, key, None if asg else False, 'the bin is computed without testing the magnitude against the threshold')
