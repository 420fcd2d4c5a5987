"""C25: GMW kernels vanish at negative frequencies; the frequency axis is the DFT's."""
import ast
from ssqlint import terms as T
from ssqlint.terms import A, Poly, ZERO, sym
from ssqlint.kern import simplify, Array
from ssqlint.kset import KernelSet, has_atom, FACTS, Summ
from checks.c05 import spec_roles
from checks.c03 import Units, sel_leaves, flagish

TECHNIQUE = 'value numbering with case split on the sign of the frequency; normal-form comparison for the frequency axis'
EXPLANATION = ('Every function that evaluates a generalized Morse wavelet at w (serial, threaded, torch; first '
               'order and k-th order; L1 and L2 norm) is reduced to its returned term. Under w < 0 the term must '
               'reduce to exactly 0, and no logarithm or power may still see the negative w (0*nan is nan). '
               'The frequency-axis routine must equal i*h for i <= N//2 and (i-N)*h above, for even and odd N.')
ASSUMPTIONS = ['finite wavelet parameters']


def run(proj, rep):
    rep.rule('zero-at-negative', 'w < 0 gives exactly 0')
    rep.rule('nan-free', 'logs and powers do not see the negative w')
    rep.rule('frequency-axis', 'axis == i*h, (i-N)*h in the second half')
    ks = spec_roles(proj, rep, ['xifn'], 'frequency-axis')
    un = Units(proj, ks)
    fns = {}
    for m in proj.modules.values():
        if not m.rel.endswith('_gmw.py'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.IfExp) and flagish(n.test):
                for x in sel_leaves(n):
                    u = un.get(m, x)
                    if u is not None:
                        fns[x.id] = u
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef) and st.name in ks.cpu:
                fns.setdefault(st.name, ks.cpu[st.name])
    for n, u in sorted(fns.items()):
        if isinstance(u, tuple):
            rep.undecided('zero-at-negative', u[0], u[1])
            continue
        rep.count('evaluators')
        rep.guard('zero-at-negative', u.where, one, u, rep)


def one(u, rep):
    r = u.sum.ret
    if not isinstance(r, Poly):
        rep.undecided('zero-at-negative', u.where, 'no returned term')
        return
    w = sym(u.sum.params[0])
    neg = T.gt(ZERO, w, FACTS)
    asg = {neg: True, T.gt(w, ZERO, FACTS): False, T.eq(w, ZERO, FACTS): False}
    v = simplify(r, asg, FACTS)
    wat = w.atom()
    if v == ZERO:
        rep.good('zero-at-negative', u.where, 'reduces to 0')
    elif has_atom(v, lambda a: a[0] == 'call' and a[1] not in ('exp', 'log', 'sumover', 'loopvar', 'dim', 'abs')):
        rep.undecided('zero-at-negative', u.where, str(v)[:200])
    else:
        rep.violation('zero-at-negative', u.where, 'at w < 0 the value is %s' % str(v)[:300], u.mod.rel)
    bad = []

    def visit(a):
        if a[0] == 'pow' or (a[0] == 'call' and a[1] == 'log'):
            base = a[1] if a[0] == 'pow' else a[2]
            b = simplify(base, asg, FACTS)
            if has_atom(b, lambda x: x == wat) and FACTS.sign(b) not in ('+', '0+'):
                if not has_atom(b, lambda x: x[0] == 'call' and x[1] == 'abs'):
                    bad.append(b)
    T.walk(r, visit)
    if bad:
        rep.violation('nan-free', u.where, 'a log or power is taken of %s at negative w: the product with 0 is nan' % bad[0], u.mod.rel)
    else:
        rep.good('nan-free', u.where)
