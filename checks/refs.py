"""Comparison of a routine with a reference written in Python: both are interpreted on the same
symbolic arguments and their value terms are compared.  Nothing is executed."""
from checks.hutil import *                                           # noqa: F401,F403
from checks import scen
from checks.scen import Sc
from ssqlint import terms as T


class Pair:
    """mod.fn(**args) against ref(**refargs); `items`: [(item of fn, item of ref), ...] (None: the value itself);
    `lits`: inequalities between arguments that hold for valid calls; `refp`: positive integers."""

    def __init__(self, label, mod, fn, args, ref, refargs=None, items=None, lits=(), shape_only=(), cut=None, **kw):
        self.label, self.mod, self.fn, self.args, self.ref, self.refargs = label, mod, fn, args, ref, refargs or args
        self.items, self.lits, self.shape_only, self.cut, self.kw = items, lits, shape_only, cut, kw


def value(r, v, k):
    v = r.I.simp(r.st, v)
    if k is None:
        return v
    its = v.items if isinstance(v, Tup) else None
    return r.I.simp(r.st, its[k]) if its is not None and k < len(its) else None


def compare(proj, pr, src):
    """[(verdict, item, text)]"""
    h1, r1 = scen.execute(proj, Sc(pr.label, pr.mod, pr.fn, pr.args, **pr.kw))
    p2 = proj.extra('_spec', src)
    h2, r2 = scen.execute(p2, Sc(pr.label, '_spec', pr.ref, pr.refargs, **pr.kw))
    if not r2.ok:
        return [('?', '', 'reference: ' + r2.why()[:200])]
    if not r1.ok:
        return [('?', '', r1.why()[:200])]
    out = []
    facts = h1.facts
    T._FACTS.append(facts)
    try:
        for a, b in (pr.items or [(None, None)]):
            lb = '' if a is None else ' item %d' % (a + 1)
            u, v = value(r1, r1.v, a), value(r2, r2.v, b)
            out.append(one(r1, u, r2, v, facts, pr) + (lb,))
    finally:
        T._FACTS.pop()
    return [(k, lb, why) for k, why, lb in out]


def asarr(r, v):
    if isinstance(v, AV):
        return r.sh(v), r.body(v)
    if isinstance(v, (Num, B)) or isinstance(v, K) and isinstance(v.v, (int, float, bool)):
        return (), r.I.P(v)
    return None


def one(r1, u, r2, v, facts, pr):
    x, y = asarr(r1, u), asarr(r2, v)
    if x is None or y is None:
        return '?', 'not a number or array: %s / %s' % (type(u).__name__, type(v).__name__)
    if len(x[0]) != len(y[0]):
        return 'ne', '%d axes instead of %d' % (len(x[0]), len(y[0]))
    for k, (p, q) in enumerate(zip(x[0], y[0])):
        w = same(p, q, facts, list(pr.lits))
        if w[0] != 'eq':
            return w[0], 'length of axis %d: %s instead of %s' % (k, short(p, 160), short(q, 160))
    if pr.shape_only:
        return 'eq', 'same shape'
    lits = list(pr.lits)
    for k, n in enumerate(y[0]):
        lits += [ix(k), n - ONE - ix(k)]
    p, q = x[1], y[1]
    if pr.cut is not None:
        p, q = pr.cut(p), pr.cut(q)
    return same(p, q, facts, lits)


_J = None


def job(i):
    proj, prs, src = _J
    return compare(proj, prs[i], src)


def run_pairs(proj, rep, rule, prs, src):
    global _J
    _J = (proj, prs, src)
    for (i,), res, err in scen.pmap(job, list(range(len(prs)))):
        p = prs[i]
        rep.count('comparisons with a reference')
        if res is None:
            rep.undecided(rule, p.label, err)
            continue
        for k, lb, why in res:
            con = p.label + lb
            if k == 'eq':
                rep.good(rule, con)
            elif k == 'ne':
                rep.violation(rule, con, why, '%s.%s' % (p.mod, p.fn))
            else:
                rep.undecided(rule, con, why)
