"""C18: CPU-only installations never run into GPU-only code."""
import ast
import os
from checks.hutil import *
from checks.hutil import H
from checks import scen
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig
from ssqlint.project import Project, functions_of, dotted

TECHNIQUE = 'effect/reachability analysis: abstract interpretation of every public function with the optional packages resolved to their fallbacks'
EXPLANATION = ('The whole package is resolved as it is bound when torch, cupy and pyfftw fail to import: names bound by the failing imports are missing unless a '
               'handler or an earlier binding supplies them, and the fallback objects have only the attributes their classes define. Every public '
               'function is then interpreted on symbolic NumPy inputs for a table of option combinations; reaching a missing name, a missing attribute of a '
               'fallback, or an import of an absent package (outside a handler that catches it) is a violation, with its call path. Import statements and '
               'all code executed at import time are checked separately.')
ASSUMPTIONS = ['numpy, numba, scipy and the standard library are installed, nothing else is']
OPTIONAL = ('torch', 'cupy', 'pyfftw')
REQUIRED = ('numpy', 'numba', 'scipy')


def post(s, h, r):
    ev = []
    for e in r.I.events:
        if e.kind == 'absent' and not e.data[1]:
            ev.append((e.data[0], where(e), list(e.stack)))
        elif e.kind == 'unbound' and e.data in OPTIONAL + ('cp',):
            ev.append(('%s is imported on another path only' % e.data, where(e), list(e.stack)))
    return r.why(), ev, r.ok or r.exc is not None, len({f for e in r.I.events for f in e.stack})


def catching(t):
    return any(h.type is None or any(n in ast.unparse(h.type) for n in ('ImportError', 'ModuleNotFoundError')) or ast.unparse(h.type) in ('Exception', 'BaseException') for h in t.handlers)


def imports(proj, rep, stdlib):
    """every import statement executed when the package is imported"""
    n = 0
    for m in proj.modules.values():
        def rec(body, guarded):
            nonlocal n
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    names = [a.name for a in s.names] if isinstance(s, ast.Import) else [m._abs(s.module, s.level) or '']
                    for nm in names:
                        root = nm.split('.')[0]
                        if root == proj.pkg or root in stdlib or root in REQUIRED:
                            continue
                        n += 1
                        c = '%s: import %s' % (m.name, nm)
                        if guarded:
                            rep.good('import-guarded', c, 'inside a try statement that handles the failing import')
                        else:
                            rep.violation('import-guarded', c, 'executed at import, fails when %s is not installed' % root, '%s:%d' % (m.rel, s.lineno))
                elif isinstance(s, ast.Try):
                    rec(s.body, guarded or catching(s))
                    for h in s.handlers:
                        rec(h.body, guarded)
                    rec(s.orelse, guarded)
                    rec(s.finalbody, guarded)
                elif isinstance(s, (ast.If, ast.With, ast.For, ast.While)):
                    rec(s.body, guarded)
                    rec(getattr(s, 'orelse', []), guarded)
                elif isinstance(s, ast.ClassDef):
                    rec(s.body, guarded)
        rec(m.tree.body, False)
    rep.count('optional import sites', n)


def import_time(m):
    """(expression, guarded) evaluated while the module is imported"""
    out = []

    def fn(s, g):
        for d in s.decorator_list:
            out.append((d, g))
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
            out.append((d, g))

    def rec(body, g):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn(s, g)
            elif isinstance(s, ast.ClassDef):
                out.extend((d, g) for d in s.decorator_list + s.bases)
                rec(s.body, g)
            elif isinstance(s, ast.Try):
                g2 = g or any(h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException') for h in s.handlers)
                optional = any(isinstance(x, (ast.Import, ast.ImportFrom)) and catching(s) for x in s.body)
                rec([x for x in s.body], g2 or optional)      # skipped or caught once the import fails
                for h in s.handlers:
                    rec(h.body, g)
                rec(s.orelse, g or optional)
                rec(s.finalbody, g)
            elif isinstance(s, (ast.If, ast.While)):
                out.append((s.test, g))
                rec(s.body, g)
                rec(s.orelse, g)
            elif isinstance(s, (ast.For, ast.With)):
                rec(s.body, g)
            elif not isinstance(s, (ast.Import, ast.ImportFrom)):
                out.append((s, g))
    rec(m.tree.body, False)
    return out


def loads(e):
    """Name/Attribute loads outside nested function bodies"""
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            continue
        if isinstance(x, (ast.Name, ast.Attribute)):
            yield x
        stack.extend(ast.iter_child_nodes(x))


def module_level(proj, rep):
    h = H(proj)
    n = 0
    for m in proj.modules.values():
        for e, g in import_time(m):
            for x in loads(e):
                base = x.value if isinstance(x, ast.Attribute) else x
                if not isinstance(base, ast.Name):
                    continue
                r = proj.resolve(m.name, base.id)
                if not (r and (r[0] == 'missing' or r[0] == 'assign' and isinstance(x, ast.Attribute) and optional_name(proj, m, base.id))):
                    continue
                n += 1
                c = '%s: %s' % (m.name, ast.unparse(x))
                bad = None
                if r[0] == 'missing':
                    bad = '%s is not bound when its import fails' % base.id
                else:
                    try:
                        with h.ctx():
                            v = h.I.glob(h.st, m, base.id)
                            h.I.getattr(h.st, v, x.attr, x)
                    except RaiseSig as ex:
                        bad = '%s raises %s on the fallback' % (ast.unparse(x), ex.exc)
                    except Unsup as ex:
                        rep.undecided('import-time', c, str(ex))
                        continue
                if bad and not g:
                    rep.violation('import-time', c, 'evaluated at import: ' + bad, '%s:%d' % (m.rel, x.lineno))
                else:
                    rep.good('import-time', c, 'guarded' if bad else 'the fallback supplies it')
    rep.count('import-time uses of optional packages', n)


def optional_name(proj, m, name):
    """is the name bound (possibly through re-exports) by an import of an optional package?"""
    ab, proj.absent = proj.absent, frozenset()
    try:
        r = proj.resolve(m.name, name)
    finally:
        proj.absent = ab
    return bool(r and r[0] == 'ext' and r[1].split('.')[0] in OPTIONAL)


def sites(proj, rep):
    """count of the places in function bodies that name an optional package"""
    n = 0
    for m in proj.modules.values():
        for qn, f in functions_of(m):
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and optional_name(proj, m, x.id):
                    n += 1
    rep.count('uses of optional packages in function bodies', n)


def run(proj, rep):
    import sys
    rep.rule('import-guarded', 'an import of a package that is not required is inside a try statement handling ImportError')
    rep.rule('import-time', 'code executed at import uses only what the fallbacks of optional packages supply')
    rep.rule('cpu-only', 'no public call with NumPy input reaches a name, attribute or import that needs torch, cupy or pyfftw')
    proj = Project(proj.repo, proj.pkg)
    proj.absent = frozenset(OPTIONAL)
    imports(proj, rep, set(sys.stdlib_module_names))
    module_level(proj, rep)
    sites(proj, rep)
    ss = scen.all_scens(rep.tier, [g for g in scen.GROUPS if g not in ('gpu',)])
    for s, v, err in scen.run_all(proj, ss, post):
        if err:
            rep.undecided('cpu-only', s.label, err)
            continue
        why, ev, done, nf = v
        if ev:
            for what, (c, at), stack in ev:
                rep.violation('cpu-only', '%s: %s' % (c, what), '%s reaches code that needs a package that is not installed: %s; call path %s' % (s.label, what, ' > '.join(stack)), at)
        elif done:
            rep.good('cpu-only', s.label, why)
        else:
            rep.undecided('cpu-only', s.label, why)
    rep.count('calls interpreted', len(ss))
