"""Loads and indexes the Python source under /repo (syntax only)."""
import ast
import hashlib
import os

REPO = os.environ.get('SSQ_REPO', '/repo')


class Module:
    def __init__(self, name, path, is_pkg=False, src=None):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src, path)
        self.rel = os.path.relpath(path, REPO)
        self.globals = {}       # name -> list of binding nodes, in order
        self._index(self.tree.body)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self._bind(st.name, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self._bind(a.asname or a.name.split('.')[0], ('import', a.name if a.asname else a.name.split('.')[0]))
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st.module, st.level)
                for a in st.names:
                    if a.name == '*':
                        self._bind('*', ('star', base))
                    else:
                        self._bind(a.asname or a.name, ('from', base, a.name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self._bind(n.id, st)
            elif isinstance(st, ast.Try):
                # optional imports: bindings of the handler come after the body's
                self._index(st.body)
                for h in st.handlers:
                    self._index(h.body)
                self._index(st.orelse)
                self._index(st.finalbody)
            elif isinstance(st, (ast.If, ast.With)):
                self._index(st.body)
                self._index(getattr(st, 'orelse', []))

    def _bind(self, name, node):
        self.globals.setdefault(name, []).append(node)

    def _abs(self, mod, level):
        if level == 0:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([mod] if mod else []))


class Project:
    def __init__(self, repo=None, pkg='ssqueezepy'):
        self.repo = repo or REPO
        self.absent = frozenset()        # top-level packages taken not to be installed
        self.pkg = pkg
        self.modules = {}
        root = os.path.join(self.repo, pkg)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-9]
                self.modules[rel] = Module(rel, path, is_pkg)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def extra(self, name, src):
        """The same project with one more module: reference code a check compares with."""
        import copy
        p = copy.copy(self)
        p.modules = dict(self.modules)
        full = self.pkg + '.' + name
        p.modules[full] = Module(full, os.path.join(self.repo, self.pkg, name + '.py'), src=src)
        return p

    def resolve(self, modname, name, _seen=None):
        """Follow imports: returns ('def', module, node) | ('ext', dotted) |
        ('mod', Module) | ('assign', module, node) | None."""
        seen = _seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        sub = modname + '.' + name
        binds = m.globals.get(name)
        if binds and self.absent:
            binds = [b for b in binds if not (isinstance(b, tuple) and b[0] != 'star' and (b[1] or '').split('.')[0] in self.absent)]
            if not binds:
                return ('missing', name)
        if not binds:
            if sub in self.modules:
                return ('mod', self.modules[sub])
            for b in m.globals.get('*', []):
                if b[1] in self.modules:
                    r = self.resolve(b[1], name, seen)
                    if r is not None:
                        return r
            return None
        # the first binding of an optional import wins over its fallback for naming
        b = binds[-1]
        if len(binds) > 1:
            imps = [x for x in binds if isinstance(x, tuple)]
            defs = [x for x in binds if not isinstance(x, tuple)]
            b = defs[-1] if defs and not imps else (imps[0] if imps else binds[-1])
        if isinstance(b, tuple):
            if b[0] == 'import':
                if b[1] in self.modules:
                    return ('mod', self.modules[b[1]])
                return ('ext', b[1])
            if b[0] == 'from':
                base = b[1]
                if base in self.modules:
                    r = self.resolve(base, b[2], seen)
                    if r is not None:
                        return r
                    if base + '.' + b[2] in self.modules:
                        return ('mod', self.modules[base + '.' + b[2]])
                    return None
                if base and base.split('.')[0] == self.pkg and base + '.' + b[2] in self.modules:
                    return ('mod', self.modules[base + '.' + b[2]])
                return ('ext', '%s.%s' % (base, b[2]))
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            return ('def', m, b)
        return ('assign', m, b)

    def func(self, modname, name):
        r = self.resolve(modname, name)
        return r[2] if r and r[0] == 'def' else None

    def functions(self):
        """All top-level functions as (module, node)."""
        for m in self.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef):
                    yield m, st


def dotted(e):
    """'a.b.c' of a Name/Attribute chain."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d and d + '.' + e.attr
    return None


def strip_doc(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[1:]
    return b


def jit_info(proj, mod, fn):
    """None if not jitted, else dict(parallel=bool)."""
    for d in fn.decorator_list:
        call = d.func if isinstance(d, ast.Call) else d
        name = dotted(call)
        if not name:
            continue
        r = proj.resolve(mod.name, name.split('.')[0])
        full = name
        if r and r[0] == 'ext':
            full = '.'.join([r[1]] + name.split('.')[1:])
        if full in ('numba.jit', 'numba.njit', 'numba.core.decorators.jit'):
            par = False
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == 'parallel' and isinstance(k.value, ast.Constant):
                        par = bool(k.value.value)
            return dict(parallel=par)
    return None


def functions_of(m):
    """Top-level and nested functions and methods with qualified names."""
    out = []

    def rec(body, prefix):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                out.append((prefix + st.name, st))
                rec(st.body, prefix + st.name + '.')
            elif isinstance(st, ast.ClassDef):
                rec(st.body, prefix + st.name + '.')
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    rec(getattr(st, f, []), prefix)
                for h in getattr(st, 'handlers', []):
                    rec(h.body, prefix)
    rec(m.tree.body, '')
    return out
