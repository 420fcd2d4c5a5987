"""Persistent stores: where a function keeps a value for a later call, and under what key.

A value kept in a dict that outlives the call (module global, mutable default, attribute) must be keyed by
everything of the arguments it is computed from; a value kept in a bare global behind an `if` that tests the
same global is keyed by nothing.  Dependences are per parameter, and tell the data of an array from its
shape and dtype; calls to functions of the project are followed."""
import ast
from .project import dotted, functions_of, jit_info

META = {'shape', 'dtype', 'ndim', 'size', 'itemsize', 'device', '__class__', 'nbytes'}
METAFN = {'len', 'isinstance', 'type', 'id', 'callable', 'hasattr'}
MEMO = {'functools.lru_cache', 'functools.cache', 'functools.cached_property', 'cupy.memoize'}


class Fun:
    def __init__(self, mod, qual, node, cls):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.locals = set(self.params)
        self.globs = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                self.globs |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                self.locals.add(n.name)
        self.locals -= self.globs


def classes(proj):
    return {m.name + '.' + st.name: (m, st) for m in proj.modules.values() for st in m.tree.body if isinstance(st, ast.ClassDef)}


def all_funs(proj):
    out = []
    for m in proj.modules.values():
        cl = {st.name for st in m.tree.body if isinstance(st, ast.ClassDef)}
        for q, node in functions_of(m):
            c = q.split('.')[0]
            out.append(Fun(m, q, node, c if c in cl else None))
    return out


class Deps:
    """Flow-insensitive dependences of names of a function on its parameters: {(param, 'data'|'meta')}, '?' for calls not followed."""

    def __init__(self, proj):
        self.proj, self.memo = proj, {}

    def target(self, f, call):
        """the project function called, with the receiver's shift"""
        g = call.func
        if isinstance(g, ast.Name):
            r = self.proj.resolve(f.mod.name, g.id)
            if g.id in f.locals:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.FunctionDef) and n.name == g.id and n is not f.node:
                        return Fun(f.mod, f.qual + '.' + g.id, n, f.cls), 0
                return None
            if r and r[0] == 'def' and isinstance(r[2], ast.FunctionDef):
                return Fun(r[1], r[2].name, r[2], None), 0
        if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id in ('self', 'cls') and f.cls:
            for st in f.mod.tree.body:
                if isinstance(st, ast.ClassDef) and st.name == f.cls:
                    for n in st.body:
                        if isinstance(n, ast.FunctionDef) and n.name == g.attr:
                            stat = any(dotted(d) == 'staticmethod' for d in n.decorator_list)
                            return Fun(f.mod, f.cls + '.' + n.name, n, f.cls), 0 if stat else 1
        return None

    def env(self, f, stack=()):
        key = (f.mod.name, f.qual)
        if key in self.memo:
            return self.memo[key]
        env = {p: {(p, 'data')} for p in f.params}
        body = f.node.body

        def assign(t, d):
            if isinstance(t, ast.Name):
                env[t.id] = env.get(t.id, set()) | d
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    assign(e, d)
            elif isinstance(t, ast.Starred):
                assign(t.value, d)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                b = t.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id not in ('self', 'cls') and b.id not in f.params:
                    env[b.id] = env.get(b.id, set()) | d

        def stmts(body, ctl):
            for s in body:
                if isinstance(s, ast.Assign):
                    d = self.expr(f, s.value, env, stack) | ctl
                    for t in s.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                            for u, w in zip(t.elts, s.value.elts):
                                assign(u, self.expr(f, w, env, stack) | ctl)
                        else:
                            assign(t, d)
                elif isinstance(s, ast.AugAssign):
                    assign(s.target, self.expr(f, s.value, env, stack) | ctl)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    assign(s.target, self.expr(f, s.value, env, stack) | ctl)
                elif isinstance(s, ast.For):
                    assign(s.target, self.expr(f, s.iter, env, stack) | ctl)
                    stmts(s.body + s.orelse, ctl | self.expr(f, s.iter, env, stack))
                elif isinstance(s, (ast.If, ast.While)):
                    c = ctl | self.expr(f, s.test, env, stack)
                    stmts(s.body, c)
                    stmts(s.orelse, c)
                elif isinstance(s, ast.With):
                    for w in s.items:
                        if w.optional_vars is not None:
                            assign(w.optional_vars, self.expr(f, w.context_expr, env, stack) | ctl)
                    stmts(s.body, ctl)
                elif isinstance(s, ast.Try):
                    stmts(s.body, ctl)
                    for h in s.handlers:
                        stmts(h.body, ctl)
                    stmts(s.orelse, ctl)
                    stmts(s.finalbody, ctl)
        for _ in range(20):
            old = {k: set(v) for k, v in env.items()}
            stmts(body, set())
            if env == old:
                break
        if not stack:
            self.memo[key] = env
        return env

    def expr(self, f, e, env, stack=()):
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            return set(env.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            d = self.expr(f, e.value, env, stack)
            return {(p, 'meta') for p, _ in d} if e.attr in META else d
        if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return {(p, 'meta') for p, _ in self.expr(f, e.left, env, stack)}
        if isinstance(e, ast.Call):
            return self.call(f, e, env, stack)
        if isinstance(e, (ast.Lambda,)):
            own = {a.arg for a in e.args.args}
            return self.expr(f, e.body, {k: v for k, v in env.items() if k not in own}, stack)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            en = dict(env)
            for g in e.generators:
                d = self.expr(f, g.iter, en, stack)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        en[n.id] = d
            out = set()
            for g in e.generators:
                out |= self.expr(f, g.iter, en, stack)
                for c in g.ifs:
                    out |= self.expr(f, c, en, stack)
            for part in ('elt', 'key', 'value'):
                if getattr(e, part, None) is not None:
                    out |= self.expr(f, getattr(e, part), en, stack)
            return out
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.expr(f, c, env, stack)
            elif isinstance(c, ast.keyword):
                out |= self.expr(f, c.value, env, stack)
        return out

    def call(self, f, e, env, stack):
        args = [self.expr(f, a, env, stack) for a in e.args] + [self.expr(f, k.value, env, stack) for k in e.keywords]
        d = set().union(*args) if args else set()
        name = dotted(e.func)
        if name in METAFN:
            return {(p, 'meta') for p, _ in d}
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('empty_like', 'zeros_like', 'ones_like', 'is_tensor', 'is_dtype'):
            return {(p, 'meta') for p, _ in d}
        t = self.target(f, e)
        if t is None:
            if isinstance(e.func, ast.Attribute):
                d = d | self.expr(f, e.func.value, env, stack)
            elif isinstance(e.func, ast.Name):
                d = d | set(env.get(e.func.id, ()))
            return d
        g, shift = t
        k = (g.mod.name, g.qual)
        if k in stack or len(stack) > 4 or any(isinstance(a, ast.Starred) for a in e.args) or any(x.arg is None for x in e.keywords):
            return d
        ge = self.env(g, stack + (k,))
        ret = set()
        for n in ast.walk(g.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                ret |= self.expr(g, n.value, ge, stack + (k,))
        for n in ast.walk(g.node):                            # which return is taken
            if isinstance(n, ast.If) and any(isinstance(x, ast.Return) for x in ast.walk(n)):
                ret |= self.expr(g, n.test, ge, stack + (k,))
        names = g.params[shift:]
        bound = {}
        for p, a in zip(names, e.args):
            bound[p] = self.expr(f, a, env, stack)
        for kw in e.keywords:
            bound[kw.arg] = self.expr(f, kw.value, env, stack)
        out = set()
        for p, how in ret:
            for q, h in bound.get(p, set()):
                out.add((q, 'data' if how == h == 'data' else 'meta'))
        if g.cls is None or shift == 0:                       # names of the enclosing function
            for n in ast.walk(g.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in g.locals and n.id in env:
                    out |= env[n.id]
        return out


def is_dict(v):
    return isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('dict', 'OrderedDict', 'defaultdict', 'WeakKeyDictionary', 'WeakValueDictionary')


def dict_attrs(m, cls):
    out = set()
    for st in m.tree.body:
        if isinstance(st, ast.ClassDef) and st.name == cls:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign) and is_dict(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ('self', 'cls', cls):
                            out.add(t.attr)
                        if isinstance(t, ast.Name) and n in st.body:
                            out.add(t.id)
    return out


def defaults(node):
    a = node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: d for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def store_of(proj, f, base):
    """a description of the persistent dict `base` denotes in f, or None"""
    if isinstance(base, ast.Name):
        if base.id in f.params:
            d = defaults(f.node).get(base.id)
            return 'default of `%s`' % base.id if d is not None and is_dict(d) else None
        if base.id in f.locals:
            return None
        r = proj.resolve(f.mod.name, base.id)
        if r and r[0] == 'assign':
            for st in r[1].tree.body:
                if isinstance(st, ast.Assign) and is_dict(st.value) and any(isinstance(t, ast.Name) and t.id == base.id for t in st.targets):
                    return 'global %s' % base.id
        return None
    if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
        b = base.value.id
        if b in ('self', 'cls') and f.cls and base.attr in dict_attrs(f.mod, f.cls):
            return 'attribute %s' % base.attr
        if b not in f.locals:
            r = proj.resolve(f.mod.name, b)
            if r and r[0] == 'def':
                if isinstance(r[2], ast.ClassDef) and base.attr in dict_attrs(r[1], b):
                    return 'attribute %s' % base.attr
                if isinstance(r[2], ast.FunctionDef):
                    return 'attribute %s of function %s' % (base.attr, b)
    return None


def stores(proj):
    """[(Fun, store, key expr or None, value expr, node)]"""
    out = []
    for f in all_funs(proj):
        inner = {id(x) for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node for x in ast.walk(n)}
        tests = [n for n in ast.walk(f.node) if isinstance(n, (ast.If, ast.IfExp)) and id(n) not in inner]
        for n in ast.walk(f.node):
            if id(n) in inner:
                continue
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        s = store_of(proj, f, t.value)
                        if s:
                            out.append((f, s, t.slice, n.value, n))
                    own = None
                    if isinstance(t, ast.Name) and t.id in f.globs:
                        own = lambda x, t=t: isinstance(x, ast.Name) and x.id == t.id
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id not in f.locals:
                        r = proj.resolve(f.mod.name, t.value.id)
                        if r and r[0] == 'def' and isinstance(r[2], ast.FunctionDef):
                            own = lambda x, t=t: isinstance(x, ast.Attribute) and x.attr == t.attr and isinstance(x.value, ast.Name) and x.value.id == t.value.id
                    if own and any(own(x) or isinstance(x, ast.Call) and dotted(x.func) in ('getattr', 'hasattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and isinstance(t, ast.Attribute) and x.args[1].value == t.attr
                                   for c in tests for x in ast.walk(c.test)) and any(own(x) and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
                        key = None
                        for c in tests:                        # settings compared with the stored ones are keys
                            if any(own(x) for x in ast.walk(c.test)):
                                key = c.test
                        out.append((f, 'global %s' % dotted(t), key, n.value, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and len(n.args) == 2:
                s = store_of(proj, f, n.func.value)
                if s:
                    out.append((f, s, n.args[0], n.args[1], n))
    return out


def check_store(proj, deps, rec):
    """-> (state, why): parameters the stored value is computed from and the key leaves out"""
    f, store, key, value, node = rec
    env = deps.env(f)
    v = deps.expr(f, value, env)
    k = deps.expr(f, key, env) if key is not None else set()
    skip = {'self', 'cls'} | ({store.split('`')[1]} if store.startswith('default of') else set())
    names = {p for p, _ in v} - {p for p, _ in k} - skip
    if names:
        return 'ne', 'the value depends on %s, the key does not' % ', '.join('`%s`' % p for p in sorted(names))
    data = {p for p, h in v if h == 'data'} - {p for p, h in k if h == 'data'} - skip
    if data:
        return '?', 'the value may depend on the elements of %s, the key only on its shape or type' % ', '.join('`%s`' % p for p in sorted(data))
    return 'eq', 'keyed by all arguments it is computed from'


def memoized(proj):
    """[(Fun, decorator)] of functions whose results are kept by a decorator"""
    out = []
    for f in all_funs(proj):
        for d in f.node.decorator_list:
            c = d.func if isinstance(d, ast.Call) else d
            name = dotted(c)
            if not name:
                continue
            r = proj.resolve(f.mod.name, name.split('.')[0])
            full = '.'.join([r[1]] + name.split('.')[1:]) if r and r[0] == 'ext' else name
            if full in MEMO or full.split('.')[-1] in ('lru_cache', 'memoize', 'cached_property', 'memoized', 'cache'):
                out.append((f, full))
    return out


def rebound(proj):
    """{(module, name)}: globals assigned after import (inside functions, or through the module)"""
    out = set()
    for f in all_funs(proj):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in f.globs:
                out.add((f.mod.name, n.id))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in f.locals:
                r = proj.resolve(f.mod.name, n.value.id)
                if r and r[0] == 'mod':
                    out.add((r[1].name, n.attr))
    return out


def free_globals(proj, f):
    """globals a function reads: [(name, home module or None, resolved)]"""
    out, seen = [], set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in f.locals and n.id not in seen:
            seen.add(n.id)
            out.append((n.id, proj.resolve(f.mod.name, n.id)))
    return out


def frozen(proj, f, moved, seen=None):
    """names a compiled or memoized function reads (also through the functions it calls) that change after import"""
    seen = set() if seen is None else seen
    if (f.mod.name, f.qual) in seen:
        return []
    seen.add((f.mod.name, f.qual))
    bad = []
    for name, r in free_globals(proj, f):
        if r and r[0] == 'assign':
            if (r[1].name, name) in moved or (f.mod.name, name) in moved:
                bad.append(name)
        elif r and r[0] == 'def' and isinstance(r[2], ast.FunctionDef):
            bad += frozen(proj, Fun(r[1], r[2].name, r[2], None), moved, seen)
    return bad
