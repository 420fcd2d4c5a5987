"""Loop-kernel summaries.

A compiled kernel (numba function, or a CUDA kernel translated to the same syntax) is
reduced to the set of array writes it performs:  guard, loops, target[index] op value,
with every scalar expressed as a canonical term over array elements, loop counters and
parameters.  Straight-line code is substituted, branches become guarded alternatives,
loops become bound counters, calls to other functions of the project are expanded.
Nothing is executed; a construct outside the supported fragment makes the kernel
"undecided", never a verdict.
"""
import ast
from .project import jit_info, strip_doc, dotted
from . import terms as T
from .terms import (A, num, sym, ZERO, ONE, Poly, Unsupported, cand, cor, cnot)


class Effect:
    __slots__ = ('target', 'idx', 'op', 'value', 'guard', 'loops', 'node', 'extents')

    def __init__(s, target, idx, op, value, guard, loops, node, extents=()):
        s.target, s.idx, s.op, s.value = target, idx, op, value
        s.guard, s.loops, s.node, s.extents = guard, loops, node, extents

    def __repr__(s):
        return '%s[%s] %s %s  if %s  for %s' % (
            s.target, ', '.join(map(str, s.idx)), s.op, s.value, T.show_cond(s.guard),
            ', '.join(str(l.atom) + ('|par' if l.par else '') for l in s.loops))


class Loop:
    __slots__ = ('atom', 'trip', 'par', 'node', 'start', 'step')

    def __init__(s, atom, trip, par, node, start=ZERO, step=1):
        s.atom, s.trip, s.par, s.node, s.start, s.step = atom, trip, par, node, start, step


class Array:
    """A local array (allocated in the kernel) or a parameter."""
    __slots__ = ('name', 'local', 'init', 'dims', 'loops')

    def __init__(s, name, local=False, init=None, dims=None, loops=()):
        s.name, s.local, s.init, s.dims, s.loops = name, local, init, dims, loops


class Tup(tuple):
    pass


class FuncRef:
    def __init__(s, mod, node):
        s.mod, s.node = mod, node


class Summary:
    def __init__(s):
        s.effects, s.reads, s.scalars, s.ret = [], [], [], None
        s.params = []
        s.par_loops = []
        s.locals = {}          # local array name -> Array
        s.kept = set()         # local arrays read otherwise than through their last store
        s.reductions = []      # whole-array float reductions (fn name, node)


ELEMENTWISE = {'log2', 'log', 'log10', 'exp', 'sqrt', 'abs', 'absolute', 'isinf', 'isnan',
               'isfinite', 'floor', 'ceil', 'round', 'rint', 'around', 'real', 'imag', 'fabs',
               'log2f', 'normf', 'roundf', 'fabsf', 'logf', 'expf', 'square', 'minimum', 'maximum',
               'fmin', 'fmax', 'power', 'pow', 'angle', 'trunc', 'clip', 'where'}
CASTS = {'float', 'double', 'float32', 'float64', 'complex64', 'complex128', 'int32', 'int64', 'asarray',
         'atleast_1d', 'ascontiguousarray', 'array', 'contiguous', 'intp'}


C_BUILTINS = {'norm', 'log2', 'log', 'log10', 'exp', 'sqrt', 'isinf', 'isnan', 'fmin', 'fmax', 'fabs', 'floor',
              'ceil', 'rint', 'pow', 'hypot', 'trunc', 'normf', 'log2f', 'logf', 'roundf', 'fabsf', 'fminf', 'fmaxf',
              'sqrtf', 'powf', 'expf', 'hypotf', 'lround', 'rintf', 'floorf', 'isfinite'}


class KernelAnalyzer:
    def __init__(self, proj, facts=None, consts=None, max_depth=6):
        self.proj = proj
        self.facts = facts or T.Facts()
        self.consts = consts or {}      # name -> Poly: global substitutions for params
        self.dim_subst = {}             # (ndim, axis) -> Poly: known extents
        self.gpu = False                # trailing component index of complex arrays
        self.max_depth = max_depth

    # ------------------------------------------------------------------ entry
    def summarize(self, mod, fn, args=None, par=None):
        """args: optional dict param -> Poly/Array (default: symbolic)."""
        T._FACTS.append(self.facts)
        try:
            return self._summarize(mod, fn, args, par)
        finally:
            T._FACTS.pop()

    def _summarize(self, mod, fn, args, par):
        s = Summary()
        self.s = s
        self.loops = []
        self.depth = 0
        self.nloop = {}
        info = jit_info(self.proj, mod, fn)
        self.par = bool(info and info['parallel']) if par is None else par
        env = {}
        pnames = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        s.params = pnames
        self.ndims = self._index_arity(fn)
        for p in pnames:
            if args and p in args:
                env[p] = args[p]
            elif p in self.consts:
                env[p] = self.consts[p]
            elif self.ndims.get(p):
                env[p] = Array(p, dims=self._dims(p, self.ndims[p]))
            else:
                env[p] = sym(p)
        rets = []
        self.mod = mod
        env, alive = self.block(strip_doc(fn), env, True, rets)
        s.ret = self._merge_rets(rets, alive)
        return s

    def _dims(self, name, nd):
        if nd == 1:
            return (A(('call', 'dim', name, 0)),)
        return tuple(self.dim_subst.get((nd, d)) or A(('call', 'dim', '#%dd' % nd, d)) for d in range(nd))

    def _index_arity(self, fn):
        """How many indices each name is subscripted with (through helpers: by name)."""
        nd = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                k = len(n.slice.elts) if isinstance(n.slice, ast.Tuple) else 1
                nd[n.value.id] = max(nd.get(n.value.id, 0), k)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' \
                    and isinstance(n.value.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and n.slice.value >= 0:
                nd[n.value.value.id] = max(nd.get(n.value.value.id, 0), n.slice.value + 1)
        # callee index arity, one level through positional passing
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = self.proj.resolve(getattr(self, 'mod', None).name, n.func.id) if getattr(self, 'mod', None) else None
                if r and r[0] == 'def' and isinstance(r[2], ast.FunctionDef) and r[2] is not fn:
                    sub = {}
                    for m in ast.walk(r[2]):
                        if isinstance(m, ast.Subscript) and isinstance(m.value, ast.Name):
                            k = len(m.slice.elts) if isinstance(m.slice, ast.Tuple) else 1
                            sub[m.value.id] = max(sub.get(m.value.id, 0), k)
                    for p, a in zip(r[2].args.args, n.args):
                        if isinstance(a, ast.Name) and p.arg in sub:
                            nd[a.id] = max(nd.get(a.id, 0), sub[p.arg])
        return nd

    def _merge_rets(self, rets, alive):
        if not rets:
            return None
        if len(rets) == 1:
            return rets[0][1]
        out = rets[-1][1]
        for g, v in reversed(rets[:-1]):
            if isinstance(v, Poly) and isinstance(out, Poly):
                out = T.phi(g, v, out, self.facts)
            elif isinstance(v, Tup) and isinstance(out, Tup) and len(v) == len(out):
                out = Tup(T.phi(g, a, b, self.facts) if isinstance(a, Poly) and isinstance(b, Poly) else (a if a is b else _bad('mixed returns')) for a, b in zip(v, out))
            else:
                raise Unsupported('mixed returns')
        return out

    # -------------------------------------------------------------- statements
    def block(self, stmts, env, guard, rets):
        for st in stmts:
            if guard is False:
                break
            env, guard = self.stmt(st, env, guard, rets)
        return env, guard

    def stmt(self, st, env, guard, rets):
        if isinstance(st, ast.Assign):
            v = self.expr(st.value, env, guard)
            for t in st.targets:
                env = self.assign(t, v, env, guard, st)
            return env, guard
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                env = self.assign(st.target, self.expr(st.value, env, guard), env, guard, st)
            return env, guard
        if isinstance(st, ast.AugAssign):
            return self.aug(st, env, guard), guard
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return env, guard
            self.expr(st.value, env, guard)
            return env, guard
        if isinstance(st, ast.Pass):
            return env, guard
        if isinstance(st, ast.If):
            c = self.cond(st.test, env, guard)
            if c is True:
                return self.block(st.body, env, guard, rets)
            if c is False:
                return self.block(st.orelse, env, guard, rets)
            e1, g1 = self.block(st.body, dict(env), cand(guard, c), rets)
            e2, g2 = self.block(st.orelse, dict(env), cand(guard, cnot(c)), rets)
            if g1 is False and g2 is False:
                return e1, False
            if g1 is False:
                return e2, g2
            if g2 is False:
                return e1, g1
            env = self.merge(c, e1, e2)
            if g1 == cand(guard, c) and g2 == cand(guard, cnot(c)):
                return env, guard
            return env, cor(g1, g2)
        if isinstance(st, ast.For):
            return self.loop(st, env, guard, rets), guard
        if isinstance(st, ast.Continue):
            return env, False
        if isinstance(st, ast.Return):
            v = self.expr(st.value, env, guard) if st.value is not None else None
            if v is not None:
                rets.append((guard, v))
            return env, False
        if isinstance(st, (ast.Assert, ast.Global, ast.Nonlocal, ast.Delete)):
            return env, guard
        if isinstance(st, ast.Raise):
            return env, False
        if isinstance(st, ast.While):
            return self.while_(st, env, guard, rets), guard
        raise Unsupported('statement %s at line %s' % (type(st).__name__, getattr(st, 'lineno', '?')))

    def while_(self, st, env, guard, rets):
        """`i = a; while i < b: ...; i += c` is the counting loop over range(a, b, c)."""
        t = st.test
        if st.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                             and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
            raise Unsupported('while loop at line %s' % st.lineno)
        v = t.left.id
        last = st.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1):
            raise Unsupported('while loop at line %s' % st.lineno)
        for n in st.body[:-1]:
            for m in ast.walk(n):
                if isinstance(m, (ast.Name,)) and isinstance(m.ctx, ast.Store) and m.id == v:
                    raise Unsupported('while loop at line %s' % st.lineno)
                if isinstance(m, (ast.Break, ast.Continue)):
                    raise Unsupported('while loop at line %s' % st.lineno)
        lo = env.get(v)
        if not isinstance(lo, Poly):
            raise Unsupported('while loop at line %s' % st.lineno)
        hi = self.expr(t.comparators[0], env, guard)
        if isinstance(t.ops[0], ast.LtE):
            hi = hi + ONE
        env = self.run_loop(st, ast.Name(id=v, ctx=ast.Store()), [('range', lo, hi, 1, False)], st.body[:-1], env, guard, rets)
        env[v] = hi
        return env

    def merge(self, c, e1, e2):
        env = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            if a is None or b is None:
                # defined on one side only: usable only where that side ran
                v = a if a is not None else b
                env[k] = v
            elif a is b or (isinstance(a, Poly) and a == b):
                env[k] = a
            elif isinstance(a, Poly) and isinstance(b, Poly):
                env[k] = T.phi(c, a, b, self.facts)
            elif isinstance(a, Tup) and isinstance(b, Tup) and len(a) == len(b) and all(isinstance(x, Poly) for x in a + b):
                env[k] = Tup(T.phi(c, x, y, self.facts) for x, y in zip(a, b))
            else:
                env[k] = ('merged',)
        return env

    def assign(self, t, v, env, guard, node):
        if isinstance(t, ast.Name):
            env = dict(env)
            env[t.id] = v
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v) == len(t.elts):
                for x, y in zip(t.elts, v):
                    env = self.assign(x, y, env, guard, node)
                return env
            raise Unsupported('unpacking')
        if isinstance(t, ast.Subscript):
            self.store(t, '=', v, env, guard, node)
            return env
        raise Unsupported('assignment target')

    def aug(self, st, env, guard):
        t = st.target
        v = self.expr(st.value, env, guard)
        if isinstance(t, ast.Name):
            cur = env.get(t.id)
            if isinstance(cur, Array) and cur.local:
                cur = cur.init
            elif isinstance(cur, Array):
                # whole-array in-place update of a parameter
                self.s.effects.append(Effect(cur.name, ('*',), '*' if isinstance(st.op, ast.Mult) else type(st.op).__name__,
                                             v, guard, tuple(self.loops), st))
                cur = sym(cur.name)
            elif isinstance(cur, Poly) and cur.atom() is not None and cur.atom()[0] == 'sym' and t.id in getattr(self.s, 'params', ()):
                self.s.effects.append(Effect(t.id, ('*',), type(st.op).__name__, v, guard, tuple(self.loops), st))
            if not isinstance(cur, Poly) or not isinstance(v, Poly):
                raise Unsupported('augmented assignment')
            env = dict(env)
            env[t.id] = self.binop(st.op, cur, v)
            return env
        if isinstance(t, ast.Subscript):
            op = {ast.Add: '+=', ast.Sub: '-=', ast.Mult: '*=', ast.Div: '/='}.get(type(st.op))
            if op == '-=':
                v, op = -v, '+='
            if op is None:
                raise Unsupported('augmented op')
            self.store(t, op, v, env, guard, st)
            return env
        raise Unsupported('augmented target')

    def store(self, t, op, v, env, guard, node):
        base, idx = self.sub_index(t, env, guard)
        if not isinstance(base, Array):
            raise Unsupported('store into non-array')
        if not isinstance(v, Poly):
            raise Unsupported('stored value')
        if self.gpu and base.dims is not None and len(idx) == len(base.dims) + 1 and isinstance(idx[-1], Poly) and idx[-1].const() is not None:
            comp = idx[-1]
            ix, ext = self.norm_index(base, idx[:-1])
            ix = ix + [comp]
        else:
            ix, ext = self.norm_index(base, idx)
        # element store spelled  out[i] = out[i] + v
        self.s.effects.append(self.canon_update(Effect(base.name, tuple(ix), op, v, guard, tuple(self.loops), node, tuple(ext))))

    def canon_update(self, e):
        if e.op == '=':
            cur = A(('get', e.target, *e.idx))
            d = e.value - cur
            if cur.atom() in e.value.atoms():
                probe = []
                T.walk(d, lambda a: probe.append(a) if a == cur.atom() else None)
                if not probe:
                    e.op, e.value = '+=', d
        return e

    def loop(self, st, env, guard, rets):
        if st.orelse:
            raise Unsupported('for-else')
        it = st.iter
        specs = self.iter_spec(it, st.target, env, guard)
        return self.run_loop(st, st.target, specs, st.body, env, guard, rets)

    def iter_spec(self, it, target, env, guard):
        """list of ('range', lo, hi, step, par) | ('enum', Array)"""
        if isinstance(it, ast.Call):
            name = (dotted(it.func) or '').split('.')[-1]
            if name in ('range', 'prange'):
                a = [self.expr(x, env, guard) for x in it.args]
                lo, hi, stp = ZERO, None, 1
                if len(a) == 1:
                    hi = a[0]
                elif len(a) >= 2:
                    lo, hi = a[0], a[1]
                if len(a) == 3:
                    c = a[2].const()
                    if c not in (1, -1):
                        raise Unsupported('loop step')
                    stp = int(c)
                return [('range', lo, hi, stp, name == 'prange' and self.par)]
            if name == 'reversed' and isinstance(it.args[0], ast.Call):
                (k, lo, hi, stp, par), = self.iter_spec(it.args[0], target, env, guard)
                if stp != 1:
                    raise Unsupported('reversed')
                return [('range', hi - ONE, lo - ONE, -1, par)]
            if name == 'enumerate' and len(it.args) == 1:
                arr = self.expr(it.args[0], env, guard)
                if isinstance(arr, Array) and len(arr.dims) == 1:
                    return [('enum', arr)]
            if name == 'ndindex':
                a = it.args
                if len(a) == 1 and isinstance(a[0], ast.Attribute) and a[0].attr == 'shape':
                    arr = self.expr(a[0].value, env, guard)
                    if isinstance(arr, Array):
                        return [('range', ZERO, d, 1, False) for d in arr.dims]
                return [('range', ZERO, self.expr(x, env, guard), 1, False) for x in a]
        if isinstance(it, ast.Name) and isinstance(env.get(it.id), Array) and len(env[it.id].dims or ()) == 1:
            return [('elems', env[it.id])]
        raise Unsupported('loop iterable at line %s' % it.lineno)

    def run_loop(self, st, target, specs, body, env, guard, rets):
        entered = []
        vals = []
        for sp in specs:
            if sp[0] == 'range':
                _, lo, hi, stp, par = sp
                trip = (hi - lo) if stp == 1 else (lo - hi)
            else:
                lo, stp, par = ZERO, 1, False
                trip = sp[1].dims[0]
            occ = sum(1 for l in self.loops if l.trip == trip)
            atom = ('call', 'loopvar', trip, occ)
            lp = Loop(atom, trip, par, st, lo, stp)
            self.loops.append(lp)
            if par:
                self.s.par_loops.append(lp)
            entered.append(lp)
            v = lo + A(atom) if stp == 1 else lo - A(atom)
            if sp[0] == 'enum':
                vals += [v, A(('get', sp[1].name, v))]
            elif sp[0] == 'elems':
                vals.append(A(('get', sp[1].name, v)))
            else:
                vals.append(v)
        # loop-carried scalars
        stored = []
        for n in body:
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    stored.append(m.id)
        carried = [k for k in dict.fromkeys(stored) if k in env and isinstance(env[k], (Poly, Array))
                   and not (isinstance(env[k], Array) and not env[k].local)]
        benv = dict(env)
        cs = {}
        for k in carried:
            init = env[k]
            if isinstance(init, Array):
                init = init.init
            if init is None:
                continue
            c = ('sym', '#carried:%s:%d' % (k, len(self.loops)))
            cs[k] = (c, init)
            benv[k] = A(c)
        if len(specs) == 1 and specs[0][0] != 'enum':
            tv = vals[0]
            benv = self.assign(target, tv, benv, guard, st)
        else:
            if not isinstance(target, (ast.Tuple, ast.List)) or len(target.elts) != len(vals):
                if isinstance(target, ast.Name):
                    benv[target.id] = Tup(vals)
                else:
                    raise Unsupported('loop target')
            else:
                for t, v in zip(target.elts, vals):
                    benv = self.assign(t, v, benv, guard, st)
        for k, (c, init) in list(cs.items()):
            # written before being read in the body -> not carried
            pass
        nr = len(rets)
        eenv, g = self.block(body, benv, guard, rets)
        if len(rets) != nr:
            raise Unsupported('return inside loop')
        out = dict(env)
        for k in set(eenv):
            if k in cs:
                c, init = cs[k]
                v = eenv[k]
                if isinstance(v, Array):
                    v = v.init
                if v == A(c):
                    out[k] = env[k]
                    continue
                if g is not False and g != guard and not isinstance(v, Poly):
                    raise Unsupported('carried under continue')
                if not isinstance(v, Poly):
                    raise Unsupported('carried %s' % k)
                self.s.scalars.append((k, c, v, guard, tuple(self.loops), st))
                d = v - A(c)
                seen = []
                T.walk(d, lambda a: seen.append(a) if a == c else None)
                if not seen:
                    r = d
                    for lp in reversed(entered):
                        r = A(('call', 'sumover', lp.trip, A(lp.atom), r))
                    out[k] = init + r
                else:
                    allc = []
                    T.walk(v, lambda a: allc.append(a) if a == c else None)
                    if not allc:
                        out[k] = ('lastiter',)
                    else:
                        canon = T.subst(v, lambda a: sym('#acc') if a == c else None)
                        out[k] = A(('call', 'fold', *[lp.trip for lp in entered], init, canon))
            elif k not in env:
                out[k] = ('lastiter',)
            elif eenv[k] is not env[k]:
                out[k] = eenv[k] if isinstance(env.get(k), Array) else ('lastiter',)
        for _ in entered:
            self.loops.pop()
        return out

    # -------------------------------------------------------------- expressions
    def cond(self, e, env, guard):
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(x, env, guard) for x in e.values]
            return cand(*cs) if isinstance(e.op, ast.And) else cor(*cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return cnot(self.cond(e.operand, env, guard))
        if isinstance(e, ast.Compare):
            out = []
            left = self.expr(e.left, env, guard)
            for op, r in zip(e.ops, e.comparators):
                right = self.expr(r, env, guard)
                out.append(self.cmp(op, left, right))
                left = right
            return cand(*out)
        if isinstance(e, ast.Constant) and not isinstance(e.value, str):
            return bool(e.value)
        v = self.expr(e, env, guard)
        return self.truth(v)

    def truth(self, v):
        if not isinstance(v, Poly):
            raise Unsupported('condition')
        c = v.const()
        if c is not None:
            return c != 0
        a = v.atom()
        if a is not None and a[0] == 'ind':
            return a[1]
        if v.atoms() and all(x[0] == 'ind' for x in v.atoms()):
            # 1 - [c]
            if ONE - v == A(list(v.atoms())[0]) and len(v.atoms()) == 1:
                return cnot(list(v.atoms())[0][1])
            if len(v.m) == 1:
                return cand(*[x[1] for x in v.atoms()])
        return ('flag', v)

    def cmp(self, op, a, b):
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported('comparison operands')
        f = self.facts
        inf = A(T.INF)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if b == inf or a == inf:
                c = ('isinf', b if a == inf else a)
            else:
                c = None
                for x, y in ((a, b), (b, a)):
                    if y.const() in (0, 1) and x.atom() is not None and x.atom()[0] == 'sym' and x.atom()[1] in ('flipud', 'modulated'):
                        c = ('flag', x) if y.const() == 1 else cnot(('flag', x))
                if c is None:
                    c = T.eq(a, b, f)
            return c if isinstance(op, ast.Eq) else cnot(c)
        if isinstance(op, ast.Lt):
            if b == inf:
                return cnot(('isinf', a))
            return T.lt(a, b, f)
        if isinstance(op, ast.Gt):
            return T.gt(a, b, f)
        if isinstance(op, ast.LtE):
            return T.le(a, b, f)
        if isinstance(op, ast.GtE):
            return T.ge(a, b, f)
        raise Unsupported('comparison')

    def binop(self, op, a, b):
        if isinstance(a, Array):
            a = self.arr_value(a)
        if isinstance(b, Array):
            b = self.arr_value(b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported('operands')
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if b.const() == 0:
                return A(T.INF) if (a.const() or 0) > 0 else A(('call', 'div0', a))
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.pw(a, b)
        if isinstance(op, ast.FloorDiv):
            q = T.div(a, b)
            if self.facts.is_int(q):
                return q
            return A(('call', 'floordiv', a, b))
        if isinstance(op, ast.Mod):
            return A(('call', 'mod', a, b))
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            ca, cb = self.truth(a), self.truth(b)
            return T.ind(cand(ca, cb) if isinstance(op, ast.BitAnd) else cor(ca, cb))
        raise Unsupported('operator')

    def arr_value(self, a):
        if a.local:
            if a.init is None:
                raise Unsupported('array value')
            return a.init
        return sym(a.name)

    def expr(self, e, env, guard):
        f = self.facts
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float, complex, bool)):
                return num(e.value)
            if e.value is None or isinstance(e.value, str):
                return ('const', e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                if isinstance(v, tuple) and not isinstance(v, Tup) and v and v[0] in ('merged', 'lastiter'):
                    raise Unsupported('value of %s after a loop or branch' % e.id)
                return v
            return self.global_(e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            return Tup(self.expr(x, env, guard) for x in e.elts)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, env, guard), self.expr(e.right, env, guard))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return T.ind(self.cond(e, env, guard))
            v = self.expr(e.operand, env, guard)
            if isinstance(v, Array):
                v = self.arr_value(v)
            if isinstance(e.op, ast.USub) and isinstance(v, Poly):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and isinstance(v, Poly):
                return T.ind(cnot(self.truth(v)))
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            if isinstance(e, ast.Compare):
                # allow arrays as elementwise operands
                out = []
                ops = [self.expr(x, env, guard) for x in [e.left] + e.comparators]
                ops = [self.arr_value(x) if isinstance(x, Array) else x for x in ops]
                for op, a, b in zip(e.ops, ops, ops[1:]):
                    out.append(self.cmp(op, a, b))
                return T.ind(cand(*out))
            return T.ind(self.cond(e, env, guard))
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, env, guard)
            if c is True:
                return self.expr(e.body, env, guard)
            if c is False:
                return self.expr(e.orelse, env, guard)
            a = self.expr(e.body, env, cand(guard, c))
            b = self.expr(e.orelse, env, cand(guard, cnot(c)))
            if isinstance(a, Poly) and isinstance(b, Poly):
                return T.phi(c, a, b, f)
            raise Unsupported('conditional expression')
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env, guard)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, env, guard)
        if isinstance(e, ast.Call):
            return self.call(e, env, guard)
        raise Unsupported('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))

    def global_(self, name):
        if name in ('True', 'False'):
            return num(name == 'True')
        r = self.proj.resolve(self.mod.name, name)
        if r is None:
            if name in ('abs', 'min', 'max', 'round', 'int', 'float', 'len', 'range', 'complex', 'bool', 'pow', 'sum'):
                return ('ext', name)
            if self.gpu and name in C_BUILTINS:
                return ('ext', name)
            return sym('global:' + name)
        if r[0] == 'def':
            return FuncRef(r[1], r[2])
        if r[0] == 'ext':
            c = {'numpy.pi': T.PI, 'math.pi': T.PI, 'numpy.inf': T.INF, 'math.inf': T.INF, 'numpy.nan': T.NAN}.get(r[1])
            return A(c) if c else ('ext', r[1])
        if r[0] == 'mod':
            return ('modref', r[1])
        if r[0] == 'assign' and isinstance(r[2], ast.Assign) and len(r[2].targets) == 1 and isinstance(r[2].targets[0], ast.Name):
            save = self.mod
            self.mod = r[1]
            try:
                return self.expr(r[2].value, {}, True)
            except Unsupported:
                return sym('global:' + name)
            finally:
                self.mod = save
        return sym('global:' + name)

    def attribute(self, e, env, guard):
        d = dotted(e)
        v = self.expr(e.value, env, guard)
        if isinstance(v, tuple) and v and v[0] == 'ext':
            full = v[1] + '.' + e.attr
            if full in ('numpy.pi', 'math.pi', 'torch.pi'):
                return A(T.PI)
            if full in ('numpy.inf', 'math.inf', 'numpy.infty'):
                return A(T.INF)
            if full == 'numpy.nan':
                return A(T.NAN)
            return ('ext', full)
        if isinstance(v, tuple) and v and v[0] == 'modref':
            r = self.proj.resolve(v[1].name, e.attr)
            if r and r[0] == 'def':
                return FuncRef(r[1], r[2])
            return ('ext', v[1].name + '.' + e.attr)
        if isinstance(v, Array) and e.attr == 'shape':
            return Tup(v.dims)
        if isinstance(v, Array) and e.attr == 'size':
            if len(v.dims) == 1:
                return v.dims[0]
            p = ONE
            for x in v.dims:
                p = p * x
            return p
        if isinstance(v, Array) and e.attr == 'ndim':
            return num(len(v.dims))
        if isinstance(v, Poly):
            if e.attr in ('real', 'imag'):
                return self.part(v, e.attr)
            if e.attr == 'shape':
                return ('shapeof', v)
            if e.attr == 'dtype':
                return ('dtype', v)
            if e.attr == 'size':
                return A(('call', 'dim', v, 0))
        if e.attr == 'dtype':
            return ('dtype', v)
        return ('attr', v, e.attr)

    def part(self, v, which):
        if not T.is_complex(v):
            return A(('call', 're' if which == 'real' else 'im', v))
        return T.re_im(v)[0 if which == 'real' else 1]

    def sub_index(self, e, env, guard):
        """(base, list of indices) flattening chains  a[i][j]."""
        idx = []
        while True:
            sl = e.slice
            elts = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            idx = [self.index(x, env, guard) for x in elts] + idx
            b = e.value
            if isinstance(b, ast.Subscript):
                base = self.expr_base(b, env, guard)
                if base is not None:
                    return base, idx
                e = b
                continue
            return self.expr(b, env, guard), idx

    def expr_base(self, b, env, guard):
        return None

    def index(self, x, env, guard):
        if isinstance(x, ast.Slice):
            lo = self.expr(x.lower, env, guard) if x.lower is not None else None
            hi = self.expr(x.upper, env, guard) if x.upper is not None else None
            if x.step is not None:
                st = self.expr(x.step, env, guard)
                if not (isinstance(st, Poly) and st == ONE):
                    return ('slice', lo, hi, st)
            return ('slice', lo, hi, None)
        if isinstance(x, ast.Constant) and x.value is None:
            return ('newaxis',)
        if isinstance(x, ast.Constant) and x.value is Ellipsis:
            return ('ellipsis',)
        v = self.expr(x, env, guard)
        if isinstance(v, Poly):
            return v
        raise Unsupported('index')

    def norm_index(self, base, idx):
        """Slices become  start + #s  with recorded extents."""
        out, ext = [], []
        n = 0
        dims = base.dims or ()
        for d, x in enumerate(idx):
            if isinstance(x, Poly):
                c = x.const()
                if c is not None and c < 0 and d < len(dims):
                    x = dims[d] + x
                out.append(x)
            elif x[0] == 'slice':
                if x[3] is not None:
                    raise Unsupported('strided slice')
                lo = x[1] if x[1] is not None else ZERO
                hi = x[2] if x[2] is not None else (dims[d] if d < len(dims) else sym('#end'))
                out.append(lo + sym('#s%d' % n))
                ext.append(hi - lo)
                n += 1
            else:
                raise Unsupported('index kind')
        return out, ext

    def subscript(self, e, env, guard):
        base, idx = self.sub_index(e, env, guard)
        if isinstance(base, tuple) and base and base[0] == 'shapeof':
            if len(idx) == 1 and isinstance(idx[0], Poly):
                return A(('call', 'dim', base[1], idx[0]))
        if isinstance(base, Tup):
            if len(idx) == 1 and isinstance(idx[0], Poly) and idx[0].const() is not None:
                k = int(idx[0].const())
                try:
                    return base[k]
                except IndexError:
                    raise Unsupported('tuple index')
            raise Unsupported('tuple index')
        if isinstance(base, Poly):
            if base.atom() is not None and base.atom()[0] == 'sym':
                return A(('get', base.atom()[1], *idx)) if all(isinstance(i, Poly) for i in idx) else _bad('index of value')
            raise Unsupported('index of expression')
        if not isinstance(base, Array):
            raise Unsupported('subscript base')
        if base.local and base.init is not None and all(not isinstance(i, Poly) for i in idx):
            return base.init
        comp = None
        if base.name in T.COMPLEX_ARRAYS and getattr(self, 'gpu', False) and base.dims is not None and len(idx) == len(base.dims) + 1:
            comp = idx[-1].const()
            idx = idx[:-1]
        ix, ext = self.norm_index(base, idx)
        if base.local:
            v = self.forward(base, ix, guard) if not ext else None
            if v is not None:
                return v
            self.s.kept.add(base.name)
        self.s.reads.append(Effect(base.name, tuple(ix), 'read', ZERO, guard, tuple(self.loops), e, tuple(ext)))
        at = A(('get', base.name, *ix))
        if comp is not None:
            return self.part(at, 'real' if comp == 0 else 'imag')
        return at

    def call(self, e, env, guard):
        f = self.facts
        fn = self.expr(e.func, env, guard)
        if isinstance(fn, tuple) and fn and fn[0] == 'attr':
            # method on a value
            return self.method(fn[1], fn[2], e, env, guard)
        if isinstance(fn, FuncRef):
            return self.inline(fn, e, env, guard)
        args = [self.expr(x, env, guard) for x in e.args]
        kws = {k.arg: self.expr(k.value, env, guard) for k in e.keywords}
        name = fn[1].split('.')[-1] if isinstance(fn, tuple) and fn[0] == 'ext' else None
        if name is None:
            if isinstance(fn, Poly):
                a = fn.atom()
                return A(('call', str(a[1]) if a else 'fn', *[self.val(x) for x in args]))
            raise Unsupported('call')
        return self.builtin(name, args, kws, e)

    def new_local(self, e, init, dims):
        keys = self.s.__dict__.setdefault('_loc', {})
        name = keys.setdefault((id(e), self.depth), '#loc%d' % len(keys))
        a = Array(name, local=True, init=init, dims=dims, loops=tuple(self.loops))
        self.s.locals[name] = a
        return a

    def forward(self, base, ix, guard):
        """Value of a local array's element through the store that last filled it."""
        effs = self.s.effects
        for n in range(len(effs) - 1, -1, -1):
            e = effs[n]
            if e.target != base.name:
                continue
            if e.op != '=' or len(e.idx) != len(ix) or base.dims is None or len(base.dims) != len(ix):
                return None
            if not (e.guard is True or e.guard == guard):
                return None
            sub = {}
            k = 0
            for d, i in enumerate(e.idx):
                a = i.atom() if isinstance(i, Poly) else None
                if a is None or a in sub:
                    return None
                if a[0] == 'sym' and a[1].startswith('#s'):
                    if k >= len(e.extents) or e.extents[k] != base.dims[d]:
                        return None
                    k += 1
                else:
                    lp = [l for l in e.loops if l.atom == a]
                    if len(lp) != 1 or lp[0].trip != base.dims[d] or lp[0].start != ZERO or lp[0].step != 1:
                        return None
                    if lp[0] in self.loops and ix[d] != A(a):
                        return None
                sub[a] = ix[d]
            # loops around the store beyond those indexing it must still be open
            if any(l.atom not in sub and l not in self.loops for l in e.loops):
                return None
            rd = set()
            T.walk(e.value, lambda a: rd.add(a[1]) if a[0] == 'get' else None)
            if any(x.target in rd for x in effs[n + 1:]):
                return None
            return T.subst(e.value, lambda a: sub.get(a))
        return None

    def val(self, x):
        if isinstance(x, Array):
            return self.arr_value(x)
        if isinstance(x, Poly):
            return x
        raise Unsupported('argument')

    def method(self, base, name, e, env, guard):
        args = [self.expr(x, env, guard) for x in e.args]
        if name in ('new_zeros', 'zeros', 'zeros_like'):
            return self.new_local(e, ZERO, None)
        if name in ('copy', 'astype', 'item', 'squeeze', 'ravel', 'clone', 'to'):
            return self.val(base) if not isinstance(base, Array) else base
        if name in ('sum', 'mean', 'dot', 'std', 'var', 'prod', 'cumsum'):
            self.s.reductions.append((name, e, tuple(self.loops)))
        if name in ('sum', 'min', 'max', 'mean', 'conj'):
            return A(('call', name, self.val(base)))
        raise Unsupported('method .%s' % name)

    def rnd(self, x):
        f = self.facts
        if f.is_int(x):
            return x
        a = x.atom()
        if a is not None and a[0] in ('min', 'max'):
            return T._lat(a[0], [self.rnd(y) for y in a[1]], f)
        if a is not None and a[0] == 'phi':
            return T.phi(a[1], self.rnd(a[2]), self.rnd(a[3]), f)
        ip = Poly({k: c for k, c in x.m.items() if f.is_int(Poly({k: c}))})
        return A(('call', 'round', x - ip)) + ip

    def builtin(self, name, args, kws, e):
        f = self.facts
        if name in ('zeros', 'zeros_like', 'empty', 'empty_like', 'ones', 'ones_like', 'full'):
            init = ONE if name.startswith('ones') else ZERO
            dims = None
            sh = args[0] if args else None
            if isinstance(sh, Tup):
                dims = tuple(x for x in sh if isinstance(x, Poly))
            elif isinstance(sh, Poly):
                dims = (sh,)
            elif isinstance(sh, Array):
                dims = sh.dims
            return self.new_local(e, init, dims)
        if name == 'len':
            if isinstance(args[0], Array) and args[0].dims:
                return args[0].dims[0]
            return A(('call', 'dim', self.val(args[0]), 0))
        v = [self.val(x) for x in args]
        if name in ('min', 'max', 'fmin', 'fmax', 'minimum', 'maximum', 'fminf', 'fmaxf'):
            if len(v) >= 2:
                return T._lat('min' if 'min' in name else 'max', v, f)
            return A(('call', name, v[0]))
        if name == 'clip':
            lo = v[1] if len(v) > 1 else None
            hi = v[2] if len(v) > 2 else None
            x = v[0]
            if lo is not None:
                x = T._lat('max', [x, lo], f)
            if hi is not None:
                x = T._lat('min', [x, hi], f)
            return x
        if name in ('round', 'rint', 'around', 'roundf', 'lround', 'lroundf', 'rintf'):
            return self.rnd(v[0])
        if name in ('floor', 'floorf'):
            if f.is_int(v[0]):
                return v[0]
            return self.rnd(v[0] - num(T.Fraction(1, 2)))if any(k == () and c.denominator == 2 for k, c in v[0].m.items()) else A(('call', 'floor', v[0]))
        if name in ('int', 'int32', 'int64', 'trunc', 'intp'):
            return self.trunc(v[0])
        if name in ('abs', 'absolute', 'fabs', 'fabsf', 'absf'):
            return T.fabs(v[0], f)
        if name in ('norm', 'normf'):
            # CUDA norm(2, z): magnitude of a complex pair
            return T.fabs(v[1], f)
        if name in ('hypot', 'hypotf'):
            return T.power(v[0] * v[0] + v[1] * v[1], T.Fraction(1, 2))
        if name in ('log2', 'log2f'):
            return T.div(A(('call', 'log', v[0])), A(('call', 'log', num(2))))
        if name in ('log10', 'log10f'):
            return T.div(A(('call', 'log', v[0])), A(('call', 'log', num(10))))
        if name in ('log', 'logf'):
            return A(('call', 'log', v[0]))
        if name in ('exp', 'expf'):
            if v[0] == ZERO:
                return ONE
            return A(('call', 'exp', v[0]))
        if name in ('sqrt', 'sqrtf'):
            return T.power(v[0], T.Fraction(1, 2))
        if name in ('square',):
            return v[0] * v[0]
        if name in ('pow', 'power', 'powf'):
            return T.pw(v[0], v[1])
        if name in ('isinf', 'isnan'):
            return T.ind((name, v[0]))
        if name == 'isfinite':
            return T.ind(cand(cnot(('isinf', v[0])), cnot(('isnan', v[0]))))
        if name in ('real', 'imag'):
            return self.part(v[0], name)
        if name == 'where' and len(v) == 3:
            return T.phi(self.truth(v[0]), v[1], v[2], f)
        if name in CASTS:
            return v[0]
        if name in ('multiply', 'add', 'subtract', 'divide', 'true_divide'):
            op = {'multiply': ast.Mult(), 'add': ast.Add(), 'subtract': ast.Sub()}.get(name, ast.Div())
            return self.binop(op, v[0], v[1])
        if name in ('sum', 'mean', 'dot', 'nansum', 'std', 'var', 'prod', 'nanmean', 'cumsum', 'average'):
            self.s.reductions.append((name, e, tuple(self.loops)))
        canon = {'amin': 'min', 'amax': 'max', 'nanmin': 'nanmin'}.get(name, name)
        return A(('call', canon, *v))

    def trunc(self, x):
        f = self.facts
        if f.is_int(x):
            return x
        a = x.atom()
        if a is not None and a[0] in ('min', 'max'):
            return T._lat(a[0], [self.trunc(y) for y in a[1]], f)
        if a is not None and a[0] == 'phi':
            return T.phi(a[1], self.trunc(a[2]), self.trunc(a[3]), f)
        # int(x + 1/2) rounds to nearest for x >= 0
        half = x - num(T.Fraction(1, 2))
        ha = half.atom()
        if ha is not None and ha[0] == 'max' and ZERO in ha[1]:
            return self.rnd(half)
        return A(('call', 'trunc', x))

    def inline(self, fr, e, env, guard):
        node = fr.node
        if not isinstance(node, ast.FunctionDef):
            raise Unsupported('call of class')
        if self.depth >= self.max_depth:
            raise Unsupported('inlining depth')
        self.depth += 1
        save = self.mod
        try:
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = {}
            for n, x in zip(names, e.args):
                if isinstance(x, ast.Starred):
                    raise Unsupported('star argument')
                vals[n] = self.expr(x, env, guard)
            for k in e.keywords:
                if k.arg is None:
                    raise Unsupported('star argument')
                vals[k.arg] = self.expr(k.value, env, guard)
            dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    dfl[x.arg] = d
            self.mod = fr.mod
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in vals:
                    if n not in dfl:
                        raise Unsupported('missing argument')
                    vals[n] = self.expr(dfl[n], {}, True)
            rets = []
            _, alive = self.block(strip_doc(node), vals, guard, rets)
            if not rets:
                return ('const', None)
            # returned conditions are relative to the caller's guard
            return self._merge_rets(rets, alive)
        finally:
            self.mod = save
            self.depth -= 1


def _bad(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ decision trees
def simplify(x, asg, facts):
    """Resolve phi/ind under an assignment of condition atoms."""
    def f(a):
        if a[0] == 'phi':
            c = T.cond_eval(T.subst_cond(a[1], f, facts), asg)
            if c is True:
                return T.subst(a[2], f)
            if c is False:
                return T.subst(a[3], f)
            return None
        if a[0] == 'ind':
            c = T.cond_eval(T.subst_cond(a[1], f, facts), asg)
            if c is True:
                return ONE
            if c is False:
                return ZERO
            return None
        return None
    return T.subst(x, f)


def open_conds(x):
    """Condition atoms that still select something inside x, innermost first."""
    out = []

    def visit(a):
        if a[0] in ('phi', 'ind'):
            for c in T.cond_atoms(a[1]):
                if c not in out:
                    out.append(c)
    T.walk(x, visit)
    return out


def _has_phi(c):
    found = []
    T.walk(c, lambda a: found.append(1) if a[0] in ('phi', 'ind') else None)
    return bool(found)


def consistent(asg, facts):
    """Cheap theory check on sign literals."""
    pos = [(c[1], v) for c, v in asg.items() if c[0] == 'gt0']
    for i, (p, v) in enumerate(pos):
        for q, w in pos[i + 1:]:
            s = (p + q)
            d = (p - q)
            if v and w and facts.sign(s) in ('0', '-', '0-'):
                return False           # p>0, q>0 but p+q<=0
            if not v and not w and facts.sign(s) == '+':
                return False           # p<=0, q<=0 but p+q>0
            if v and not w and facts.sign(d) in ('0', '-', '0-'):
                return False           # p>0 >= q but p<=q
            if w and not v and facts.sign(d) in ('0', '+', '0+'):
                return False
    return True


def leaves(effects, facts, limit=4096, pre=None):
    """Decision tree of the effect list: list of (assignment, [(target, idx, op, value,
    loops)]) covering all consistent assignments of the conditions met."""
    T._FACTS.append(facts)
    try:
        out = []
        stack = [dict(pre or {})]
        while stack:
            asg = stack.pop()
            if len(out) > limit:
                raise Unsupported('too many cases')
            pend = None
            res = []
            for e in effects:
                g = T.cond_eval(T.subst_cond(e.guard, lambda a: _sel(a, asg, facts), facts), asg)
                g = T.cond_eval(g, asg)
                if g is False:
                    continue
                if g is not True:
                    cs = T.cond_atoms(g)
                    cs.sort(key=_has_phi)
                    pend = _inner(cs[0])
                    break
                parts = [simplify(i, asg, facts) if isinstance(i, Poly) else i for i in e.idx]
                val = simplify(e.value, asg, facts)
                oc = []
                for p in parts + [val]:
                    if isinstance(p, Poly):
                        oc += open_conds(p)
                if oc:
                    oc.sort(key=_has_phi)
                    pend = _inner(oc[0])
                    break
                res.append((e.target, tuple(parts), e.op, val, tuple(l.atom for l in e.loops)))
            if pend is None:
                out.append((asg, res))
                continue
            for v in (True, False):
                a2 = dict(asg)
                a2[pend] = v
                if consistent(a2, facts):
                    stack.append(a2)
        return out
    finally:
        T._FACTS.pop()


def _sel(a, asg, facts):
    if a[0] in ('phi', 'ind'):
        c = T.cond_eval(a[1], asg)
        if c is True:
            return simplify(a[2], asg, facts) if a[0] == 'phi' else ONE
        if c is False:
            return simplify(a[3], asg, facts) if a[0] == 'phi' else ZERO
    return None


def _inner(c):
    """An innermost condition atom of c (one without selections inside)."""
    found = []

    def visit(a):
        if a[0] in ('phi', 'ind'):
            for x in T.cond_atoms(a[1]):
                if not _has_phi(x):
                    found.append(x)
    T.walk(c, visit)
    return found[0] if found else c


def compare(l1, l2, facts, same=None):
    """First disagreement between two decision trees, or None.
    Effects in a leaf are compared as multisets."""
    n = 0
    for a1, r1 in l1:
        for a2, r2 in l2:
            clash = any(k in a2 and a2[k] != v for k, v in a1.items())
            if clash:
                continue
            m = dict(a1)
            m.update(a2)
            if not consistent(m, facts):
                continue
            n += 1
            k1 = sorted(map(repr, (x[:4] for x in r1)))
            k2 = sorted(map(repr, (x[:4] for x in r2)))
            if k1 != k2:
                return dict(assignment=m, left=r1, right=r2), n
    return None, n
