"""Library model of the host interpreter: numpy, scipy.fft, torch (GPU mode), builtins.

Element-wise operations act on element terms; transforms, reductions and reads of
unknown content are uninterpreted functions of their operands' element functions,
with linear factors pulled out.  Anything not listed is an uninterpreted call.
"""
import ast
import os
from fractions import Fraction
from . import terms as T
from .terms import Poly, A, ZERO, ONE, num, sym, phi, cand, cor, cnot
from .flow import (V, K, NONE, DT, Num, B, Tup, Slc, Ref, AV, Fn, Cls, Mod, Ext, Bound, Py, Phi, Opq,
                   UNDEF, ArrC, ListC, DictC, InstC, State, Unsup, RaiseSig, ix, addpc, ite)

HALF = Fraction(1, 2)
DTS = ('bool', 'int8', 'uint8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'complex64', 'complex128')
WEAK = ('pybool', 'pyint', 'pyfloat', 'pycomplex')
ALIAS = {'float': 'float64', 'int': 'int64', 'complex': 'complex128', 'float_': 'float64', 'int_': 'int64',
         'complex_': 'complex128', 'bool_': 'bool', 'double': 'float64', 'single': 'float32', 'intp': 'int64',
         'long': 'int64', 'cfloat': 'complex64', 'cdouble': 'complex128'}
REALDT = {'complex64': 'float32', 'complex128': 'float64', 'pycomplex': 'pyfloat'}
CPLXDT = {'float32': 'complex64', 'float64': 'complex128', 'pyfloat': 'pycomplex', 'pyint': 'pycomplex',
          'int64': 'complex128', 'int32': 'complex128', 'bool': 'complex128'}


def from_data(p):
    """does the value depend on array elements"""
    out = []
    T.walk(p, lambda a: out.append(a) if a[0] in ('get', 'kern') else None)
    return bool(out)


BUILTINS = set('''isinstance len range zip enumerate any all getattr hasattr setattr int float str bool complex
min max abs round sorted reversed type tuple list dict set frozenset print open sum repr callable map filter id iter
next issubclass super locals vars object slice divmod pow bytes format hash property staticmethod classmethod
Exception ValueError TypeError NotImplementedError RuntimeError KeyError IndexError ImportError ZeroDivisionError
AttributeError AssertionError FileNotFoundError OSError Warning DeprecationWarning StopIteration NameError
UnboundLocalError Ellipsis True False None NotImplemented __import__ delattr globals'''.split())

NDATTRS = set('''shape ndim dtype T real imag size copy astype reshape squeeze sum mean max min any all std var argmax
argmin ravel flatten conj conjugate transpose dot round clip cumsum prod tolist item fill view strides flags base data
nbytes itemsize ctypes take sort repeat tobytes swapaxes nonzero'''.split())
TATTRS = set('''shape ndim dtype T real imag device to cpu cuda numpy clone detach contiguous new_zeros data_ptr type
float double squeeze reshape sum mean max min any all std var argmax argmin flatten conj view dim size unsqueeze flip
item tolist is_cuda abs sqrt permute transpose copy_ numel nelement element_size stride cumsum prod round clip clamp ravel repeat
expand fill_ zero_ mul_ add_ div_ sub_ pow exp log log2 half long int bool conj_physical cos sin add mul sub div nonzero sort layout
requires_grad requires_grad_ new_ones new_empty new_full new_tensor split chunk t'''.split())


def rank(d):
    return {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3}[d[0]] if d in DTS else None


def promote(a, b, lib='np'):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a in WEAK and b in WEAK:
        return WEAK[max(WEAK.index(a), WEAK.index(b))]
    if a in WEAK:
        a, b = b, a
    if b in WEAK:
        w = WEAK.index(b)
        r = rank(a)
        if w <= r or b == 'pybool':
            return a
        if b == 'pyint':
            return 'int64'
        if b == 'pyfloat':
            return 'float64' if lib == 'np' else 'float32'
        return CPLXDT.get(a, 'complex128')
    ra, rb = rank(a), rank(b)
    if lib == 't' and ra != rb and 3 not in (ra, rb):
        return a if ra > rb else b
    if ra == rb:
        return a if DTS.index(a) > DTS.index(b) else b
    lo, hi = (a, b) if ra < rb else (b, a)
    if lo == 'bool':
        return hi
    rl, rh = rank(lo), rank(hi)
    if rl == 1 and rh == 2:
        if hi == 'float32' and lo in ('int32', 'int64'):
            return 'float64'
        return hi
    if rl == 1 and rh == 3:
        return 'complex128' if lo in ('int32', 'int64') else hi
    if rl == 2 and rh == 3:
        return 'complex128' if (lo == 'float64' or hi == 'complex128') else 'complex64'
    return hi


def call(name, *a):
    return A(('call', name) + a)


class Ptr(V):
    """device pointer of an array"""
    __slots__ = ('av',)

    def __init__(self, av):
        self.av = av

    def __repr__(self):
        return 'ptr(%r)' % (self.av,)


class RView(V):
    """torch.view_as_real of a complex tensor (trailing axis of 2, same storage)"""
    __slots__ = ('av',)

    def __init__(self, av):
        self.av = av

    def __repr__(self):
        return 'real(%r)' % (self.av,)


class GObj(V):
    """source template, substituted source, module or function of a GPU kernel"""
    __slots__ = ('kind', 'code', 'kw', 'name')

    def __init__(self, kind, code, kw=None, name=None):
        self.kind, self.code, self.kw, self.name = kind, code, kw, name

    def __repr__(self):
        return 'gpu-%s(%s)' % (self.kind, self.name or '')


REALOF = {'complex64': 'float32', 'complex128': 'float64'}


class Lib:
    builtins = BUILTINS

    def __init__(self, interp):
        self.I = interp
        self.kw_cache = {}
        self.tmp = 0
        self.opaque_used = {}
        interp.models.setdefault(('ssqueezepy.configs', '_get_gdefaults'), self.m_gdefaults)
        self._gd = None

    # ------------------------------------------------------------ names
    def canon(self, d):
        if d.startswith('np.'):
            return 'numpy.' + d[3:]
        return d

    def m_gdefaults(self, I, st, d, node):
        """configs.ini parsed by folding the package's own parser over the constant file."""
        if self._gd is None:
            I2 = type(I)(I.proj, models={('ssqueezepy.configs', '_get_gdefaults'): lambda *a: NotImplemented}, files=I.files)
            try:
                v, s2 = I2.run('ssqueezepy.configs', '_get_gdefaults', {})
            finally:
                T._FACTS.pop()

            def conv(x):
                x = I2.simp(s2, x)
                if isinstance(x, K):
                    return x.v
                if isinstance(x, Ref) and isinstance(s2.heap[x.h], DictC):
                    return {k: conv(y) for k, y in s2.heap[x.h].d.items()}
                raise Unsup('configs.ini value')
            self._gd = conv(v)

        def build(x):
            if isinstance(x, dict):
                return I.newdict(st, {k: build(y) for k, y in x.items()})
            return K(x)
        return build(self._gd)

    # ------------------------------------------------------------ small helpers
    @property
    def F(self):
        return self.I.facts

    def dim(self, p):
        c = p.const()
        return K(int(c)) if c is not None and c.denominator == 1 else Num(p, 'pyint')

    def shape_tuple(self, st, v):
        return Tup([self.dim(p) for p in self.I.ashape(st, v)])

    def pcond(self, p):
        c = p.const()
        if c is not None:
            return c != 0
        a = p.atom()
        if a is not None and a[0] == 'ind':
            return a[1]
        if a is not None and a[0] == 'phi':
            x, y = self.pcond(a[2]), self.pcond(a[3])
            return ite(a[1], x, y)
        q = (ONE - p).atom()
        if q is not None and q[0] == 'ind':
            return cnot(q[1])
        # products of indicators
        if len(p.m) == 1:
            (mono, c), = p.m.items()
            cs = []
            for at, e in mono:
                if at[0] == 'ind':
                    cs.append(at[1])
                else:
                    break
            else:
                return cand(*cs)
        return cnot(T.eq(p, ZERO, self.F))

    def level(self, p):
        m = [0]

        def visit(a):
            if a[0] == 'bv':
                m[0] = max(m[0], a[1] + 1)
        T.walk(p, visit)
        return m[0]

    def has_atom(self, x, at):
        return self.I.has(x, lambda a: a == at)

    def monos(self, p):
        for mono, c in p.m.items():
            yield mono, c

    def split_lin(self, p, lva):
        """p as sum of (independent factor, dependent part)."""
        groups = {}
        for mono, c in p.m.items():
            dep, ind = {}, {}
            for a, e in mono:
                (dep if self.has_atom(a, lva) else ind)[a] = e
            kd = tuple(sorted(dep.items(), key=repr))
            q = ZERO + Poly({tuple(sorted(ind.items(), key=lambda t: repr(t))): c}) if ind else num(c)
            groups[kd] = groups.get(kd, ZERO) + q
        for kd, q in groups.items():
            d = Poly({kd: Fraction(1)}) if kd else ONE
            yield q, d

    def sumover(self, p, lva, n):
        out = ZERO
        for q, d in self.split_lin(p, lva):
            if d == ONE:
                out = out + q * n
                continue
            a = d.atom()
            if a is not None and a[0] == 'sum':
                out = out + q * self.sumover(a[1], lva, n)
                continue
            out = out + q * A(('red', 'sum', n, self.I.bind(d, lva)))
        return out

    def tmpix(self):
        self.tmp += 1
        return ('lv', 1000 + self.tmp)

    # ------------------------------------------------------------ dtypes
    def dtname(self, st, v):
        """name | None (default / unspecified) | '?' (unknown)"""
        v = self.I.simp(st, v)
        if v is NONE or (isinstance(v, K) and v.v is None):
            return None
        if isinstance(v, K):
            if isinstance(v.v, DT):
                return v.v.name
            if isinstance(v.v, str):
                s = v.v.split('.')[-1]
                s = ALIAS.get(s, s)
                if s not in DTS:
                    raise RaiseSig('TypeError', 'data type %r not understood' % v.v)
                return s
            if isinstance(v.v, bool):
                return '?'
        if isinstance(v, Ext):
            s = v.name.split('.')[-1]
            s = ALIAS.get(s, s)
            if s in DTS:
                return s
        return '?'

    def dtv(self, name, lib='np'):
        return K(DT(name))

    def is_dt_value(self, v):
        return (isinstance(v, K) and isinstance(v.v, DT)) or (
            isinstance(v, Ext) and ALIAS.get(v.name.split('.')[-1], v.name.split('.')[-1]) in DTS
            and v.name.split('.')[0] in ('numpy', 'torch', 'builtins'))

    # ------------------------------------------------------------ arrays
    def isarr(self, v):
        return isinstance(v, AV)

    def scal(self, v):
        return isinstance(v, (Num, B)) or (isinstance(v, K) and isinstance(v.v, (bool, int, float, complex)))

    def lib_of(self, st, vals):
        libs = [self.I.alib(st, v) for v in vals if isinstance(v, AV)]
        if 't' in libs:
            return 't'
        return libs[0] if libs else 'np'

    def bshape(self, st, shapes, node=None):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = None
            for s in shapes:
                j = k - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x == ONE:
                    continue
                if d is None or d == x:
                    d = x
                else:
                    a, b = d.const(), x.const()
                    if a is not None and b is not None:
                        raise RaiseSig('ValueError', 'shapes %s cannot be broadcast' % (shapes,), node)
                    if (d - x).const() is not None:
                        raise RaiseSig('ValueError', 'shapes %s cannot be broadcast' % (shapes,), node)
                    self.I.event('shape-mismatch', (d, x), st, node)
                    if a is not None:
                        d = x if False else d
            out.append(ONE if d is None else d)
        return tuple(out)

    def bmaps(self, s, sh):
        off = len(sh) - len(s)
        return [ZERO if s[k] == ONE and sh[k + off] != ONE else ix(k + off) for k in range(len(s))]

    def bcast_body(self, st, val, sh):
        I = self.I
        if isinstance(val, AV):
            s = I.ashape(st, val)
            b = I.abody(st, val)
            if len(s) > len(sh):
                # leading unit axes may be dropped on assignment
                k = len(s) - len(sh)
                if any(d != ONE for d in s[:k]):
                    raise RaiseSig('ValueError', 'could not broadcast %s into %s' % (s, sh))
                b = I.reindex(b, [ZERO] * k + [ix(j) for j in range(len(sh))])
                s = s[k:]
            for k in range(len(s)):
                x, y = s[k], sh[k + len(sh) - len(s)]
                if x != ONE and x != y and (x - y).const() is not None:
                    raise RaiseSig('ValueError', 'could not broadcast %s into %s' % (s, sh))
                if x != ONE and x != y:
                    I.event('shape-mismatch', (x, y), st, None)
            return I.reindex(b, self.bmaps(s, sh))
        if self.scal(val) or isinstance(val, Opq):
            return I.P(val)
        if isinstance(val, Ref) or isinstance(val, Tup):
            return self.bcast_body(st, self.toarr(st, val), sh)
        if isinstance(val, Phi):
            return phi(val.c, self.bcast_body(st, val.a, sh), self.bcast_body(st, val.b, sh), self.F)
        raise Unsup('array content of %r' % (val,))

    def elem(self, st, f, vals, dt=None, node=None, lib=None):
        I = self.I
        if any(isinstance(v, Opq) for v in vals):
            arrs = [v for v in vals if isinstance(v, AV)]
            if arrs:
                # an opaque operand has unknown shape
                return Opq(call('elem', *[f(*[self.as_p(st, v) for v in vals])]))
            return Opq(f(*[I.P(v) for v in vals]))
        if all(self.scal(v) for v in vals):
            return I.mknum(f(*[I.P(v) for v in vals]), dt)
        vals = [v if self.scal(v) else self.toarr(st, v) for v in vals]
        if any(isinstance(v, Opq) for v in vals):
            return self.elem(st, f, vals, dt, node, lib)
        if not any(isinstance(v, AV) for v in vals):
            raise Unsup('elementwise operation on %r' % (vals,))
        sh = self.bshape(st, [I.ashape(st, v) for v in vals if isinstance(v, AV)], node)
        body = f(*[self.bcast_body(st, v, sh) for v in vals])
        return I.newarr(st, sh, body, dt, lib or self.lib_of(st, vals))

    def as_p(self, st, v):
        if isinstance(v, AV):
            return self.I.abody(st, v)
        return self.I.P(v)

    def dts(self, st, v):
        if isinstance(v, AV):
            return self.I.adt(st, v)
        return self.I.dt_of(v)

    def toarr(self, st, v, dt=None):
        """Array (or scalar) from nested lists."""
        I = self.I
        v = I.simp(st, v)
        if isinstance(v, (AV, Opq)) or self.scal(v):
            return v
        if isinstance(v, Phi):
            return I.split(st, v, lambda s, x: self.toarr(s, x))
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC) and c.kind == '#map':
                return self.stack_map(st, c)
            if isinstance(c, ListC) and c.kind == '#range':
                lo, hi, step = [I.P(x) for x in c.items]
                if step == ONE:
                    return I.newarr(st, (hi - lo,), lo + ix(0), 'int64')
            if isinstance(c, ListC) and c.kind == '#rep':
                n, x = c.items
                return I.newarr(st, (I.P(n),), I.P(x), I.dt_of(x))
            if isinstance(c, InstC):
                return Opq(call('asarray', I.as_term(st, v)))
        if isinstance(v, (Ref, Tup)):
            items = I.try_items(st, v)
            if items is None:
                raise Unsup('array from %r' % (v,))
            items = [self.toarr(st, x) for x in items]
            if any(isinstance(x, Opq) for x in items):
                if all(isinstance(x, Opq) or self.scal(x) for x in items):
                    b = I.P(items[-1])
                    for i in range(len(items) - 2, -1, -1):
                        b = phi(T.eq(ix(0), num(i), self.F), I.P(items[i]), b, self.F)
                    return I.newarr(st, (num(len(items)),), b, None)
                return Opq(call('array', *[I.as_term(st, x) for x in items]))
            return self.stack(st, items, 0)
        if isinstance(v, K) and v.v is None:
            return Opq(call('array', ('k', 'None')))
        if isinstance(v, K) and isinstance(v.v, str):
            return Opq(call('array', ('k', repr(v.v))))
        raise Unsup('array from %r' % (v,))

    def stack(self, st, items, axis=0):
        I = self.I
        if not items:
            return I.newarr(st, (ZERO,), ZERO, 'float64')
        dt = None
        if all(self.scal(x) for x in items):
            b = I.P(items[-1])
            dt = self.dts(st, items[-1])
            for i in range(len(items) - 2, -1, -1):
                b = phi(T.eq(ix(0), num(i), self.F), I.P(items[i]), b, self.F)
                dt = promote(dt, self.dts(st, items[i]))
            dt = {'pyint': 'int64', 'pyfloat': 'float64', 'pycomplex': 'complex128', 'pybool': 'bool'}.get(dt, dt)
            return I.newarr(st, (num(len(items)),), b, dt)
        sh = self.bshape(st, [I.ashape(st, x) if isinstance(x, AV) else () for x in items])
        n = len(sh)
        m = [ix(k) if k < axis else ix(k + 1) for k in range(n)]
        bs = [I.reindex(self.bcast_body(st, x, sh), m) for x in items]
        b = bs[-1]
        dt = self.dts(st, items[-1])
        for i in range(len(bs) - 2, -1, -1):
            b = phi(T.eq(ix(axis), num(i), self.F), bs[i], b, self.F)
            dt = promote(dt, self.dts(st, items[i]))
        return I.newarr(st, sh[:axis] + (num(len(items)),) + sh[axis:], b, dt, self.lib_of(st, items))

    def stack_map(self, st, c):
        I = self.I
        n, f = c.items
        t = self.tmpix()
        x = f.fn(I, st, [Num(A(t), 'pyint')], {}, None)
        if isinstance(x, (Num, Opq)):
            b = T.subst(x.p, lambda a: ix(0) if a == t else None)
            return I.newarr(st, (I.P(n),), b, self.strong(self.dts(st, x)) if isinstance(x, Num) else None)
        if isinstance(x, AV):
            sh = I.ashape(st, x)
            b = I.reindex(I.abody(st, x), [ix(k + 1) for k in range(len(sh))])
            b = T.subst(b, lambda a: ix(0) if a == t else None)
            return I.newarr(st, (I.P(n),) + tuple(sh), b, I.adt(st, x), I.alib(st, x))
        raise Unsup('array from symbolic list')

    def strong(self, dt):
        return {'pyint': 'int64', 'pyfloat': 'float64', 'pycomplex': 'complex128', 'pybool': 'bool'}.get(dt, dt)

    def shape_arg(self, st, v):
        I = self.I
        v = I.simp(st, v)
        if isinstance(v, (Num, Opq)) or (isinstance(v, K) and isinstance(v.v, int)):
            return (I.P(v),)
        if isinstance(v, K) and isinstance(v.v, (float, str)):
            raise RaiseSig('TypeError', 'expected a sequence of integers or a single integer, got %r' % (v.v,))
        if isinstance(v, (Tup, Ref)):
            return tuple(I.P(I.simp(st, x)) for x in I.iter_items(st, v))
        raise Unsup('shape %r' % (v,))

    def axis_arg(self, st, v, nd):
        v = self.I.simp(st, v)
        if isinstance(v, K) and isinstance(v.v, int):
            a = v.v + nd if v.v < 0 else v.v
            if not 0 <= a < nd:
                raise RaiseSig('AxisError', 'axis %s out of bounds' % v.v)
            return a
        if isinstance(v, Tup) and len(v.items) == 1:
            return self.axis_arg(st, v.items[0], nd)
        raise Unsup('axis %r' % (v,))

    def simp_under(self, p, asg):
        def f(a):
            if a[0] == 'phi':
                c = T.cond_eval(T.subst_cond(a[1], f, self.F), asg)
                return phi(c, T.subst(a[2], f), T.subst(a[3], f), self.F)
            if a[0] == 'ind':
                return T.ind(T.cond_eval(T.subst_cond(a[1], f, self.F), asg))
            return None
        return T.subst(p, f)

    def inbounds(self, sh):
        asg = {}
        for k, d in enumerate(sh):
            c = T.lt(ix(k), d, self.F)
            if not isinstance(c, bool):
                asg[c] = True
            c = T.ge(ix(k), d, self.F)
            if not isinstance(c, bool):
                if c[0] == 'not':
                    asg[c[1]] = True
                else:
                    asg[c] = False
        return asg

    def norm(self, body, sh):
        return self.simp_under(body, self.inbounds(sh))

    # ------------------------------------------------------------ indexing
    def slice_bounds(self, st, s, n, node):
        """(start, stop, step) as Polys / int for a slice over an axis of length n."""
        I = self.I

        def one(v, default):
            v = I.simp(st, v)
            if isinstance(v, K) and v.v is None:
                return default
            if isinstance(v, K) and isinstance(v.v, bool):
                return num(int(v.v))
            if isinstance(v, K) and isinstance(v.v, int):
                if v.v >= 0:
                    c = n.const()
                    if c is not None:
                        return num(min(v.v, int(c)))
                    return num(v.v)
                c = n.const()
                if c is not None:
                    return num(max(0, int(c) + v.v))
                return n + num(v.v)
            if isinstance(v, AV) and I.ashape(st, v) == ():
                v = Num(I.abody(st, v), I.adt(st, v))
            if isinstance(v, (Num, Opq)):
                p = I.P(v)
                sg = self.F.sign(p)
                if sg in ('0-',):
                    I.event('negslice', (p, n), st, node)
                    return n + p
                if sg == '-' or (sg is None and p.m and all(c < 0 for c in p.m.values())):
                    if sg is None:
                        I.event('negslice', (p, n), st, node)
                    return n + p
                if sg is None and from_data(p):
                    # counts from the end where negative
                    q = n + p
                    lo = T._lat('max', [q, ZERO], self.F)
                    return T.phi(('gt0', -p), lo, p, self.F)
                return p
            if isinstance(v, Phi):
                return T.phi(v.c, one(v.a, default), one(v.b, default), self.F)
            raise Unsup('slice bound %r' % (v,))
        step = I.simp(st, s.step)
        k = 1
        if isinstance(step, K) and step.v is not None:
            k = step.v
        elif isinstance(step, Num):
            return one(s.lo, ZERO), one(s.hi, n), step.p
        if k > 0:
            return one(s.lo, ZERO), one(s.hi, n), k
        lo = I.simp(st, s.lo)
        hi = I.simp(st, s.hi)
        a = n - ONE if isinstance(lo, K) and lo.v is None else one(lo, None)
        b = -ONE if isinstance(hi, K) and hi.v is None else one(hi, None)
        return a, b, k

    def view(self, st, av, i, node):
        """Basic indexing: an alias.  None if the index is not basic."""
        I = self.I
        sh = I.ashape(st, av)
        c = st.heap[av.h]
        base = av.maps if av.maps is not None else tuple(ix(k) for k in range(len(c.sh)))
        i = I.simp(st, i)
        items = list(i.items) if isinstance(i, Tup) else [i]
        items = [I.simp(st, x) for x in items]
        isnew = lambda x: isinstance(x, K) and x.v is None
        isell = lambda x: (isinstance(x, K) and x.v is Ellipsis) or (isinstance(x, Ext) and x.name.endswith('Ellipsis'))
        used = sum(1 for x in items if not isnew(x) and not isell(x))
        if any(isell(x) for x in items):
            k = [q for q, x in enumerate(items) if isell(x)][0]
            items[k:k + 1] = [Slc(NONE, NONE, NONE)] * (len(sh) - used)
        if used > len(sh):
            raise RaiseSig('IndexError', 'too many indices', node)
        items += [Slc(NONE, NONE, NONE)] * (len(sh) - sum(1 for x in items if not isnew(x)))
        nsh, maps = [], []
        k = 0
        for x in items:
            if isnew(x):
                nsh.append(ONE)
                continue
            n = sh[k]
            if isinstance(x, Slc):
                lo, hi, step = self.slice_bounds(st, x, n, node)
                j = len(nsh)
                if isinstance(step, Poly):
                    nsh.append(call('ceil', T.div(hi - lo, step)))
                    maps.append(lo + ix(j) * step)
                elif step == 1:
                    m = hi - lo
                    mc = m.const()
                    if mc is not None and mc < 0:
                        m = ZERO
                    nsh.append(m)
                    maps.append(lo + ix(j))
                elif step > 0:
                    m = hi - lo
                    mc = m.const()
                    nsh.append(num(-(-int(mc) // step)) if mc is not None else call('ceil', T.div(m, num(step))))
                    maps.append(lo + ix(j).scale(step))
                else:
                    m = lo - hi
                    mc = m.const()
                    s = -step
                    if s == 1:
                        nsh.append(m)
                    else:
                        nsh.append(num(-(-int(mc) // s)) if mc is not None else call('ceil', T.div(m, num(s))))
                    maps.append(lo - ix(j).scale(s))
            elif isinstance(x, K) and isinstance(x.v, bool):
                return None
            elif isinstance(x, K) and isinstance(x.v, int):
                cn = n.const()
                if cn is not None and not -cn <= x.v < cn:
                    raise RaiseSig('IndexError', 'index %d out of bounds for axis of size %d' % (x.v, int(cn)), node)
                maps.append(num(x.v) if x.v >= 0 else n + num(x.v))
            elif isinstance(x, Num) or (isinstance(x, AV) and I.ashape(st, x) == () and I.adt(st, x) != 'bool'):
                p = x.p if isinstance(x, Num) else I.abody(st, x)
                sg = self.F.sign(p)
                maps.append(n + p if sg == '-' else p)
            else:
                return None
            k += 1
        # compose with existing maps
        out = tuple(I.reindex(b, maps) if False else T.subst(b, lambda a: maps[a[1]] if a[0] == 'ix' else None) for b in base)
        return AV(av.h, tuple(nsh), out)

    def mask_of(self, st, o, i):
        I = self.I
        if isinstance(i, AV) and I.adt(st, i) == 'bool':
            return i
        # positions where a condition holds: np.where(c), np.nonzero(c)
        its = i.items if isinstance(i, Tup) else [i]
        sh = I.ashape(st, o)
        if len(its) != len(sh):
            return None
        lam = None
        for k, v in enumerate(its):
            v = I.simp(st, v)
            a = I.abody(st, v).atom() if isinstance(v, AV) and len(I.ashape(st, v)) == 1 else None
            if a is None or a[0] != 'nz' or a[2] != k or a[3] != ix(0) or (lam is not None and a[1] != lam):
                return None
            lam = a[1]
        return I.newarr(st, lam[1], T.subst(lam[2], lambda a: ix(a[1]) if a[0] == 'lx' else None), 'bool')

    def nz(self, st, mask, k, i):
        return A(('nz', self.I.lam(self.I.ashape(st, mask), self.I.abody(st, mask)), k, i))

    def subscript(self, st, o, i, node):
        I = self.I
        if isinstance(o, AV):
            if isinstance(i, AV) and I.adt(st, i) == 'bool' and I.ashape(st, i) != ():
                msh = I.ashape(st, i)
                sh = I.ashape(st, o)
                if len(msh) == len(sh):
                    n = call('count', I.lam(msh, I.abody(st, i)))
                    b = I.reindex(I.abody(st, o), [self.nz(st, i, k, ix(0)) for k in range(len(sh))])
                    return I.newarr(st, (n,), b, I.adt(st, o), I.alib(st, o))
                return Opq(call('masked-read', I.as_term(st, o), I.as_term(st, i)))
            v = self.view(st, o, i, node)
            if v is not None:
                if I.ashape(st, v) == () and I.alib(st, o) != 't':
                    p = I.abody(st, v)
                    dt = I.adt(st, o)
                    if dt == 'bool':
                        c = self.pcond(p)
                        return K(c) if isinstance(c, bool) else B(c)
                    return I.mknum(p, dt)
                return v
            # gather
            sh = I.ashape(st, o)
            items = list(i.items) if isinstance(i, Tup) else [i]
            items = [I.simp(st, x) for x in items]
            if any(isinstance(x, K) and x.v is None for x in items):
                raise Unsup('newaxis with advanced index')
            arrs = []
            for x in items:
                if isinstance(x, (AV, Ref, Tup)):
                    x = self.toarr(st, x)
                    if isinstance(x, AV) and I.adt(st, x) == 'bool':
                        raise Unsup('mixed mask index')
                    arrs.append(x)
                elif isinstance(x, Opq):
                    return Opq(call('index', I.as_term(st, o), I.as_term(st, i)))
                else:
                    arrs.append(x)
            avs = [x for x in arrs if isinstance(x, AV)]
            if not avs:
                if any(isinstance(x, Opq) for x in arrs):
                    return Opq(call('index', I.as_term(st, o), I.as_term(st, i)))
                raise RaiseSig('IndexError', 'invalid index %r' % (i,), node)
            ash = self.bshape(st, [I.ashape(st, x) for x in avs])
            pos = [k for k, x in enumerate(arrs) if isinstance(x, AV)]
            if pos != list(range(pos[0], pos[0] + len(pos))):
                raise Unsup('split advanced index')
            nsh, maps = [], []
            done = False
            for k, n in enumerate(sh):
                x = arrs[k] if k < len(arrs) else Slc(NONE, NONE, NONE)
                if isinstance(x, AV):
                    if not done:
                        a0 = len(nsh)
                        nsh += list(ash)
                        done = True
                    b = self.bcast_body(st, x, ash)
                    maps.append(I.reindex(b, [ix(a0 + q) for q in range(len(ash))]))
                elif isinstance(x, Slc):
                    lo, hi, step = self.slice_bounds(st, x, n, node)
                    if step != 1:
                        raise Unsup('stepped slice with advanced index')
                    maps.append(lo + ix(len(nsh)))
                    nsh.append(hi - lo)
                else:
                    p = I.P(x)
                    maps.append(n + p if self.F.sign(p) == '-' else p)
            return I.newarr(st, nsh, I.reindex(I.abody(st, o), maps), I.adt(st, o), I.alib(st, o))
        if isinstance(o, Tup) or (isinstance(o, Ref) and isinstance(st.heap[o.h], ListC)):
            if isinstance(o, Ref) and st.heap[o.h].kind.startswith('#'):
                si = I.sym_iter(st, o)
                if si is None:
                    raise Unsup('index of iterator')
                n, f = si
                if isinstance(i, K) and isinstance(i.v, int):
                    return f(st, num(i.v) if i.v >= 0 else n + num(i.v))
                if isinstance(i, Num):
                    return f(st, i.p)
                raise Unsup('index of symbolic list')
            items = o.items if isinstance(o, Tup) else st.heap[o.h].items
            if isinstance(i, K) and isinstance(i.v, int):
                if not -len(items) <= i.v < len(items):
                    raise RaiseSig('IndexError', 'index %d of %d items' % (i.v, len(items)), node)
                return items[i.v]
            if isinstance(i, Slc):
                ks = []
                for x in (i.lo, i.hi, i.step):
                    x = I.simp(st, x)
                    if not isinstance(x, K):
                        raise Unsup('symbolic slice of a list')
                    ks.append(x.v)
                r = items[slice(*ks)]
                return Tup(r) if isinstance(o, Tup) else I.newlist(st, r)
            if isinstance(i, Num):
                b = items[-1]
                for k in range(len(items) - 2, -1, -1):
                    b = I.merge_val(st, T.eq(i.p, num(k), self.F), items[k], b) if not isinstance(T.eq(i.p, num(k), self.F), bool) else b
                return b
            if isinstance(i, K):
                raise RaiseSig('TypeError', 'list index %r' % (i.v,), node)
            raise Unsup('list index %r' % (i,))
        if isinstance(o, Ref):
            c = st.heap[o.h]
            if isinstance(c, DictC):
                i = I.simp(st, i)
                if isinstance(i, Phi):
                    return I.split(st, i, lambda s, x: self.subscript(s, o, x, node))
                k = I.key(st, i)
                if k in c.d:
                    v = I.simp(st, c.d[k])
                    if v is UNDEF:
                        raise RaiseSig('KeyError', repr(k), node)
                    if isinstance(v, Phi) and I.has_undef(v):
                        def kk(s, x):
                            if x is UNDEF:
                                raise RaiseSig('KeyError', repr(k), node)
                            return x
                        return I.split(st, v, kk)
                    return v
                if isinstance(k, tuple) and k[:1] == ('#sym',):
                    return Opq(call('item', I.as_term(st, o), k[1]))
                # string keys that are gated are split by the caller
                raise RaiseSig('KeyError', repr(k), node)
            if isinstance(c, InstC):
                return I.call_method(st, o, '__getitem__', [i], {}, node)
        if isinstance(o, K) and isinstance(o.v, str):
            if isinstance(i, K) and isinstance(i.v, int):
                try:
                    return K(o.v[i.v])
                except IndexError:
                    raise RaiseSig('IndexError', '', node)
            if isinstance(i, Slc):
                ks = [I.simp(st, x) for x in (i.lo, i.hi, i.step)]
                if all(isinstance(x, K) for x in ks):
                    return K(o.v[slice(*[x.v for x in ks])])
            return Opq(call('substr', ('k', o.v), I.as_term(st, i)))
        if isinstance(o, Opq):
            return Opq(call('item', o.p, I.as_term(st, i)))
        if isinstance(o, Ext):
            if o.name == 'os.environ':
                k = I.key(st, i)
                if k in I.envvars:
                    return K(I.envvars[k])
                raise RaiseSig('KeyError', k, node)
            return Opq(call('item', ('ext', o.name), I.as_term(st, i)))
        if isinstance(o, (K, Num, B, Fn)):
            raise RaiseSig('TypeError', '%r is not subscriptable' % (o,), node)
        raise Unsup('subscript of %r' % (o,))

    # ------------------------------------------------------------ operators
    def arith(self, op, a, b):
        t = type(op)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            return a * b
        if t is ast.Div:
            if b == ZERO:
                return call('div0', a)
            return T.div(a, b)
        if t is ast.FloorDiv:
            return self.floordiv(a, b)
        if t is ast.Mod:
            return self.mod(a, b)
        if t is ast.Pow:
            return self.pow(a, b)
        raise Unsup('operator %s' % t.__name__)

    def pow(self, a, b):
        c = b.const()
        if c is not None and a == ZERO and c <= 0:
            return ONE if c == 0 else call('div0', ONE)
        if a == -ONE:
            return call('altsign', b)
        return T.pw(a, b)

    def floordiv(self, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and cb:
            return num(Fraction((ca / cb).__floor__()))
        if b == ONE and self.F.is_int(a):
            return a
        q = T.div(a, b)
        if self.F.is_int(q):
            return q
        if cb is not None:
            whole, rest = self.wholes(q)
            if whole != ZERO and rest.const() is not None:
                return whole + num(Fraction(rest.const().__floor__()))
        return call('floordiv', a, b)

    def wholes(self, q):
        """(integer-valued terms, the others)"""
        whole = ZERO
        for m, c in q.m.items():
            t = Poly({m: c})
            if m != () and self.F.is_int(t):
                whole = whole + t
        return whole, q - whole

    def ceilp(self, q):
        if self.F.is_int(q):
            return q
        whole, rest = self.wholes(q)
        if whole != ZERO and rest.const() is not None:
            return whole + num(Fraction(rest.const().__ceil__()))
        return call('ceil', q)

    def mod(self, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and cb:
            return num(ca - cb * (ca / cb).__floor__())
        q = T.div(a, b)
        if self.F.is_int(q):
            return ZERO
        if cb is not None:
            whole, rest = self.wholes(q)
            r = rest.const()
            if whole != ZERO and r is not None:
                return num((r - r.__floor__()) * cb)
        return call('mod', a, b)

    def opdt(self, st, op, a, b):
        x, y = self.dts(st, a), self.dts(st, b)
        lib = self.lib_of(st, [a, b])
        # a torch array dominates python / numpy scalars of the same category
        r = promote(x, y, lib)
        if isinstance(op, ast.Div):
            if r in ('pyint', 'pybool'):
                return 'pyfloat'
            if r in ('int64', 'int32', 'bool'):
                return 'float64' if lib == 'np' else 'float32'
        if isinstance(op, ast.Pow) and r in ('pyint',) and not (isinstance(b, K) and isinstance(b.v, int) and b.v >= 0):
            return 'pyint' if isinstance(b, Num) else 'pyfloat'
        if r in ('bool', 'pybool'):
            return 'bool' if (isinstance(op, (ast.Mult, ast.Add)) and r == 'bool') else 'pyint'
        return r

    def binop(self, st, op, a, b, node):
        I = self.I
        a, b = I.simp(st, a), I.simp(st, b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            return I.splitn(st, [a, b], lambda s, x, y: self.binop(s, op, x, y, node))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.bitop(st, op, a, b, node)
        if isinstance(a, K) and isinstance(a.v, str):
            if isinstance(op, ast.Add):
                if isinstance(b, K) and isinstance(b.v, str):
                    return K(a.v + b.v)
                if isinstance(b, Opq):
                    return Opq(call('str', ('k', a.v), b.p))
                raise RaiseSig('TypeError', 'str + %r' % (b,), node)
            if isinstance(op, ast.Mod):
                return self.fstring(st, [a, b], node)
            if isinstance(op, ast.Mult) and isinstance(b, K):
                return K(a.v * b.v)
            return Opq(call('str', ('k', a.v), I.as_term(st, b)))
        if isinstance(b, K) and isinstance(b.v, str):
            if isinstance(a, Opq):
                return Opq(call('str', a.p, ('k', b.v)))
            raise RaiseSig('TypeError', 'operand types', node)
        seq = lambda v: isinstance(v, Tup) or (isinstance(v, Ref) and isinstance(st.heap[v.h], ListC))
        if seq(a) or seq(b):
            if isinstance(op, ast.Add) and seq(a) and seq(b):
                x, y = I.iter_all(st, a), I.iter_all(st, b)
                r = list(x) + list(y)
                return Tup(r) if isinstance(a, Tup) else I.newlist(st, r)
            if isinstance(op, ast.Mult):
                s, n = (a, b) if seq(a) else (b, a)
                if isinstance(n, K) and isinstance(n.v, int):
                    r = list(I.iter_all(st, s)) * n.v
                    return Tup(r) if isinstance(s, Tup) else I.newlist(st, r)
                if isinstance(n, Num):
                    it = I.iter_all(st, s)
                    if len(it) == 1:
                        return Ref(I.new(st, ListC([n, it[0]], '#rep')))
            if isinstance(a, AV) or isinstance(b, AV):
                return self.binop(st, op, self.toarr(st, a), self.toarr(st, b), node)
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Opq(call('binop', type(op).__name__, I.as_term(st, a), I.as_term(st, b)))
            raise RaiseSig('TypeError', 'sequence operand', node)
        for v in (a, b):
            if isinstance(v, K) and (v.v is None or isinstance(v.v, (DT, str))) or isinstance(v, (Fn, Cls, Mod, Slc)):
                raise RaiseSig('TypeError', 'unsupported operand %r' % (v,), node)
            if isinstance(v, Ref):
                c = st.heap[v.h]
                if isinstance(c, DictC):
                    raise RaiseSig('TypeError', 'dict operand', node)
                return Opq(call('binop', type(op).__name__, I.as_term(st, a), I.as_term(st, b)))
            if isinstance(v, (Ext, Bound, Py)):
                return Opq(call('binop', type(op).__name__, I.as_term(st, a), I.as_term(st, b)))
        if isinstance(op, ast.MatMult):
            return Opq(call('matmul', I.as_term(st, a), I.as_term(st, b)))
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, (int, bool)) and isinstance(b.v, (int, bool)):
            t = type(op)
            x, y = int(a.v), int(b.v)
            if t in (ast.Add, ast.Sub, ast.Mult):
                return K(x + y if t is ast.Add else x - y if t is ast.Sub else x * y)
            if t in (ast.Div, ast.FloorDiv, ast.Mod) and y == 0:
                raise RaiseSig('ZeroDivisionError', '', node)
            if t is ast.FloorDiv:
                return K(x // y)
            if t is ast.Mod:
                return K(x % y)
            if t is ast.Pow and y >= 0 and y < 64:
                return K(x ** y)
            if t is ast.Div and x % y == 0:
                return K(x / y)
        dt = self.opdt(st, op, a, b)
        return self.elem(st, lambda x, y: self.arith(op, x, y), [a, b], dt, node)

    def bitop(self, st, op, a, b, node):
        I = self.I
        f = {ast.BitAnd: cand, ast.BitOr: cor}.get(type(op))
        seq = lambda v: isinstance(v, Ref) and isinstance(st.heap[v.h], ListC)
        if seq(a) and seq(b):
            x, y = list(I.iter_all(st, a)), list(I.iter_all(st, b))
            r = [v for v in x if v in y] if isinstance(op, ast.BitAnd) else x + [v for v in y if v not in x]
            return I.newlist(st, r, 'set')
        if I.isbool(a) and I.isbool(b) and f:
            c = f(I.cond_of(a), I.cond_of(b))
            return K(c) if isinstance(c, bool) else B(c)
        if (isinstance(a, AV) or isinstance(b, AV)) and f:
            return self.elem(st, lambda x, y: T.ind(f(self.pcond(x), self.pcond(y))), [a, b], 'bool', node)
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, int) and isinstance(b.v, int):
            return K({ast.BitAnd: a.v & b.v, ast.BitOr: a.v | b.v, ast.BitXor: a.v ^ b.v}[type(op)])
        return Opq(call('bitop', type(op).__name__, I.as_term(st, a), I.as_term(st, b)))

    def unop(self, st, op, a, node):
        I = self.I
        a = I.simp(st, a)
        if isinstance(op, ast.USub):
            if isinstance(a, K) and isinstance(a.v, (int, float, complex)):
                return K(-a.v)
            if isinstance(a, (Num, AV, Opq, B)):
                return self.elem(st, lambda x: -x, [a], self.dts(st, a), node)
        if isinstance(op, ast.UAdd):
            return a
        if isinstance(op, ast.Invert):
            if isinstance(a, AV):
                return self.elem(st, lambda x: T.ind(cnot(self.pcond(x))), [a], 'bool', node)
            if isinstance(a, (B,)):
                return B(cnot(a.c))
            if isinstance(a, K):
                return K(~a.v) if not isinstance(a.v, bool) else K(-1 - int(a.v))
        if isinstance(a, (K, Tup, Fn, Cls)):
            raise RaiseSig('TypeError', 'bad operand %r' % (a,), node)
        return Opq(call('unop', type(op).__name__, I.as_term(st, a)))

    def bool_(self, c):
        return K(c) if isinstance(c, bool) else B(c)

    def compare(self, st, op, a, b, node):
        I = self.I
        a, b = I.simp(st, a), I.simp(st, b)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            c = self.is_(st, a, b)
            return self.bool_(cnot(c) if t is ast.IsNot else c)
        if t in (ast.In, ast.NotIn):
            c = self.in_(st, a, b, node)
            return self.bool_(cnot(c) if t is ast.NotIn else c)
        if isinstance(a, AV) or isinstance(b, AV):
            other = b if isinstance(a, AV) else a
            if isinstance(other, K) and (other.v is None or isinstance(other.v, str)):
                return K(t is ast.NotEq)
            if isinstance(other, (Tup, Ref)):
                a, b = self.toarr(st, a), self.toarr(st, b)
            f = self.cmpf(t)
            r = self.elem(st, lambda x, y: T.ind(f(x, y)), [a, b], 'bool', node)
            return r
        if t in (ast.Eq, ast.NotEq):
            c = self.equal(st, a, b)
            return self.bool_(cnot(c) if t is ast.NotEq else c)
        if self.scal(a) and self.scal(b):
            c = self.cmpf(t)(I.P(a), I.P(b))
            return self.bool_(I.decide(st, c))
        if isinstance(a, Opq) or isinstance(b, Opq):
            if (self.scal(a) or isinstance(a, Opq)) and (self.scal(b) or isinstance(b, Opq)):
                return self.bool_(I.decide(st, self.cmpf(t)(I.P(a), I.P(b))))
            return B(('flag', call('cmp', t.__name__, I.as_term(st, a), I.as_term(st, b))))
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
            return K({ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[t])
        if isinstance(a, Ref) and isinstance(st.heap[a.h], InstC):
            return B(('flag', call('cmp', t.__name__, I.as_term(st, a), I.as_term(st, b))))
        raise RaiseSig('TypeError', "'%s' not supported between %r and %r" % (t.__name__, a, b), node)

    def cmpf(self, t):
        F = self.F

        def nan(x):
            return x == A(T.NAN)
        return {ast.Lt: lambda x, y: T.lt(x, y, F), ast.LtE: lambda x, y: T.le(x, y, F),
                ast.Gt: lambda x, y: T.gt(x, y, F), ast.GtE: lambda x, y: T.ge(x, y, F),
                ast.Eq: lambda x, y: self.eqc(x, y), ast.NotEq: lambda x, y: cnot(self.eqc(x, y))}[t]

    def eqc(self, x, y):
        if self.F.sign(x - y) in ('+', '-'):
            return False
        inf = A(T.INF)
        if y == inf:
            return ('isinf', x) if x != inf else True
        return T.eq(x, y, self.F)

    def is_(self, st, a, b):
        I = self.I
        if isinstance(a, Phi) or isinstance(b, Phi):
            raise Unsup('identity of gated values')
        if isinstance(a, K) and isinstance(b, K):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return type(a.v) is type(b.v) and a.v == b.v
            return type(a.v) is type(b.v) and a.v == b.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq):
                if isinstance(y, K):
                    return ('flag', call('is', x.p, ('k', repr(y.v))))
                if x == y:
                    return True
                return ('flag', call('is', x.p, I.as_term(st, y)))
            if isinstance(x, B) and isinstance(y, K) and isinstance(y.v, bool):
                return x.c if y.v else cnot(x.c)
        if isinstance(a, AV) and isinstance(b, AV):
            return a.h == b.h and a.maps == b.maps
        if self.is_dt_value(a) and self.is_dt_value(b):
            return self.dtname(st, a) == self.dtname(st, b)
        return a == b

    def equal(self, st, a, b):
        I = self.I
        if isinstance(a, Phi) or isinstance(b, Phi):
            raise Unsup('equality of gated values')
        if self.scal(a) and self.scal(b):
            if isinstance(a, K) and isinstance(b, K):
                return a.v == b.v
            return I.decide(st, self.eqc(I.P(a), I.P(b)))
        if self.is_dt_value(a) or self.is_dt_value(b):
            def nm(v):
                if self.is_dt_value(v):
                    return self.dtname(st, v)
                if isinstance(v, K) and isinstance(v.v, str):
                    return ALIAS.get(v.v, v.v)
                return None
            x, y = nm(a), nm(b)
            for v in (a, b):
                if isinstance(v, Opq):
                    return ('flag', call('eq', *sorted([repr(I.as_term(st, a)), repr(I.as_term(st, b))])))
            return x is not None and x == y
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opq) and self.scal(y) and not I.isbool(y):
                    return I.decide(st, self.eqc(x.p, I.P(y)))
            x, y = sorted([I.as_term(st, a), I.as_term(st, b)], key=repr)
            return ('flag', call('eq', x, y))
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return cand(*[self.equal(st, I.simp(st, x), I.simp(st, y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.h == b.h:
                return True
            x, y = st.heap[a.h], st.heap[b.h]
            if isinstance(x, ListC) and isinstance(y, ListC):
                if len(x.items) != len(y.items):
                    return False
                return cand(*[self.equal(st, I.simp(st, p), I.simp(st, q)) for p, q in zip(x.items, y.items)])
            if isinstance(x, DictC) and isinstance(y, DictC):
                if set(x.d) != set(y.d):
                    return False
                return cand(*[self.equal(st, I.simp(st, x.d[k]), I.simp(st, y.d[k])) for k in x.d])
            return ('flag', call('eq', I.as_term(st, a), I.as_term(st, b)))
        return a == b

    def in_(self, st, a, b, node):
        I = self.I
        if isinstance(b, K) and isinstance(b.v, str):
            if isinstance(a, K) and isinstance(a.v, str):
                return a.v in b.v
            return ('flag', call('in', I.as_term(st, a), ('k', b.v)))
        if isinstance(b, Opq):
            return ('flag', call('in', I.as_term(st, a), b.p))
        if isinstance(b, Ext):
            if b.name == 'os.environ' and isinstance(a, K):
                return a.v in I.envvars
            return ('flag', call('in', I.as_term(st, a), ('ext', b.name)))
        if isinstance(b, AV):
            return ('flag', call('in', I.as_term(st, a), I.as_term(st, b)))
        if isinstance(b, Ref) and isinstance(st.heap[b.h], DictC):
            k = I.key(st, a)
            d = st.heap[b.h].d
            if k in d:
                x = I.simp(st, d[k])
                if x is UNDEF:
                    return False
                if isinstance(x, Phi) and I.has_undef(x):
                    def cc(y):
                        if isinstance(y, Phi):
                            return ite(y.c, cc(y.a), cc(y.b))
                        return y is not UNDEF
                    return cc(x)
                return True
            if isinstance(k, tuple) and k[:1] == ('#sym',):
                return ('flag', call('in', k[1], I.as_term(st, b)))
            return False
        if isinstance(b, (Tup, Ref)):
            if isinstance(b, Ref) and isinstance(st.heap[b.h], ListC) and st.heap[b.h].kind.startswith('#'):
                its = I.try_items(st, b)
                if its is None:
                    return ('flag', call('in', I.as_term(st, a), I.as_term(st, b)))
            else:
                its = I.iter_items(st, b)
            r = False
            for x in its:
                x = I.simp(st, x)
                if isinstance(a, AV) and isinstance(x, K) and isinstance(x.v, str):
                    continue
                if isinstance(a, AV) and I.ashape(st, a) == ():
                    r = cor(r, self.pcond(T.ind(self.eqc(I.abody(st, a), I.P(x)))))
                    continue
                r = cor(r, self.equal(st, a, x))
            return r
        if isinstance(b, K) and isinstance(b.v, (range, tuple)):
            if isinstance(a, K):
                return a.v in b.v
        raise RaiseSig('TypeError', 'argument of type %r is not iterable' % (b,), node)

    def fstring(self, st, parts, node):
        I = self.I
        parts = [I.simp(st, p) for p in parts]
        if not isinstance(node, ast.BinOp) and any(isinstance(p, Phi) for p in parts):
            return I.splitn(st, parts, lambda s, *ps: self.fstring(s, list(ps), node))
        # '%' formatting comes in as [format, args]
        if isinstance(node, ast.BinOp):
            fmt, arg = parts
            args = arg.items if isinstance(arg, Tup) else [arg]
            if all(isinstance(x, K) for x in args):
                try:
                    return K(fmt.v % tuple(x.v for x in args))
                except Exception:
                    pass
            return Opq(call('str', ('k', fmt.v), I.as_term(st, arg)))
        if all(isinstance(p, K) for p in parts):
            simple = all(not isinstance(v, ast.FormattedValue) or (v.conversion == -1 and v.format_spec is None) for v in getattr(node, 'values', []))
            if simple:
                return K(''.join(str(p.v) for p in parts))
        return Opq(call('str', *[I.as_term(st, p) for p in parts]))

    # ------------------------------------------------------------ attributes
    def getattr(self, st, o, name, node, default=None):
        I = self.I
        if isinstance(o, Ext):
            return self.ext_attr(st, o, name, node, default)
        if isinstance(o, RView):
            if name == 'shape':
                return Tup([self.dim(p) for p in I.ashape(st, o.av)] + [K(2)])
            if name == 'dtype':
                return K(DT(REALOF[I.adt(st, o.av)]))
            if name == 'ndim':
                return K(len(I.ashape(st, o.av)) + 1)
            if name == 'device':
                return self.getattr(st, o.av, name, node, default)
            return Bound(o, name)
        if isinstance(o, GObj):
            return Bound(o, name)
        if isinstance(o, Py) and name in ('__name__', '__qualname__') and isinstance(o.name, str):
            return K(o.name)
        if isinstance(o, AV):
            sh = I.ashape(st, o)
            lib = I.alib(st, o)
            ok = NDATTRS if lib == 'np' else TATTRS if lib == 't' else NDATTRS | TATTRS
            if name not in ok:
                if default is not None:
                    return default
                if name not in NDATTRS and name not in TATTRS and not hasattr(list, name):
                    raise Unsup('attribute %s of an array' % name)
                raise RaiseSig('AttributeError', name, node)
            if name == 'shape':
                return self.shape_tuple(st, o)
            if name == 'ndim':
                return K(len(sh))
            if name == 'dtype':
                d = I.adt(st, o)
                if d is None:
                    return Opq(call('dtype', I.as_term(st, o)))
                return K(DT(d))
            if name == 'size' and lib == 'np':
                p = ONE
                for d in sh:
                    p = p * d
                return self.dim(p)
            if name == 'T':
                return self.permute(st, o, list(range(len(sh)))[::-1])
            if name in ('real', 'imag'):
                return self.part(st, o, name)
            if name in ('device', 'base', 'flags', 'data', 'strides', 'is_cuda', 'nbytes', 'itemsize', 'ctypes'):
                return Opq(call('attr', I.as_term(st, o) if name != 'device' else 'device', name))
            return Bound(o, name)
        if isinstance(o, (Num, B)) or (isinstance(o, K) and isinstance(o.v, (int, float, complex))):
            if name in ('real', 'imag'):
                return self.part(st, o, name)
            dt = I.dt_of(o)
            if name == 'dtype' and dt in DTS:
                return K(DT(dt))
            if name in ('ndim', 'size', 'shape') and dt in DTS:
                return {'ndim': K(0), 'size': K(1), 'shape': Tup(())}[name]
            if name in ('is_integer', 'conjugate', 'hex', 'bit_length'):
                return Bound(o, name)
            if dt in DTS and name in NDATTRS:
                return Bound(o, name)
            if dt is None and name in NDATTRS:
                if name == 'dtype':
                    return Opq(call('dtype', I.as_term(st, o)))
                return Bound(o, name)
            if default is not None:
                return default
            raise RaiseSig('AttributeError', name, node)
        if isinstance(o, K):
            if isinstance(o.v, str):
                if hasattr(str, name):
                    return Bound(o, name)
            elif isinstance(o.v, DT):
                if name == 'name':
                    return K(o.v.name)
                if name in ('type',):
                    return Ext('numpy.' + o.v.name)
                if name == 'kind':
                    return K({'b': 'b', 'i': 'i', 'u': 'u', 'f': 'f', 'c': 'c'}[o.v.name[0]])
                if name == 'itemsize':
                    bits = int(''.join(ch for ch in o.v.name if ch.isdigit()) or 8)
                    return K(bits // 8)
                if name == 'is_complex':
                    return K(o.v.name.startswith('complex'))
            elif isinstance(o.v, bytes):
                return Bound(o, name)
            if default is not None:
                return default
            raise RaiseSig('AttributeError', '%r has no attribute %s' % (o.v, name), node)
        if isinstance(o, Ref):
            c = st.heap[o.h]
            names = {'list': dir(list), 'set': dir(set)}.get(getattr(c, 'kind', ''), dir(list)) if isinstance(c, ListC) else dir(dict)
            if name in names and not name.startswith('__'):
                return Bound(o, name)
            if default is not None:
                return default
            raise RaiseSig('AttributeError', name, node)
        if isinstance(o, Tup):
            if name in ('index', 'count'):
                return Bound(o, name)
            if default is not None:
                return default
            raise RaiseSig('AttributeError', name, node)
        if isinstance(o, Opq):
            a = o.p.atom()
            if a is not None and a[0] == 'call' and a[1] == 'finfo' and isinstance(a[2], tuple):
                if name in ('eps', 'tiny', 'max', 'min', 'smallest_normal'):
                    return Num(call({'smallest_normal': 'tiny'}.get(name, name) if name not in ('max', 'min') else 'f' + name, a[2]), a[2][1])
            v = Opq(call('attr', o.p, name))
            if default is not None:
                return Phi(('flag', call('hasattr', o.p, name)), v, default)
            return v
        if isinstance(o, Fn):
            qn = o.name.replace('.', '.<locals>.') if not isinstance(o.node, ast.FunctionDef) or '.' not in o.name or o.env is not None else o.name
            if name == '__qualname__':
                return K(qn)
            if name == '__name__':
                return K(o.name.split('.')[-1])
            if name == '__module__':
                return K(o.mod.name)
            if name == '__doc__':
                return Opq(call('doc', o.name))
            if default is not None:
                return default
            return Opq(call('attr', ('fn', o.name), name))
        if isinstance(o, Cls):
            raise RaiseSig('AttributeError', name, node)
        if isinstance(o, (Bound, Py)):
            return Opq(call('attr', I.as_term(st, o), name))
        if isinstance(o, Slc) and name in ('start', 'stop', 'step'):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
        if default is not None:
            return default
        if isinstance(o, K) and o.v is None:
            if I.proj.absent and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and I.frames:
                bs = I.frames[-1].mod.globals.get(node.value.id, ())
                if any(isinstance(b, tuple) and b[0] != 'star' and (b[1] or '').split('.')[0] in I.proj.absent for b in bs):
                    I.event('absent', ('%s is None' % node.value.id, I.caught('AttributeError')), st, node)
            raise RaiseSig('AttributeError', name, node)
        raise Unsup('attribute %s of %r' % (name, o))

    def ext_attr(self, st, o, name, node, default=None):
        I = self.I
        full = o.name + '.' + name
        if o.name.startswith('builtins.') and name in ('__qualname__', '__name__'):
            return K(o.name.split('.')[-1])
        if name in ('__qualname__', '__name__'):
            return K(o.name.split('.')[-1])
        if name == '__module__':
            return K('.'.join(o.name.split('.')[:-1]))
        if full in ('numpy.pi', 'math.pi', 'torch.pi'):
            return Num(A(T.PI), 'pyfloat')
        if full in ('numpy.inf', 'math.inf', 'torch.inf'):
            return Num(A(T.INF), 'pyfloat')
        if full in ('numpy.nan', 'math.nan'):
            return Num(A(T.NAN), 'pyfloat')
        if full in ('numpy.newaxis',):
            return NONE
        if full == 'os.path.sep' or full == 'os.sep':
            return K('/')
        root = o.name.split('.')[0]
        if root in ('torch', 'cupy', 'pyfftw'):
            I.event('ext-attr', full, st, node)
        if o.name == 'torch' and not I.gpu and default is not None:
            return default if name not in ('Tensor', 'dtype') else Ext(full)
        return Ext(full)

    def part(self, st, o, name):
        I = self.I
        dt = self.dts(st, o)
        rdt = REALDT.get(dt, dt)
        if dt is not None and dt not in REALDT:
            if name == 'real':
                return o
            return self.elem(st, lambda x: ZERO, [o], rdt)
        f = lambda p: self.lin_part(p, name)
        if isinstance(o, AV):
            # a view of the same memory: writes through it must stay visible
            c = st.heap[o.h]
            r = I.newarr(st, I.ashape(st, o), f(I.abody(st, o)), rdt, I.alib(st, o), may=frozenset([o.h]))
            return r
        return self.elem(st, f, [o], rdt)

    def lin_part(self, p, name):
        """Re/Im with real factors pulled out (atoms known to be real by construction)."""
        if name not in ('real', 'imag'):
            raise Unsup(name)
        out = ZERO
        for mono, c in p.m.items():
            real, cpl = {}, {}
            for a, e in mono:
                (real if self.real_atom(a) else cpl)[a] = e
            r = Poly({tuple(sorted(real.items(), key=lambda t: repr(t))): c}) if real else num(c)
            if not cpl:
                if name == 'real':
                    out = out + r
                continue
            k = next((a for a, e in cpl.items() if e == 1 and a[0] in ('phi', 'sum')), None)
            if k is not None:
                rest = Poly({tuple(sorted(((a, e) for a, e in cpl.items() if a != k), key=lambda t: repr(t))): Fraction(1)})
                if k[0] == 'phi':
                    out = out + r * phi(k[1], self.lin_part(k[2] * rest, name), self.lin_part(k[3] * rest, name), self.F)
                    continue
                q = self.spread(k[1], rest)
                if q is not None:
                    out = out + r * self.lin_part(q, name)
                    continue
            e = cpl.pop(T.IM, 0)
            if e == 1:
                # Re(jz) = -Im z, Im(jz) = Re z
                if not cpl:
                    if name == 'imag':
                        out = out + r
                    continue
                z = Poly({tuple(sorted(cpl.items(), key=lambda t: repr(t))): Fraction(1)})
                out = out + (r * self.lin_part(z, 'real') if name == 'imag' else -(r * self.lin_part(z, 'imag')))
                continue
            if e:
                cpl[T.IM] = e
            z = Poly({tuple(sorted(cpl.items(), key=lambda t: repr(t))): Fraction(1)})
            out = out + r * call(name, z)
        return out

    @staticmethod
    def spread(p, rest):
        """p * rest as a sum of monomials"""
        if len(p.m) > 40:
            return None
        out = ZERO
        for mono, c in p.m.items():
            out = out + Poly({mono: c}) * rest
        return out

    def real_atom(self, a):
        if a == T.IM:
            return False
        if a in (T.PI, T.INF):
            return True
        if a[0] in ('ix', 'bv', 'lv', 'lx', 'dimof', 'prime', 'ind', 'min', 'max'):
            return True
        if a[0] == 'sum':
            return all(self.real_atom(x) for x in a[1].atoms())
        if a[0] == 'phi':
            return all(self.real_atom(x) for q in (a[2], a[3]) for x in q.atoms())
        if a[0] == 'call' and a[1] in ('real', 'imag', 'abs', 'floordiv', 'mod', 'round', 'floor', 'ceil', 'trunc', 'eps', 'tiny', 'altsign', 'len', 'angle'):
            return True
        if a[0] == 'call' and a[1] in ('exp', 'log'):
            return all(self.real_atom(x) for x in a[2].atoms())
        if a[0] == 'pow':
            return all(self.real_atom(x) for q in (a[1], a[2]) for x in q.atoms())
        if a[0] == 'red':
            return isinstance(a[3], Poly) and all(self.real_atom(x) for x in a[3].atoms())
        return a in getattr(self.I, 'reals', ()) or (a[0] in ('sym', 'get') and (a[1] in getattr(self.I, 'reals', ())))

    def permute(self, st, o, perm):
        I = self.I
        sh = I.ashape(st, o)
        c = st.heap[o.h]
        base = o.maps if o.maps is not None else tuple(ix(k) for k in range(len(c.sh)))
        inv = {p: k for k, p in enumerate(perm)}
        maps = tuple(I.reindex(b, {k: ix(inv[k]) for k in range(len(sh))}) for b in base)
        return AV(o.h, tuple(sh[p] for p in perm), maps)

    # ------------------------------------------------------------ calls
    def call(self, st, name, args, kw, node):
        I = self.I
        args = [I.simp(st, a) for a in args]
        kw = {k: I.simp(st, v) for k, v in kw.items()}
        if any(isinstance(v, Phi) for v in list(args) + list(kw.values())):
            ks = list(kw)

            def go(s, *vs):
                return self.call(s, name, list(vs[:len(args)]), dict(zip(ks, vs[len(args):])), node)
            return I.splitn(st, list(args) + [kw[k] for k in ks], go)
        root, _, rest = name.partition('.')
        I.event('ext', (name, args, kw), st, node)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None:
            return h(st, args, kw, node)
        if root == 'builtins':
            h = getattr(self, 'b_' + rest, None)
            if h is not None:
                return h(st, args, kw, node)
            if rest and rest[0].isupper():
                return Opq(call('exc', rest))
            return self.opaque(st, name, args, kw)
        if root in ('numpy', 'torch', 'scipy', 'math', 'cupy'):
            lib = 't' if root == 'torch' else 'np'
            op = name.split('.')[-1]
            if name.startswith('numpy.random.') or name.startswith('torch.rand'):
                return self.opaque(st, name, args, kw)
            if '.fft.' in name:
                if op in ('fft', 'ifft', 'rfft', 'irfft'):
                    return self.np_fft(st, op, args, kw, node, lib, name)
                if op in ('fftshift', 'ifftshift'):
                    return self.np_shift(st, op, args, kw, node)
            h = getattr(self, 'n_' + op, None)
            if h is not None and (root != 'scipy' or name.startswith('scipy.special')):
                kw2 = dict(kw)
                out = kw2.pop('out', None)
                try:
                    r = h(st, list(args), kw2, node, lib)
                except (IndexError, KeyError) as e:
                    raise Unsup('%s: arguments' % name)
                if out is not None and isinstance(out, AV):
                    I.write(st, out, r, node, 'out= of %s' % op)
                    return out
                return r
            if op in UFUNCS:
                return self.ufunc(st, op, args, kw, node)
            if ALIAS.get(op, op) in DTS:
                if args:
                    return self.cast(st, args[0], ALIAS.get(op, op))
                return Num(ZERO, ALIAS.get(op, op))
        return self.opaque(st, name, args, kw)

    def opaque(self, st, name, args, kw):
        self.opaque_used[name] = self.opaque_used.get(name, 0) + 1
        I = self.I
        return Opq(call(name, *[I.as_term(st, a) for a in args],
                        *[(k, I.as_term(st, v)) for k, v in sorted(kw.items())]))

    # -- GPU launches
    def x_torch_view_as_real(self, st, a, kw, node):
        if isinstance(a[0], AV) and self.I.adt(st, a[0]) in REALOF:
            return RView(a[0])
        if isinstance(a[0], RView):
            return a[0]
        if isinstance(a[0], AV):
            raise RaiseSig('RuntimeError', 'view_as_real of a real tensor', node)
        return self.opaque(st, 'torch.view_as_real', a, kw)

    def x_torch_view_as_complex(self, st, a, kw, node):
        I = self.I
        v = a[0]
        if isinstance(v, RView):
            return v.av
        if isinstance(v, AV):
            sh, dt = I.ashape(st, v), I.adt(st, v)
            if dt not in ('float32', 'float64') or not sh or sh[-1] != num(2):
                raise RaiseSig('RuntimeError', 'view_as_complex of %s %s' % (dt, sh), node)
            b = I.abody(st, v)
            k = len(sh) - 1
            f = lambda c: T.subst(b, lambda x: num(c) if x == ('ix', k) else None)
            at = b.atom()
            if at is not None and at[0] == 'kern' and at[-1] == ix(k):
                body = A(at[:-1])
            else:
                body = f(0) + A(T.IM) * f(1) if hasattr(T, 'IM') else f(0)
            return I.newarr(st, sh[:-1], body, 'complex64' if dt == 'float32' else 'complex128', 't')
        return self.opaque(st, 'torch.view_as_complex', a, kw)

    def x_string_Template(self, st, a, kw, node):
        if a and isinstance(a[0], K) and isinstance(a[0].v, str):
            return GObj('tmpl', a[0].v)
        return self.opaque(st, 'string.Template', a, kw)

    def x_cupy_RawModule(self, st, a, kw, node):
        c = kw.get('code', a[0] if a else None)
        if isinstance(c, GObj):
            return GObj('mod', c.code, c.kw)
        if isinstance(c, K) and isinstance(c.v, str):
            return GObj('mod', c.v, {})
        return self.opaque(st, 'cupy.RawModule', a, kw)

    def x_cupy_RawKernel(self, st, a, kw, node):
        c, n = kw.get('code', a[0] if a else None), kw.get('name', a[1] if len(a) > 1 else None)
        if isinstance(n, K) and (isinstance(c, GObj) or isinstance(c, K)):
            return GObj('fn', c.code if isinstance(c, GObj) else c.v, c.kw if isinstance(c, GObj) else {}, n.v)
        return self.opaque(st, 'cupy.RawKernel', a, kw)

    def x_collections_namedtuple(self, st, a, kw, node):
        return Py('namedtuple', lambda I, s, ar, k, n: Opq(call('namedtuple', *[I.as_term(s, x) for x in ar], *[(q, I.as_term(s, x)) for q, x in k.items()])))

    def gobj_method(self, st, o, name, args, kw, node):
        if o.kind == 'tmpl' and name in ('substitute', 'safe_substitute'):
            d = dict(kw)
            if args:
                d.update(self.I.dict_of(st, args[0]))
            return GObj('src', o.code, d)
        if o.kind == 'mod' and name == 'get_function' and args and isinstance(args[0], K):
            return GObj('fn', o.code, o.kw, args[0].v)
        raise Unsup('%s of %r' % (name, o))

    def launch(self, st, o, args, kw, node):
        from . import gpuc
        I = self.I
        d = dict(zip(('grid', 'block', 'args'), args))
        d.update(kw)
        la = I.simp(st, d.get('args', Tup(())))
        la = [I.simp(st, x) for x in I.iter_all(st, la)]
        if any(isinstance(x, Phi) for x in la):
            return I.splitn(st, la, lambda s, *vs: self.launch(s, o, [], dict(d, args=Tup(vs)), node))
        I.event('launch', (o.code, o.kw, o.name, d.get('grid'), d.get('block'), la), st, node)
        try:
            k = gpuc.parse_kernel(o.code)
            fn, _ = gpuc.to_function(k)
        except gpuc.CError:
            raise Unsup('kernel source')
        wr = set()
        for n in ast.walk(fn):
            t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for x in t:
                while isinstance(x, (ast.Subscript, ast.Attribute)):
                    x = x.value
                    if isinstance(x, ast.Name):
                        wr.add(x.id)
        terms = tuple((p.name, I.as_term(st, v)) for p, v in zip(k.params, la)) + \
            tuple((q, I.as_term(st, v)) for q, v in sorted((o.kw or {}).items()))
        for p, v in zip(k.params, la):
            if p.name in wr and isinstance(v, Ptr):
                av = v.av
                I.touch(st, av, node, 'written by %s' % k.name)
                sh = I.ashape(st, av)
                body = A(('kern', 'gpu:' + k.name, p.name, terms) + tuple(ix(q) for q in range(len(sh))))
                I.mute += 1
                try:
                    I.write(st, av, I.newarr(st, sh, body), node, '')
                finally:
                    I.mute -= 1
        return NONE

    # -- builtins
    def b_isinstance(self, st, a, kw, node):
        return self.bool_(self.isinst(st, a[0], a[1]))

    def isinst(self, st, v, t):
        I = self.I
        v, t = I.simp(st, v), I.simp(st, t)
        if isinstance(t, Tup):
            return cor(*[self.isinst(st, v, x) for x in t.items])
        if isinstance(v, Phi):
            return ite(v.c, self.isinst(st, v.a, t), self.isinst(st, v.b, t))
        if isinstance(t, Ref):
            return False
        if isinstance(t, Cls):
            if isinstance(v, Ref) and isinstance(st.heap[v.h], InstC):
                c = st.heap[v.h].cls
                while c is not None:
                    if c == t:
                        return True
                    b = None
                    for x in c.node.bases:
                        if isinstance(x, ast.Name):
                            bv = I.glob(st, c.mod, x.id)
                            if isinstance(bv, Cls):
                                b = bv
                    c = b
                return False
            if isinstance(v, Opq):
                return ('flag', call('isinstance', v.p, t.node.name))
            return False
        if isinstance(t, Opq):
            return ('flag', call('isinstance', I.as_term(st, v), t.p))
        if not isinstance(t, Ext):
            raise Unsup('isinstance type %r' % (t,))
        n = t.name.split('.')[-1]
        root = t.name.split('.')[0]
        if isinstance(v, Opq):
            return ('flag', call('isinstance', v.p, n))
        if n == 'object':
            return True
        if n == 'ndarray':
            if isinstance(v, AV):
                l = I.alib(st, v)
                return l == 'np' if l in ('np', 't') else ('flag', call('isnp', I.as_term(st, v)))
            return False
        if isinstance(v, (RView, Ptr, GObj)):
            return isinstance(v, RView) and n in ('Tensor', 'object')
        if n == 'Tensor' or n == '_TensorDummy':
            if isinstance(v, AV):
                l = I.alib(st, v)
                return l == 't' if l in ('np', 't') else cnot(('flag', call('isnp', I.as_term(st, v))))
            return False
        if n == 'dtype':
            if isinstance(v, K) and isinstance(v.v, DT):
                return True
            if isinstance(v, Ext) and root == 'torch' and v.name.startswith('torch.'):
                return True
            return False
        if n == 'type':
            return isinstance(v, Cls) or (isinstance(v, Ext) and (ALIAS.get(v.name.split('.')[-1], v.name.split('.')[-1]) in DTS) and not v.name.startswith('torch.'))
        if n in ('FunctionType', 'LambdaType'):
            return isinstance(v, Fn) or (isinstance(v, Py) and not str(v.name).startswith('('))
        py = {'str': str, 'int': int, 'float': float, 'bool': bool, 'complex': complex, 'bytes': bytes, 'tuple': tuple,
              'list': list, 'dict': dict, 'set': set, 'NoneType': type(None), 'range': range, 'slice': slice}
        if n in py and root in ('builtins', 'types'):
            if isinstance(v, K):
                if isinstance(v.v, (DT,)):
                    return False
                return isinstance(v.v, py[n])
            if isinstance(v, Num):
                if v.dt in ('pyint', 'pyfloat', 'pycomplex'):
                    return {'pyint': n == 'int', 'pyfloat': n == 'float', 'pycomplex': n == 'complex'}[v.dt]
                if v.dt == 'float64':
                    return n == 'float'
                if v.dt in DTS:
                    return n == 'complex' and v.dt == 'complex128'
                if n in ('int', 'float', 'complex'):
                    return ('flag', call('isinstance', v.p, n))
                return False
            if isinstance(v, B):
                return n in ('bool', 'int')
            if isinstance(v, Tup):
                return n == 'tuple'
            if isinstance(v, Slc):
                return n == 'slice'
            if isinstance(v, Ref):
                c = st.heap[v.h]
                if isinstance(c, ListC):
                    return {'list': n == 'list', 'set': n == 'set', '#range': n == 'range', '#map': n == 'list', '#rep': n == 'list'}.get(c.kind, False)
                if isinstance(c, DictC):
                    return n == 'dict'
                return False
            return False
        if n in ('integer', 'floating', 'complexfloating', 'number', 'generic', 'inexact', 'bool_'):
            dt = self.dts(st, v) if isinstance(v, (Num, B)) else None
            if isinstance(v, Num) and dt in DTS:
                r = rank(dt)
                return {'integer': r == 1, 'floating': r == 2, 'complexfloating': r == 3, 'number': r >= 1, 'generic': True, 'inexact': r >= 2, 'bool_': r == 0}[n]
            if isinstance(v, Num) and dt is None:
                return ('flag', call('isinstance', v.p, n))
            return False
        if n in ('Number', 'Real', 'Integral', 'Complex'):
            return self.scal(v)
        if n in ('Iterable', 'Sequence', 'Sized', 'Hashable', 'Callable', 'Mapping'):
            return {'Callable': isinstance(v, (Fn, Py, Bound, Cls, Ext)), 'Mapping': isinstance(v, Ref) and isinstance(st.heap[v.h], DictC)}.get(
                n, isinstance(v, (Tup, Ref, AV)) or (isinstance(v, K) and isinstance(v.v, str)))
        if ALIAS.get(n, n) in DTS:
            dt = self.dts(st, v) if isinstance(v, (Num, B)) else None
            return dt == ALIAS.get(n, n)
        return False

    def b_len(self, st, a, kw, node):
        I = self.I
        v = a[0]
        if isinstance(v, RView):
            v = v.av
        if isinstance(v, AV):
            sh = I.ashape(st, v)
            if not sh:
                raise RaiseSig('TypeError', 'len() of unsized object', node)
            return self.dim(sh[0])
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC):
                if c.kind.startswith('#'):
                    si = I.sym_iter(st, v)
                    if si is None:
                        raise Unsup('len of iterator')
                    return self.dim(si[0])
                return K(len(c.items))
            if isinstance(c, DictC):
                return K(len([1 for x in c.d.values() if x is not UNDEF]))
            if isinstance(c, InstC):
                return I.call_method(st, v, '__len__', [], {}, node)
        if isinstance(v, K) and isinstance(v.v, (str, bytes)):
            return K(len(v.v))
        if isinstance(v, Opq):
            return Num(call('len', v.p), 'pyint')
        raise RaiseSig('TypeError', 'object of type %r has no len()' % (v,), node)

    def b_range(self, st, a, kw, node):
        if len(a) == 1:
            a = [K(0), a[0], K(1)]
        elif len(a) == 2:
            a = [a[0], a[1], K(1)]
        a = [Num(self.I.abody(st, x), 'int64') if isinstance(x, AV) and self.I.ashape(st, x) == () else x for x in a]
        for x in a:
            if isinstance(x, K) and not isinstance(x.v, int):
                raise RaiseSig('TypeError', 'range argument %r' % (x,), node)
            if not (isinstance(x, (Num, K, Opq))):
                raise RaiseSig('TypeError', 'range argument %r' % (x,), node)
        return Ref(self.I.new(st, ListC(a, '#range')))

    x_numba_prange = b_range

    def b_zip(self, st, a, kw, node):
        return Ref(self.I.new(st, ListC(a, '#zip')))

    def b_enumerate(self, st, a, kw, node):
        return Ref(self.I.new(st, ListC([a[0], a[1] if len(a) > 1 else kw.get('start', K(0))], '#enum')))

    def b_reversed(self, st, a, kw, node):
        return Ref(self.I.new(st, ListC([a[0]], '#rev')))

    def _bools(self, st, v):
        I = self.I
        v = I.simp(st, v)
        if isinstance(v, Opq):
            return None
        its = I.try_items(st, v)
        if its is None:
            raise Unsup('any/all over symbolic sequence')
        return [I.truth(st, x) for x in its]

    def b_any(self, st, a, kw, node):
        b = self._bools(st, a[0])
        if b is None:
            return B(('flag', call('any', a[0].p)))
        return self.bool_(cor(*b))

    def b_all(self, st, a, kw, node):
        b = self._bools(st, a[0])
        if b is None:
            return B(('flag', call('all', a[0].p)))
        return self.bool_(cand(*b))

    def b_getattr(self, st, a, kw, node):
        I = self.I
        if not (isinstance(a[1], K) and isinstance(a[1].v, str)):
            if isinstance(a[1], Opq):
                return Opq(call('getattr', I.as_term(st, a[0]), a[1].p))
            raise Unsup('getattr name')
        return I.getattr(st, a[0], a[1].v, node, a[2] if len(a) > 2 else None)

    def b_hasattr(self, st, a, kw, node):
        I = self.I
        name = a[1].v
        v = a[0]
        if isinstance(v, Opq):
            return B(('flag', call('hasattr', v.p, name)))
        if isinstance(v, Ref) and isinstance(st.heap[v.h], InstC):
            c = st.heap[v.h]
            if name in c.attrs:
                x = I.simp(st, c.attrs[name])
                if isinstance(x, Phi) and I.has_undef(x):
                    def cc(y):
                        return ite(y.c, cc(y.a), cc(y.b)) if isinstance(y, Phi) else y is not UNDEF
                    return self.bool_(cc(x))
                return K(x is not UNDEF)
            if I.class_member(st, c.cls, name) is not None:
                return K(True)
            if c.sym is not None:
                return B(('flag', call('hasattr', ('obj', c.sym), name)))
            return K(False)
        try:
            mark = K('#missing')
            x = I.getattr(st, v, name, node, mark)
            return K(x is not mark)
        except RaiseSig:
            return K(False)

    def b_setattr(self, st, a, kw, node):
        if not isinstance(a[1], K):
            raise Unsup('setattr name')
        self.I.setattr(st, a[0], a[1].v, a[2], node)
        return NONE

    def cast(self, st, v, dt):
        I = self.I
        if isinstance(v, (Ref, Tup)):
            v = self.toarr(st, v)
        return self.elem(st, lambda p: self.castp(p, self.dts(st, v), dt), [v], dt)

    def castp(self, p, src, dt):
        if dt in ('int32', 'int64', 'pyint', 'int8', 'int16', 'uint8'):
            return self.trunc(p)
        if dt == 'bool':
            return T.ind(self.pcond(p))
        if dt in ('float32', 'float64') and src in ('complex64', 'complex128', None) and src is not None:
            return self.lin_part(p, 'real')
        return p

    def trunc(self, p):
        if self.F.is_int(p):
            return p
        c = p.const()
        if c is not None:
            return num(Fraction(int(c)))
        a = p.atom()
        if a is not None and a[0] == 'phi':
            return phi(a[1], self.trunc(a[2]), self.trunc(a[3]), self.F)
        if a is not None and a[0] in ('min', 'max'):
            return T._lat(a[0], [self.trunc(x) for x in a[1]], self.F)
        if self.F.sign(p) in ('+', '0+'):
            # int(a / b) of non-negative integers is a // b
            k, mono, prim = T.content(p)
            return call('floor', p)
        return call('trunc', p)

    def scalar_of(self, st, v):
        I = self.I
        if isinstance(v, AV):
            sh = I.ashape(st, v)
            if all(d == ONE for d in sh):
                b = I.reindex(I.abody(st, v), {k: ZERO for k in range(len(sh))})
                return Num(b, I.adt(st, v))
            return None
        return v

    def b_int(self, st, a, kw, node):
        I = self.I
        if not a:
            return K(0)
        v = self.scalar_of(st, a[0])
        if isinstance(v, K):
            if isinstance(v.v, (int, float, bool)):
                try:
                    return K(int(v.v))
                except (ValueError, OverflowError):
                    raise RaiseSig('ValueError', 'int of %r' % (v.v,), node)
            if isinstance(v.v, str):
                try:
                    return K(int(v.v))
                except ValueError:
                    raise RaiseSig('ValueError', 'int of %r' % v.v, node)
            raise RaiseSig('TypeError', 'int of %r' % (v.v,), node)
        if isinstance(v, Num):
            return I.mknum(self.trunc(v.p), 'pyint')
        if isinstance(v, B):
            return Num(T.ind(v.c), 'pyint')
        if isinstance(v, Opq):
            return Num(call('int', v.p), 'pyint')
        raise RaiseSig('TypeError', 'int of %r' % (a[0],), node)

    def b_float(self, st, a, kw, node):
        v = self.scalar_of(st, a[0]) if a else K(0.0)
        if isinstance(v, K):
            if isinstance(v.v, (int, float, bool)):
                return K(float(v.v))
            if isinstance(v.v, str):
                try:
                    return K(float(v.v))
                except ValueError:
                    raise RaiseSig('ValueError', 'could not convert string to float', node)
            raise RaiseSig('TypeError', 'float of %r' % (v.v,), node)
        if isinstance(v, Num):
            return Num(v.p, 'pyfloat')
        if isinstance(v, Opq):
            return Num(v.p, 'pyfloat')
        if isinstance(v, B):
            return Num(T.ind(v.c), 'pyfloat')
        raise RaiseSig('TypeError', 'float of %r' % (v,), node)

    def b_bool(self, st, a, kw, node):
        return self.bool_(self.I.truth(st, a[0])) if a else K(False)

    def b_complex(self, st, a, kw, node):
        p = self.I.P(a[0]) + (self.I.P(a[1]) * A(T.IM) if len(a) > 1 else ZERO)
        return Num(p, 'pycomplex')

    def b_str(self, st, a, kw, node):
        if not a:
            return K('')
        v = a[0]
        if isinstance(v, K):
            if isinstance(v.v, DT):
                return K(v.v.name)
            return K(str(v.v))
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            if v.name.startswith('torch.'):
                return K(v.name)
            return K("<class '%s'>" % v.name)
        return Opq(call('str', self.I.as_term(st, v)))

    def b_repr(self, st, a, kw, node):
        return K(repr(a[0].v)) if isinstance(a[0], K) else Opq(call('repr', self.I.as_term(st, a[0])))

    b_format = b_repr

    def _minmax(self, st, a, kw, node, op):
        I = self.I
        if len(a) == 1:
            if isinstance(a[0], Opq):
                return Opq(call(op, a[0].p))
            its = I.try_items(st, a[0])
            if its is None:
                if isinstance(a[0], AV):
                    return self.reduce(st, op, a[0], 0, False, node)
                raise Unsup('%s over symbolic sequence' % op)
            a = its
        a = [I.simp(st, x) for x in a]
        if all(isinstance(x, K) for x in a):
            try:
                return K((min if op == 'min' else max)(x.v for x in a))
            except TypeError:
                raise RaiseSig('TypeError', op, node)
            except ValueError:
                if 'default' in kw:
                    return kw['default']
                raise RaiseSig('ValueError', op, node)
        a = [self.scalar_of(st, x) if isinstance(x, AV) else x for x in a]
        if any(x is None for x in a):
            raise Unsup('%s of arrays' % op)
        if any(isinstance(x, Opq) for x in a):
            return Opq(T._lat(op, [I.P(x) for x in a], self.F))
        for x in a:
            if not self.scal(x):
                raise RaiseSig('TypeError', op, node)
        dt = a[0].dt if isinstance(a[0], Num) else I.dt_of(a[0])
        for x in a[1:]:
            d = I.dt_of(x)
            dt = dt if dt == d else ('pyfloat' if {dt, d} == {'pyint', 'pyfloat'} else None)
        return I.mknum(T._lat(op, [I.P(x) for x in a], self.F), dt)

    def b_min(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, 'min')

    def b_max(self, st, a, kw, node):
        return self._minmax(st, a, kw, node, 'max')

    def b_abs(self, st, a, kw, node):
        return self.n_abs(st, a, kw, node, 'np')

    def b_round(self, st, a, kw, node):
        v = self.scalar_of(st, a[0])
        if isinstance(v, K) and all(isinstance(x, K) for x in a):
            return K(round(*[x.v for x in a]))
        if isinstance(v, (Num, Opq)) and len(a) == 1:
            return Num(self.rnd(self.I.P(v)), 'pyint')
        return Num(call('roundn', *[self.I.as_term(st, x) for x in a]), 'pyfloat')

    def b_pow(self, st, a, kw, node):
        return self.binop(st, ast.Pow(), a[0], a[1], node)

    def b_divmod(self, st, a, kw, node):
        return Tup([self.binop(st, ast.FloorDiv(), a[0], a[1], node), self.binop(st, ast.Mod(), a[0], a[1], node)])

    def b_sum(self, st, a, kw, node):
        I = self.I
        its = I.try_items(st, a[0])
        if its is None:
            if isinstance(a[0], AV):
                return self.reduce(st, 'sum', a[0], 0, False, node)
            si = I.sym_iter(st, a[0])
            if si is not None:
                t = self.tmpix()
                x = si[1](st, A(t))
                if isinstance(x, Num):
                    return Num(self.sumover(x.p, t, si[0]), x.dt)
            raise Unsup('sum over symbolic sequence')
        r = a[1] if len(a) > 1 else K(0)
        for x in its:
            r = self.binop(st, ast.Add(), r, x, node)
        return r

    def b_sorted(self, st, a, kw, node):
        its = self.I.try_items(st, a[0])
        if its is not None and all(isinstance(x, K) for x in its) and not kw:
            return self.I.newlist(st, [K(v) for v in sorted(x.v for x in its)])
        return self.opaque(st, 'sorted', a, kw)

    def b_type(self, st, a, kw, node):
        v = a[0]
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, InstC):
                return c.cls
            if isinstance(c, DictC):
                return Ext('builtins.dict')
            return Ext('builtins.' + {'list': 'list', 'set': 'set', '#range': 'range'}.get(c.kind, 'list'))
        if isinstance(v, K):
            if isinstance(v.v, DT):
                return Ext('numpy.dtype')
            return Ext('builtins.' + type(v.v).__name__)
        if isinstance(v, AV):
            return Ext('numpy.ndarray' if self.I.alib(st, v) == 'np' else 'torch.Tensor')
        if isinstance(v, Tup):
            return Ext('builtins.tuple')
        if isinstance(v, Num):
            return Ext({'pyint': 'builtins.int', 'pyfloat': 'builtins.float', 'pycomplex': 'builtins.complex'}.get(v.dt, 'numpy.%s' % v.dt))
        if isinstance(v, B):
            return Ext('builtins.bool')
        if isinstance(v, (Fn, Py)):
            return Ext('types.FunctionType')
        return Opq(call('type', self.I.as_term(st, v)))

    def b_tuple(self, st, a, kw, node):
        if not a:
            return Tup(())
        if isinstance(a[0], Opq):
            return Opq(call('tuple', a[0].p))
        its = self.I.try_items(st, a[0])
        if its is None:
            return Opq(call('tuple', self.I.as_term(st, a[0])))
        return Tup(its)

    def b_list(self, st, a, kw, node):
        if not a:
            return self.I.newlist(st, [])
        if isinstance(a[0], Opq):
            return Opq(call('list', a[0].p))
        its = self.I.try_items(st, a[0])
        if its is None:
            si = self.I.sym_iter(st, a[0])
            if si:
                return Ref(self.I.new(st, ListC([self.dim(si[0]), Py(('li', repr(a[0])), lambda I, s, ar, k, n: si[1](s, I.P(ar[0])))], '#map')))
            raise Unsup('list of symbolic sequence')
        return self.I.newlist(st, its)

    def b_set(self, st, a, kw, node):
        its = self.I.try_items(st, a[0]) if a else []
        if its is None:
            return self.opaque(st, 'set', a, kw)
        out = []
        for x in its:
            if x not in out:
                out.append(x)
        return self.I.newlist(st, out, 'set')

    b_frozenset = b_set

    def b_dict(self, st, a, kw, node):
        d = {}
        if a:
            v = a[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.h], DictC):
                d.update(st.heap[v.h].d)
            else:
                for x in self.I.iter_all(st, v):
                    k, y = self.I.iter_items(st, x)
                    d[self.I.key(st, k)] = y
        d.update(kw)
        return self.I.newdict(st, d)

    def b_print(self, st, a, kw, node):
        return NONE

    def b_slice(self, st, a, kw, node):
        if len(a) == 1:
            return Slc(NONE, a[0], NONE)
        return Slc(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_callable(self, st, a, kw, node):
        return K(isinstance(a[0], (Fn, Py, Bound, Cls, Ext)))

    def b_id(self, st, a, kw, node):
        return self.opaque(st, 'id', a, kw)

    def b_map(self, st, a, kw, node):
        its = self.I.try_items(st, a[1])
        if its is None or len(a) != 2:
            return self.opaque(st, 'map', a, kw)
        return self.I.newlist(st, [self.I.call(st, a[0], [x], {}, node) for x in its])

    def b_filter(self, st, a, kw, node):
        return self.opaque(st, 'filter', a, kw)

    def b_open(self, st, a, kw, node):
        I = self.I
        path = a[0]
        mode = a[1] if len(a) > 1 else kw.get('mode', K('r'))
        I.event('open', (I.as_term(st, path), mode), st, node)
        return Opq(call('open', I.as_term(st, path), I.as_term(st, mode)))

    def b_iter(self, st, a, kw, node):
        return a[0]

    def b_next(self, st, a, kw, node):
        return self.opaque(st, 'next', a, kw)

    # -- os / misc externals
    def x_os_environ_get(self, st, a, kw, node):
        k = self.I.key(st, a[0])
        if k in self.I.envvars:
            return K(self.I.envvars[k])
        return a[1] if len(a) > 1 else kw.get('default', NONE)

    def x_os_getenv(self, st, a, kw, node):
        return self.x_os_environ_get(st, a, kw, node)

    def x_os_path_join(self, st, a, kw, node):
        if all(isinstance(x, K) for x in a):
            return K(os.path.join(*[x.v for x in a]))
        return self.opaque(st, 'os.path.join', a, kw)

    def x_os_path_dirname(self, st, a, kw, node):
        if isinstance(a[0], K):
            return K(os.path.dirname(a[0].v))
        return self.opaque(st, 'os.path.dirname', a, kw)

    def x_os_path_abspath(self, st, a, kw, node):
        return a[0]

    x_os_path_realpath = x_os_path_abspath

    def x_multiprocessing_cpu_count(self, st, a, kw, node):
        return Num(sym('#cpus'), 'pyint')

    x_os_cpu_count = x_multiprocessing_cpu_count

    def x_logging_warning(self, st, a, kw, node):
        self.I.event('warn', a, st, node)
        return NONE

    x_warnings_warn = x_logging_warning

    def x_logging_basicConfig(self, st, a, kw, node):
        return NONE

    def x_gc_collect(self, st, a, kw, node):
        return NONE

    def x_copy_deepcopy(self, st, a, kw, node):
        v = a[0]
        I = self.I
        if isinstance(v, AV):
            return self.m_copy(st, v)
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, DictC):
                return I.newdict(st, {k: self.x_copy_deepcopy(st, [x], {}, node) for k, x in c.d.items()})
            if isinstance(c, ListC):
                return I.newlist(st, [self.x_copy_deepcopy(st, [x], {}, node) for x in c.items], c.kind)
            raise Unsup('deepcopy')
        return v

    def x_copy_copy(self, st, a, kw, node):
        v = a[0]
        if isinstance(v, AV):
            return self.m_copy(st, v)
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, DictC):
                return self.I.newdict(st, dict(c.d))
            if isinstance(c, ListC):
                return self.I.newlist(st, c.items, c.kind)
            raise Unsup('copy')
        return v

    def x_math_ceil(self, st, a, kw, node):
        r = self.n_ceil(st, a, kw, node, 'np')
        return Num(r.p, 'pyint') if isinstance(r, Num) else r

    def x_math_floor(self, st, a, kw, node):
        r = self.n_floor(st, a, kw, node, 'np')
        return Num(r.p, 'pyint') if isinstance(r, Num) else r

    def x_numpy_errstate(self, st, a, kw, node):
        return Opq(call('errstate'))

    def x_torch_cuda_is_available(self, st, a, kw, node):
        return K(self.I.gpu)

    # ------------------------------------------------------------ numpy functions
    def ufdt(self, st, vals, floating=False):
        dt = self.dts(st, vals[0])
        for v in vals[1:]:
            dt = promote(dt, self.dts(st, v), self.lib_of(st, vals))
        if floating and dt in ('int64', 'int32', 'bool', 'pyint', 'pybool'):
            dt = 'float64'
        if dt == 'pyfloat':
            dt = 'float64'          # numpy functions return numpy scalars
        if dt == 'pycomplex':
            dt = 'complex128'
        if dt == 'pyint':
            dt = 'int64'
        return dt

    def ufunc(self, st, op, args, kw, node):
        I = self.I
        nin, f, floating, dtf = UFUNCS[op]
        vals = [a if self.scal(a) or isinstance(a, (AV, Opq)) else self.toarr(st, a) for a in args[:nin]]
        for v in vals:
            if isinstance(v, K) and not isinstance(v.v, (int, float, complex)):
                raise RaiseSig('TypeError', '%s of %r' % (op, v), node)
        out = kw.get('out')
        if out is None and len(args) > nin and isinstance(args[nin], AV):
            out = args[nin]
        if isinstance(out, Tup):
            out = out.items[0]
        dt = dtf if dtf in ('bool',) else self.ufdt(st, vals, floating)
        if dtf == 'real':
            dt = REALDT.get(dt, dt)
        if 'dtype' in kw:
            d = self.dtname(st, kw['dtype'])
            dt = d if d not in (None, '?') else dt
        r = self.elem(st, lambda *p: f(self, *p), vals, dt, node)
        if out is not None and isinstance(out, AV):
            I.write(st, out, r, node, 'out= of %s' % op)
            return out
        return r

    def rnd(self, p):
        if self.F.is_int(p):
            return p
        c = p.const()
        if c is not None:
            return num(Fraction(round(c)))
        return call('round', p)

    def n_abs(self, st, a, kw, node, lib):
        v = a[0] if self.scal(a[0]) or isinstance(a[0], (AV, Opq)) else self.toarr(st, a[0])
        if isinstance(v, K) and isinstance(v.v, (int, float)):
            return K(abs(v.v))
        dt = self.dts(st, v)
        return self.elem(st, lambda p: self.absp(p), [v], REALDT.get(dt, dt), node)

    n_absolute = n_fabs = n_abs

    def absp(self, p):
        a = p.atom()
        if a is not None and a[0] == 'phi':
            return phi(a[1], self.absp(a[2]), self.absp(a[3]), self.F)
        return T.fabs(p, self.F)

    def n_round(self, st, a, kw, node, lib):
        if len(a) > 1 or kw:
            return self.opaque(st, 'round', a, kw)
        return self.elem(st, self.rnd, [a[0]], self.ufdt(st, [a[0]], True), node)

    n_rint = n_around = n_round

    def n_floor(self, st, a, kw, node, lib):
        def f(p):
            if self.F.is_int(p):
                return p
            c = p.const()
            return num(Fraction(c.__floor__())) if c is not None else call('floor', p)
        return self.elem(st, f, [a[0]], self.ufdt(st, [a[0]], True), node)

    def n_ceil(self, st, a, kw, node, lib):
        def f(p):
            if self.F.is_int(p):
                return p
            c = p.const()
            return num(Fraction(c.__ceil__())) if c is not None else self.ceilp(p)
        return self.elem(st, f, [a[0]], self.ufdt(st, [a[0]], True), node)

    def n_trunc(self, st, a, kw, node, lib):
        return self.elem(st, self.trunc, [a[0]], self.ufdt(st, [a[0]], True), node)

    def n_where(self, st, a, kw, node, lib):
        I = self.I
        c = a[0]
        if len(a) == 1:
            if isinstance(c, AV):
                sh = I.ashape(st, c)
                n = call('count', I.lam(sh, I.abody(st, c)))
                return Tup([I.newarr(st, (n,), self.nz(st, c, k, ix(0)), 'int64', I.alib(st, c)) for k in range(len(sh))])
            return self.opaque(st, 'where', a, kw)
        dt = promote(self.dts(st, a[1]), self.dts(st, a[2]), self.lib_of(st, a))
        return self.elem(st, lambda m, x, y: phi(self.pcond(m), x, y, self.F), a, self.strong(dt), node)

    n_nonzero = n_where

    def n_argwhere(self, st, a, kw, node, lib):
        return self.opaque(st, 'argwhere', a, kw)

    def n_asarray(self, st, a, kw, node, lib):
        return self.mkarray(st, a, kw, node, lib, False)

    n_as_tensor = n_asarray
    n_ascontiguousarray = n_asarray
    n_asfortranarray = n_asarray

    def n_array(self, st, a, kw, node, lib):
        return self.mkarray(st, a, kw, node, lib, True)

    n_tensor = n_array

    def mkarray(self, st, a, kw, node, lib, copy):
        I = self.I
        v = a[0]
        d = self.dtname(st, a[1] if len(a) > 1 else kw.get('dtype', NONE))
        if isinstance(v, (Ref, Tup)):
            v = self.toarr(st, v)
            copy = False
            if isinstance(v, AV) and (d is None or d == I.adt(st, v)) and I.alib(st, v) == lib:
                return v
        if isinstance(v, Opq):
            if d is None:
                return Opq(call('asarray', v.p)) if not str(v.p).startswith('asarray') else v
            return Opq(call('asarray', v.p, d))
        if self.scal(v):
            dt = self.strong(self.dts(st, v))
            return I.newarr(st, (), self.castp(I.P(v), dt, d) if d else I.P(v), (None if d == '?' else d) if d else dt, lib)
        if isinstance(v, AV):
            src = I.adt(st, v)
            dt = src if d is None else (None if d == '?' else d)
            if not copy and (dt == src and dt is not None or d is None) and I.alib(st, v) == lib:
                return v
            r = I.newarr(st, I.ashape(st, v), self.castp(I.abody(st, v), src, dt) if dt else I.abody(st, v), dt, lib)
            if not copy and (src is None or dt is None) and I.alib(st, v) == lib:
                # may or may not be the same memory
                c = st.heap[r.h]
                st.heap[r.h] = c.with_(may=frozenset([v.h]))
            return r
        if isinstance(v, K) and v.v is None:
            return Opq(call('array', ('k', 'None')))
        if isinstance(v, K):
            return Opq(call('array', ('k', repr(v.v))))
        raise RaiseSig('TypeError', 'array of %r' % (v,), node)

    def n_atleast_1d(self, st, a, kw, node, lib):
        I = self.I
        v = self.n_asarray(st, a[:1], {}, node, lib if not isinstance(a[0], AV) else I.alib(st, a[0]))
        if isinstance(v, AV) and I.ashape(st, v) == ():
            return self.view(st, v, Tup([NONE]), node)
        return v

    def filled(self, st, a, kw, node, lib, val):
        I = self.I
        sh = self.shape_arg(st, a[0] if a else kw.get('shape', kw.get('size')))
        d = self.dtname(st, a[1] if len(a) > 1 else kw.get('dtype', NONE))
        dt = ('float64' if lib == 'np' else 'float32') if d is None else (None if d == '?' else d)
        return I.newarr(st, sh, val, dt, lib)

    def n_zeros(self, st, a, kw, node, lib):
        return self.filled(st, a, kw, node, lib, ZERO)

    def n_ones(self, st, a, kw, node, lib):
        return self.filled(st, a, kw, node, lib, ONE)

    def n_empty(self, st, a, kw, node, lib):
        self.tmp += 1
        return self.filled(st, a, kw, node, lib, A(('uninit', self.tmp)))

    def like(self, st, a, kw, lib, val):
        I = self.I
        v = self.toarr(st, a[0])
        if not isinstance(v, AV):
            return Opq(call('like', I.as_term(st, v), val))
        d = self.dtname(st, a[1] if len(a) > 1 else kw.get('dtype', NONE))
        dt = I.adt(st, v) if d is None else (None if d == '?' else d)
        return I.newarr(st, I.ashape(st, v), val, dt, I.alib(st, v))

    def n_zeros_like(self, st, a, kw, node, lib):
        return self.like(st, a, kw, lib, ZERO)

    def n_ones_like(self, st, a, kw, node, lib):
        return self.like(st, a, kw, lib, ONE)

    def n_empty_like(self, st, a, kw, node, lib):
        self.tmp += 1
        return self.like(st, a, kw, lib, A(('uninit', self.tmp)))

    def n_full_like(self, st, a, kw, node, lib):
        return self.like(st, [a[0]], kw, lib, self.I.P(a[1]))

    def n_full(self, st, a, kw, node, lib):
        v = a[1] if len(a) > 1 else kw['fill_value']
        v = self.I.simp(st, v)
        if isinstance(v, AV) and self.I.ashape(st, v) == ():
            v = Num(self.I.abody(st, v), self.I.adt(st, v) if hasattr(self.I, 'adt') else None)
        d = self.dtname(st, a[2] if len(a) > 2 else kw.get('dtype', NONE))
        dt = self.strong(self.dts(st, v)) if d is None else (None if d == '?' else d)
        return self.I.newarr(st, self.shape_arg(st, a[0]), self.I.P(v), dt, lib)

    def n_arange(self, st, a, kw, node, lib):
        I = self.I
        start, stop, step = K(0), None, kw.get('step', K(1))
        a = [self.scalar_of(st, x) for x in a]
        a = [x for x in a if not (isinstance(x, K) and x.v is None)]
        if any(x is None for x in a):
            raise Unsup('arange of array')
        if len(a) == 1:
            stop = a[0]
        else:
            start, stop = a[0], a[1]
        if len(a) > 2:
            step = a[2]
        if any(isinstance(x, Opq) for x in (start, stop, step)):
            start, stop, step = [Num(I.P(x)) for x in (start, stop, step)]
        for x in (start, stop, step):
            if not self.scal(x):
                raise RaiseSig('TypeError', 'arange of %r' % (x,), node)
        p, q, s = I.P(start), I.P(stop), I.P(step)
        n = T.div(q - p, s)
        if not self.F.is_int(n):
            n = call('ceil', n) if n.const() is None else num(Fraction(n.const().__ceil__()))
        d = self.dtname(st, kw.get('dtype', a[3] if len(a) > 3 else NONE))
        dt = None
        if d is None:
            dt = self.dts(st, start)
            for x in (stop, step):
                dt = promote(dt, self.dts(st, x))
            dt = self.strong(dt)
        elif d != '?':
            dt = d
        return I.newarr(st, (n,), p + s * ix(0), dt, lib)

    def n_linspace(self, st, a, kw, node, lib):
        I = self.I
        names = ['start', 'stop', 'num', 'endpoint']
        d = dict(zip(names, a))
        d.update(kw)
        p, q = self.sc(st, d['start']), self.sc(st, d['stop'])
        nv = d.get('num', d.get('steps', K(50)))
        n = self.sc(st, nv)
        ep = d.get('endpoint', K(True))
        c = I.truth(st, ep)
        den = n - ONE if c is True else n if c is False else phi(c, n - ONE, n, self.F)
        step = T.div(q - p, den) if den != ZERO else ZERO
        dn = self.dtname(st, d.get('dtype', NONE))
        dt = ('float64' if lib == 'np' else 'float32') if dn is None else (None if dn == '?' else dn)
        if dn is None and 'c' in str(self.dts(st, d['start']) or '')[:1]:
            dt = None
        return I.newarr(st, (n,), p + step * ix(0), dt, lib)

    def sc(self, st, v):
        v = self.scalar_of(st, v) if isinstance(v, AV) else v
        if v is None or not (self.scal(v) or isinstance(v, Opq)):
            if isinstance(v, K):
                raise RaiseSig('TypeError', 'number expected, got %r' % (v,))
            raise Unsup('scalar expected')
        return self.I.P(v)

    def n_logspace(self, st, a, kw, node, lib):
        I = self.I
        p, q = self.sc(st, a[0]), self.sc(st, a[1])
        n = self.sc(st, a[2] if len(a) > 2 else kw.get('num', K(50)))
        base = self.sc(st, kw.get('base', K(10)))
        return I.newarr(st, (n,), self.pow(base, p + T.div(q - p, n - ONE) * ix(0)), 'float64', lib)

    def n_diff(self, st, a, kw, node, lib):
        I = self.I
        v = self.toarr(st, a[0])
        n = a[1] if len(a) > 1 else kw.get('n', K(1))
        if not isinstance(v, AV) or not isinstance(n, K):
            return self.opaque(st, 'diff', a, kw)
        sh = I.ashape(st, v)
        ax = self.axis_arg(st, a[2] if len(a) > 2 else kw.get('axis', K(-1)), len(sh))
        b = I.abody(st, v)
        for _ in range(n.v):
            up = I.reindex(b, [ix(k) + ONE if k == ax else ix(k) for k in range(len(sh))])
            b = up - b
        sh2 = list(sh)
        sh2[ax] = sh[ax] - num(n.v)
        return I.newarr(st, sh2, b, I.adt(st, v), I.alib(st, v))

    def concat(self, st, items, ax, node):
        I = self.I
        items = [self.toarr(st, x) for x in items]
        if any(not isinstance(x, AV) for x in items):
            return Opq(call('concat', num(ax), *[I.as_term(st, x) for x in items]))
        if len(items) == 1:
            return self.m_copy(st, items[0])
        nd = len(I.ashape(st, items[0]))
        if any(len(I.ashape(st, x)) != nd for x in items):
            raise RaiseSig('ValueError', 'concatenation of arrays of different rank', node)
        if ax >= nd:
            raise RaiseSig('AxisError', 'axis', node)
        off = ZERO
        parts = []
        dt = None
        first = True
        for x in items:
            sh = I.ashape(st, x)
            b = I.reindex(I.abody(st, x), [ix(k) - off if k == ax else ix(k) for k in range(nd)])
            off = off + sh[ax]
            parts.append((off, b))
            dt = I.adt(st, x) if first else promote(dt, I.adt(st, x), self.lib_of(st, items))
            first = False
        body = parts[-1][1]
        for o, b in reversed(parts[:-1]):
            body = phi(T.lt(ix(ax), o, self.F), b, body, self.F)
        sh = list(I.ashape(st, items[0]))
        for k in range(nd):
            if k != ax:
                sh[k] = self.bshape(st, [(I.ashape(st, x)[k],) for x in items])[0]
        sh[ax] = off
        return I.newarr(st, sh, body, dt, self.lib_of(st, items))

    def seq_items(self, st, v):
        its = self.I.try_items(st, v)
        if its is None:
            return None
        return its

    def n_hstack(self, st, a, kw, node, lib):
        I = self.I
        its = self.seq_items(st, a[0])
        if its is None:
            return self.opaque(st, 'hstack', a, kw)
        its = [self.n_atleast_1d(st, [x], {}, node, 'np') for x in its]
        if any(not isinstance(x, AV) for x in its):
            return Opq(call('hstack', *[I.as_term(st, x) for x in its]))
        ax = 0 if len(I.ashape(st, its[0])) == 1 else 1
        return self.concat(st, its, ax, node)

    def n_vstack(self, st, a, kw, node, lib):
        I = self.I
        v = a[0]
        if isinstance(v, AV):
            c = I.ashape(st, v)[0].const() if I.ashape(st, v) else None
            its = self.seq_items(st, v) if c is not None else None
            if its is None and len(I.ashape(st, v)) >= 2:
                sh = I.ashape(st, v)
                if len(sh) == 2:
                    return self.m_copy(st, v)
            if its is None:
                return self.opaque(st, 'vstack', a, kw)
        else:
            if isinstance(v, Opq):
                return self.opaque(st, 'vstack', a, kw)
            its = self.seq_items(st, v)
            if its is None:
                return self.opaque(st, 'vstack', a, kw)
        out = []
        for x in its:
            x = self.toarr(st, x)
            if isinstance(x, AV) and len(I.ashape(st, x)) < 2:
                x = self.n_atleast_1d(st, [x], {}, node, 'np')
                x = self.view(st, x, Tup([NONE, Slc(NONE, NONE, NONE)]), node)
            out.append(x)
        return self.concat(st, out, 0, node)

    def n_concatenate(self, st, a, kw, node, lib):
        its = self.seq_items(st, a[0])
        if its is None:
            return self.opaque(st, 'concatenate', a, kw)
        x = self.toarr(st, its[0])
        if not isinstance(x, AV):
            return self.opaque(st, 'concatenate', a, kw)
        ax = self.axis_arg(st, a[1] if len(a) > 1 else kw.get('axis', kw.get('dim', K(0))), len(self.I.ashape(st, x)))
        return self.concat(st, its, ax, node)

    n_cat = n_concatenate

    def n_stack(self, st, a, kw, node, lib):
        its = self.seq_items(st, a[0])
        if its is None:
            return self.opaque(st, 'stack', a, kw)
        its = [self.toarr(st, x) for x in its]
        if any(not isinstance(x, AV) for x in its):
            return self.opaque(st, 'stack', a, kw)
        ax = self.axis_arg(st, a[1] if len(a) > 1 else kw.get('axis', kw.get('dim', K(0))), len(self.I.ashape(st, its[0])) + 1)
        return self.stack(st, its, ax)

    # -- reductions
    def reduce(self, st, op, v, axis, keep, node, dt=None):
        I = self.I
        sh = I.ashape(st, v)
        t = self.tmpix()
        n = sh[axis]
        m = []
        for k in range(len(sh)):
            if k == axis:
                m.append(A(t))
            else:
                m.append(ix(k if keep or k < axis else k - 1))
        b = I.reindex(I.abody(st, v), m)
        src = I.adt(st, v)
        if op in ('sum', 'mean'):
            r = self.sumover(b, t, n)
            if op == 'mean':
                r = T.div(r, n) if n != ZERO else r
            dt = src
            if op == 'mean' and src in ('int64', 'int32', 'bool'):
                dt = 'float64'
            if op == 'sum' and src in ('bool', 'int32'):
                dt = 'int64'
        elif op in ('any', 'all'):
            r = T.ind(('flag', A(('red', op, n, I.bind(T.ind(self.pcond(b)), t)))))
            if not self.has_atom(b, t):
                r = T.ind(self.pcond(b))
            dt = 'bool'
        else:
            if not self.has_atom(b, t) and op in ('max', 'min'):
                r = b
            else:
                k, mono, prim = T.content(b) if b.m else (Fraction(1), (), b)
                # positive constants are pulled out of max/min
                if op in ('max', 'min') and b.m and k not in (1,) and len(b.m) == 1:
                    kk = abs(k)
                    r = A(('red', op, n, I.bind(b.scale(1 / kk), t))).scale(kk)
                elif op in ('argmax', 'argmin') and len(b.m) == 1 and k > 0:
                    r = A(('red', op, n, I.bind(b.scale(1 / k), t)))
                else:
                    r = A(('red', op, n, I.bind(b, t)))
            dt = 'int64' if op in ('argmax', 'argmin') else (REALDT.get(src, src) if op in ('std', 'var') else src)
        sh2 = [ONE if k == axis else d for k, d in enumerate(sh) if keep or k != axis]
        if not sh2 and not keep:
            if dt == 'bool':
                return self.bool_(self.pcond(r))
            return I.mknum(r, dt) if I.alib(st, v) == 'np' else I.newarr(st, (), r, dt, 't')
        return I.newarr(st, sh2, r, dt, I.alib(st, v))

    def red(self, st, op, a, kw, node):
        I = self.I
        v = a[0]
        if isinstance(v, (Ref, Tup)):
            v = self.toarr(st, v)
        if isinstance(v, Opq):
            return self.opaque(st, op, [v] + a[1:], kw)
        if self.scal(v):
            return v
        axis = a[1] if len(a) > 1 else kw.get('axis', kw.get('dim', NONE))
        keep = I.truth(st, kw.get('keepdims', kw.get('keepdim', K(False))))
        sh = I.ashape(st, v)
        if isinstance(axis, K) and axis.v is None:
            if len(sh) == 0:
                return self.subscript(st, v, Tup(()), node)
            if op in ('argmax', 'argmin') and len(sh) > 1:
                sh1 = [d for d in sh if d != ONE]
                if len(sh1) > 1:
                    return Num(A(('red', op + '-flat', sh, I.abody(st, v))), 'int64')
                v = self.m_squeeze(st, v)
                return self.reduce(st, op, v, 0, False, node)
            n = ONE
            r = v
            if op == 'mean':
                r = self.red(st, 'sum', [v], {}, node)
                for d in sh:
                    n = n * d
                return self.binop(st, ast.Div(), r, self.dim(n), node)
            if op in ('std', 'var', 'median'):
                if len(sh) > 1:
                    return Num(A(('red', op + '-flat', sh, I.abody(st, v))), REALDT.get(I.adt(st, v), I.adt(st, v)))
            for k in range(len(sh) - 1, -1, -1):
                r = self.reduce(st, op, r, k, False, node) if isinstance(r, AV) else r
            return r
        if isinstance(axis, Tup):
            r = v
            axs = sorted([self.axis_arg(st, x, len(sh)) for x in axis.items], reverse=True)
            for k in axs:
                r = self.reduce(st, op, r, k, keep is True, node)
            return r
        ax = self.axis_arg(st, axis, len(sh))
        return self.reduce(st, op, v, ax, keep is True, node)

    def n_count_nonzero(self, st, a, kw, node, lib):
        return self.opaque(st, 'count_nonzero', a, kw)

    def n_cumsum(self, st, a, kw, node, lib):
        I = self.I
        v = self.toarr(st, a[0])
        if not isinstance(v, AV) or len(I.ashape(st, v)) != 1:
            return self.opaque(st, 'cumsum', a, kw)
        t = self.tmpix()
        b = I.reindex(I.abody(st, v), [A(t)])
        return I.newarr(st, I.ashape(st, v), self.sumover(b, t, ix(0) + ONE), I.adt(st, v))

    def n_allclose(self, st, a, kw, node, lib):
        I = self.I
        x, y = I.as_term(st, a[0]), I.as_term(st, a[1])
        if x == y:
            return K(True)
        return B(('flag', call('allclose', x, y)))

    def n_array_equal(self, st, a, kw, node, lib):
        I = self.I
        x, y = I.as_term(st, a[0]), I.as_term(st, a[1])
        if x == y:
            return K(True)
        return B(('flag', call('array_equal', x, y)))

    def n_clip(self, st, a, kw, node, lib):
        lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min', NONE))
        hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max', NONE))
        vals = [a[0]]
        fs = []
        if not (isinstance(lo, K) and lo.v is None):
            vals.append(lo)
            fs.append('max')
        if not (isinstance(hi, K) and hi.v is None):
            vals.append(hi)
            fs.append('min')

        def f(x, *bs):
            for o, b in zip(fs, bs):
                x = T._lat(o, [x, b], self.F)
            return x
        return self.elem(st, f, vals, self.dts(st, a[0]), node)

    def n_pad(self, st, a, kw, node, lib):
        """np.pad / torch.nn.functional.pad"""
        I = self.I
        v = self.toarr(st, a[0])
        w = a[1] if len(a) > 1 else kw.get('pad_width', kw.get('pad'))
        mode = a[2] if len(a) > 2 else kw.get('mode', K('constant'))
        if not isinstance(v, AV) or not isinstance(mode, K):
            return self.opaque(st, 'pad', a, kw)
        sh = I.ashape(st, v)
        nd = len(sh)
        ws = self.pad_widths(st, w, nd, lib)
        b = I.abody(st, v)
        nsh = list(sh)
        for ax in range(nd):
            lo, hi = ws[ax]
            if lo == ZERO and hi == ZERO:
                continue
            n = sh[ax]
            j = ix(ax) - lo
            inside = cand(T.ge(j, ZERO, self.F) if lo != ZERO else True, T.lt(j, n, self.F))
            val = I.reindex(b, [j if k == ax else ix(k) for k in range(nd)])
            cv = kw.get('constant_values', kw.get('value', K(0)))
            if mode.v in ('constant', 'zero'):
                out = I.P(cv) if self.scal(cv) else ZERO
            else:
                m = {'edge': 'edge', 'replicate': 'edge', 'circular': 'wrap'}.get(mode.v, mode.v)
                out = I.reindex(b, [call('padidx', ('k', m), n, j) if k == ax else ix(k) for k in range(nd)])
            b = phi(inside, val, out, self.F)
            nsh[ax] = n + lo + hi
        return I.newarr(st, nsh, b, I.adt(st, v), I.alib(st, v))

    def pad_widths(self, st, w, nd, lib):
        I = self.I
        w = I.simp(st, w)
        if self.scal(w):
            return [(I.P(w), I.P(w))] * nd
        its = [I.simp(st, x) for x in I.iter_items(st, w)]
        if lib == 't':
            ps = [I.P(x) for x in its]
            out = [(ZERO, ZERO)] * nd
            for k in range(len(ps) // 2):
                out[nd - 1 - k] = (ps[2 * k], ps[2 * k + 1])
            return out
        if all(self.scal(x) or isinstance(x, Opq) for x in its):
            if len(its) == 1:
                return [(I.P(its[0]),) * 2] * nd
            if len(its) == 2:
                return [(I.P(its[0]), I.P(its[1]))] * nd
        out = []
        for x in its:
            y = I.iter_items(st, x)
            out.append((I.P(I.simp(st, y[0])), I.P(I.simp(st, y[-1]))))
        if len(out) == 1:
            out = out * nd
        if len(out) != nd:
            raise RaiseSig('ValueError', 'pad width of wrong rank')
        return out

    def n_flip(self, st, a, kw, node, lib):
        I = self.I
        v = self.toarr(st, a[0])
        if not isinstance(v, AV):
            return self.opaque(st, 'flip', a, kw)
        ax = a[1] if len(a) > 1 else kw.get('axis', kw.get('dims', NONE))
        nd = len(I.ashape(st, v))
        if isinstance(ax, K) and ax.v is None:
            axs = range(nd)
        elif isinstance(ax, (Tup, Ref)):
            axs = [self.axis_arg(st, x, nd) for x in I.iter_items(st, ax)]
        else:
            axs = [self.axis_arg(st, ax, nd)]
        r = self.view(st, v, Tup([Slc(NONE, NONE, K(-1)) if k in axs else Slc(NONE, NONE, NONE) for k in range(nd)]), node)
        if I.alib(st, v) == 't':
            return self.m_copy(st, r)
        return r

    def n_flipud(self, st, a, kw, node, lib):
        return self.n_flip(st, [a[0], K(0)], {}, node, lib)

    def n_fliplr(self, st, a, kw, node, lib):
        return self.n_flip(st, [a[0], K(1)], {}, node, lib)

    def n_roll(self, st, a, kw, node, lib):
        return self.opaque(st, 'roll', a, kw)

    def n_expand_dims(self, st, a, kw, node, lib):
        v = self.toarr(st, a[0])
        nd = len(self.I.ashape(st, v))
        ax = self.axis_arg(st, a[1] if len(a) > 1 else kw['axis'], nd + 1)
        items = [Slc(NONE, NONE, NONE)] * nd
        items.insert(ax, NONE)
        return self.view(st, v, Tup(items), node)

    def n_unsqueeze(self, st, a, kw, node, lib):
        return self.n_expand_dims(st, a, kw, node, lib)

    def n_squeeze(self, st, a, kw, node, lib):
        return self.method(st, self.toarr(st, a[0]), 'squeeze', a[1:], kw, node)

    def n_reshape(self, st, a, kw, node, lib):
        return self.method(st, self.toarr(st, a[0]), 'reshape', a[1:], kw, node)

    def n_ravel(self, st, a, kw, node, lib):
        return self.method(st, self.toarr(st, a[0]), 'ravel', a[1:], kw, node)

    def n_transpose(self, st, a, kw, node, lib):
        return self.method(st, self.toarr(st, a[0]), 'transpose', a[1:], kw, node)

    def n_copy(self, st, a, kw, node, lib):
        v = self.toarr(st, a[0])
        return self.m_copy(st, v) if isinstance(v, AV) else v

    n_clone = n_copy

    def n_real(self, st, a, kw, node, lib):
        return self.getattr(st, self.toarr(st, a[0]), 'real', node)

    def n_imag(self, st, a, kw, node, lib):
        return self.getattr(st, self.toarr(st, a[0]), 'imag', node)

    def n_unwrap(self, st, a, kw, node, lib):
        I = self.I
        v = self.toarr(st, a[0])
        if not isinstance(v, AV):
            return self.opaque(st, 'unwrap', a, kw)
        sh = I.ashape(st, v)
        ax = self.axis_arg(st, kw.get('axis', K(-1)), len(sh))
        t = self.tmpix()
        b = I.bind(I.reindex(I.abody(st, v), [A(t) if k == ax else ix(k) for k in range(len(sh))]), t)
        return I.newarr(st, sh, A(('fft', 'unwrap', sh[ax], b, ix(ax))), I.adt(st, v))

    def n_searchsorted(self, st, a, kw, node, lib):
        return self.opaque(st, 'searchsorted', a, kw)

    def n_finfo(self, st, a, kw, node, lib):
        d = self.dtname(st, a[0])
        if d in DTS:
            return Opq(call('finfo', ('k', REALDT.get(d, d))))
        return self.opaque(st, 'finfo', a, kw)

    def n_dtype(self, st, a, kw, node, lib):
        d = self.dtname(st, a[0])
        return K(DT(d)) if d in DTS else self.opaque(st, 'dtype', a, kw)

    def n_result_type(self, st, a, kw, node, lib):
        return self.opaque(st, 'result_type', a, kw)

    def n_outer(self, st, a, kw, node, lib):
        x, y = self.toarr(st, a[0]), self.toarr(st, a[1])
        I = self.I
        if not (isinstance(x, AV) and isinstance(y, AV)):
            return self.opaque(st, 'outer', a, kw)
        n1, n2 = len(I.ashape(st, x)), len(I.ashape(st, y))
        return x, y

    def x_numpy_subtract_outer(self, st, a, kw, node):
        I = self.I
        x, y = self.toarr(st, a[0]), self.toarr(st, a[1])
        if not (isinstance(x, AV) and isinstance(y, AV)):
            return self.opaque(st, 'subtract.outer', a, kw)
        s1, s2 = I.ashape(st, x), I.ashape(st, y)
        b = I.abody(st, x) - I.reindex(I.abody(st, y), [ix(k + len(s1)) for k in range(len(s2))])
        return I.newarr(st, s1 + s2, b, promote(I.adt(st, x), I.adt(st, y)))

    def n_isfinite(self, st, a, kw, node, lib):
        return self.elem(st, lambda p: T.ind(cand(cnot(('isinf', p)), cnot(('isnan', p)))), [a[0]], 'bool', node) if isinstance(a[0], AV) else \
            self.bool_(cand(cnot(('isinf', self.sc(st, a[0]))), cnot(('isnan', self.sc(st, a[0])))))

    def _isx(self, st, a, kind, node):
        v = a[0]
        if isinstance(v, AV):
            return self.elem(st, lambda p: T.ind(self.isx(p, kind)), [v], 'bool', node)
        return self.bool_(self.I.decide(st, self.isx(self.sc(st, v), kind)))

    def isx(self, p, kind):
        if p.const() is not None:
            return False
        if p == A(T.INF) or p == -A(T.INF):
            return kind == 'isinf'
        if p == A(T.NAN):
            return kind == 'isnan'
        return (kind, p)

    def n_isnan(self, st, a, kw, node, lib):
        return self._isx(st, a, 'isnan', node)

    def n_isinf(self, st, a, kw, node, lib):
        return self._isx(st, a, 'isinf', node)

    def n_angle(self, st, a, kw, node, lib):
        dt = self.ufdt(st, [a[0]], True)
        return self.elem(st, lambda p: call('angle', p), [a[0]], REALDT.get(dt, dt), node)

    def n_gamma(self, st, a, kw, node, lib):
        return self.elem(st, lambda p: call('gammafn', p), [a[0]], 'float64', node)

    def n_gammaln(self, st, a, kw, node, lib):
        return self.elem(st, lambda p: call('gammaln', p), [a[0]], 'float64', node)

    def x_scipy_integrate_trapezoid(self, st, a, kw, node):
        I = self.I
        y = self.toarr(st, a[0])
        dt = I.adt(st, y) if isinstance(y, AV) else None
        if isinstance(y, AV) and len(I.ashape(st, y)) == 1 and (len(a) < 2 or isinstance(a[1], AV)):
            # linear in y
            t = self.tmpix()
            b = I.reindex(I.abody(st, y), [A(t)])
            x = I.as_term(st, a[1]) if len(a) > 1 else ()
            out = ZERO
            n = I.ashape(st, y)[0]
            for q, d in self.split_lin(b, t):
                out = out + q * A(('red', ('trapz', x), n, I.bind(d, t)))
            return Num(out, dt)
        return Num(call('trapezoid', *[I.as_term(st, x) for x in a], *[(k, I.as_term(st, v)) for k, v in kw.items()]), dt)

    x_numpy_trapz = x_numpy_trapezoid = x_scipy_integrate_trapezoid

    def x_scipy_signal_get_window(self, st, a, kw, node):
        I = self.I
        n = a[1] if len(a) > 1 else kw['Nx']
        args = tuple(I.as_term(st, x) for x in a) + tuple((k, I.as_term(st, v)) for k, v in sorted(kw.items()))
        return I.newarr(st, (self.sc(st, n),), call('get_window', args, ix(0)), 'float64')

    def x_scipy_signal_windows_dpss(self, st, a, kw, node):
        I = self.I
        args = tuple(I.as_term(st, x) for x in a) + tuple((k, I.as_term(st, v)) for k, v in sorted(kw.items()))
        return I.newarr(st, (self.sc(st, a[0]),), call('dpss', args, ix(0)), 'float64')

    def x_scipy_signal_check_NOLA(self, st, a, kw, node):
        I = self.I
        return B(('flag', call('check_NOLA', *[I.as_term(st, x) for x in a], *[(k, I.as_term(st, v)) for k, v in sorted(kw.items())])))

    # -- fft
    def np_fft(self, st, op, args, kw, node, lib, name):
        I = self.I
        v = args[0]
        names = ['x', 'n', 'axis'] if lib == 'np' else ['x', 'n', 'dim']
        d = dict(zip(names, args))
        d.update(kw)
        v = self.toarr(st, d['x'] if 'x' in d else d.get('a', d.get('input')))
        I.event('fft', (name, op, v, d), st, node)
        if not isinstance(v, AV):
            return Opq(call(op, I.as_term(st, v), *[(k, I.as_term(st, x)) for k, x in sorted(d.items()) if k in ('n', 'axis', 'dim', 'norm')]))
        nv = d.get('n', NONE)
        sh = list(I.ashape(st, v))
        ax = self.axis_arg(st, d.get('axis', d.get('dim', K(-1))), len(sh))
        t = self.tmpix()
        b = I.reindex(I.abody(st, v), [A(t) if k == ax else ix(k) for k in range(len(sh))])
        n_in = sh[ax]
        isn = not (isinstance(nv, K) and nv.v is None)
        src = I.adt(st, v)
        norm = d.get('norm', NONE)
        nk = () if isinstance(norm, K) and norm.v in (None, 'backward') else (I.as_term(st, norm),)
        if op == 'irfft':
            n = self.sc(st, nv) if isn else (n_in - ONE).scale(2)
            kind = ('irfft', n_in) + nk
            n_out = n
        else:
            n = self.sc(st, nv) if isn else n_in
            if isn and n != n_in:
                b = phi(T.lt(A(t), n_in, self.F), b, ZERO, self.F)
            kind = {'fft': 'fft', 'rfft': 'fft', 'ifft': 'ifft'}[op]
            if nk:
                kind = (kind,) + nk
            n_out = self.floordiv(n, num(2)) + ONE if op == 'rfft' else n
        out = ZERO
        for q, dd in self.split_lin(b, t):
            out = out + q * A(('fft', kind, n, I.bind(dd, t), ix(ax)))
        s2 = self.strong(src)
        if op == 'irfft':
            dt = REALDT.get(s2, s2)
        else:
            dt = CPLXDT.get(s2, s2)
        if dt in ('int64', 'int32', 'bool'):
            dt = 'float64' if op == 'irfft' else 'complex128'
        if name.startswith('numpy.fft') and False:
            dt = 'complex128'
        if op == 'rfft' and src in ('complex64', 'complex128'):
            raise RaiseSig('TypeError', 'rfft of complex input', node)
        sh[ax] = n_out
        r = I.newarr(st, sh, out, dt, 't' if lib == 't' else 'np')
        if lib == 't' and ax != len(sh) - 1:
            st.heap[r.h] = st.heap[r.h].with_(lay='strided')
        return r

    def np_shift(self, st, op, args, kw, node):
        I = self.I
        v = self.toarr(st, args[0])
        ax = args[1] if len(args) > 1 else kw.get('axes', kw.get('dim', NONE))
        if not isinstance(v, AV):
            return self.opaque(st, op, args, kw)
        sh = I.ashape(st, v)
        if isinstance(ax, K) and ax.v is None:
            axs = list(range(len(sh)))
        elif isinstance(ax, (Tup, Ref)):
            axs = [self.axis_arg(st, x, len(sh)) for x in I.iter_items(st, ax)]
        else:
            axs = [self.axis_arg(st, ax, len(sh))]
        b = I.abody(st, v)
        for k in axs:
            n = sh[k]
            s = self.floordiv(n, num(2))
            up = lambda off: I.reindex(b, [ix(j) + off if j == k else ix(j) for j in range(len(sh))])
            if op == 'fftshift':
                b = phi(T.ge(ix(k), s, self.F), up(-s), up(n - s), self.F)
            else:
                b = phi(T.lt(ix(k), n - s, self.F), up(s), up(s - n), self.F)
        return I.newarr(st, sh, b, I.adt(st, v), I.alib(st, v))

    # ------------------------------------------------------------ methods
    def m_copy(self, st, v):
        I = self.I
        return I.newarr(st, I.ashape(st, v), I.abody(st, v), I.adt(st, v), I.alib(st, v))

    def m_squeeze(self, st, v, axis=None):
        I = self.I
        sh = I.ashape(st, v)
        if axis is None:
            items = [K(0) if d == ONE else Slc(NONE, NONE, NONE) for d in sh]
        else:
            items = [K(0) if k == axis else Slc(NONE, NONE, NONE) for k in range(len(sh))]
        if not sh:
            return v
        r = self.view(st, v, Tup(items), None)
        return r

    def m_reshape(self, st, v, dims, node):
        I = self.I
        sh = I.ashape(st, v)
        ds = [I.P(I.simp(st, x)) for x in dims]
        total = ONE
        for d in sh:
            total = total * d
        known = ONE
        neg = [k for k, d in enumerate(ds) if d == -ONE]
        for k, d in enumerate(ds):
            if k not in neg:
                known = known * d
        if neg:
            ds[neg[0]] = T.div(total, known)
        a = [k for k, d in enumerate(sh) if d != ONE]
        b = [k for k, d in enumerate(ds) if d != ONE]
        if [sh[k] for k in a] == [ds[k] for k in b]:
            c = st.heap[v.h]
            base = v.maps if v.maps is not None else tuple(ix(k) for k in range(len(c.sh)))
            mp = {k: ZERO for k in range(len(sh))}
            for x, y in zip(a, b):
                mp[x] = ix(y)
            return AV(v.h, tuple(ds), tuple(I.reindex(m, mp) for m in base))
        ct = (total - self.prod(ds)).const()
        if ct is not None and ct != 0:
            raise RaiseSig('ValueError', 'cannot reshape %s into %s' % (sh, ds), node)
        r = I.newarr(st, ds, A(('call', 'reshape', I.as_term(st, v)) + tuple(ix(k) for k in range(len(ds)))), I.adt(st, v), I.alib(st, v), may=frozenset([v.h]))
        return r

    def prod(self, ds):
        p = ONE
        for d in ds:
            p = p * d
        return p

    def method(self, st, o, name, args, kw, node):
        I = self.I
        args = [I.simp(st, a) for a in args]
        if any(isinstance(v, Phi) for v in list(args) + list(kw.values())):
            ks = list(kw)
            return I.splitn(st, list(args) + [kw[k] for k in ks],
                            lambda s, *vs: self.method(s, o, name, list(vs[:len(args)]), dict(zip(ks, vs[len(args):])), node))
        if isinstance(o, GObj):
            return self.gobj_method(st, o, name, args, kw, node)
        if isinstance(o, RView):
            if name == 'data_ptr':
                return Ptr(o.av)
            if name in ('contiguous', 'detach', 'squeeze'):
                return o
            raise Unsup('%s of a real view' % name)
        if isinstance(o, AV):
            if name == 'data_ptr' and I.alib(st, o) == 't':
                return Ptr(o)
            return self.arr_method(st, o, name, args, kw, node)
        if isinstance(o, K) and isinstance(o.v, str):
            return self.str_method(st, o, name, args, kw, node)
        if isinstance(o, Ref):
            c = st.heap[o.h]
            if isinstance(c, DictC):
                return self.dict_method(st, o, c, name, args, kw, node)
            if isinstance(c, ListC):
                return self.list_method(st, o, c, name, args, kw, node)
        if isinstance(o, Tup):
            if name == 'index':
                for k, x in enumerate(o.items):
                    if self.equal(st, x, args[0]) is True:
                        return K(k)
                raise RaiseSig('ValueError', 'not in tuple', node)
        if isinstance(o, (Num, B)) or (isinstance(o, K) and isinstance(o.v, (int, float, complex))):
            if name == 'is_integer':
                if isinstance(o, K):
                    return K(float(o.v).is_integer())
                if self.F.is_int(I.P(o)):
                    return K(True)
                return B(('flag', call('is_integer', I.P(o))))
            if name in ('copy', 'item', 'squeeze', 'ravel', 'flatten', 'tolist'):
                return o
            if name in ('astype',):
                d = self.dtname(st, args[0])
                return self.elem(st, lambda p: self.castp(p, self.dts(st, o), d), [o], d if d in DTS else None)
            if name in ('conj', 'conjugate'):
                return self.ufunc(st, 'conj', [o], {}, node)
            if name in ('sum', 'mean', 'max', 'min', 'prod'):
                return o
            if name in ('any', 'all'):
                return self.bool_(I.truth(st, o))
            if name in ('reshape',):
                return self.m_reshape(st, self.n_asarray(st, [o], {}, node, 'np'), args[0].items if isinstance(args[0], Tup) else args, node)
        if isinstance(o, Opq):
            a = o.p.atom()
            if a is not None and a[0] == 'call' and a[1] == 'open':
                if name == 'read':
                    p = a[2]
                    if isinstance(p, tuple) and p[0] == 'k':
                        path = ast.literal_eval(p[1])
                        full = os.path.join(I.proj.repo, path)
                        for suf, txt in I.files.items():
                            if path.endswith(suf):
                                return K(txt)
                        if os.path.isfile(full) and os.path.abspath(full).startswith(os.path.abspath(I.proj.repo)):
                            with open(full, encoding='utf-8') as f:
                                return K(f.read())
                if name == 'write':
                    I.event('file-write', (a[2], a[3]), st, node)
                    return NONE
            I.event('opaque-meth', (o.p, name, args, kw), st, node)
            return Opq(call('meth', o.p, name, *[I.as_term(st, x) for x in args], *[(k, I.as_term(st, v)) for k, v in sorted(kw.items())]))
        raise Unsup('method %s of %r' % (name, o))

    def arr_method(self, st, o, name, args, kw, node):
        I = self.I
        sh = I.ashape(st, o)
        lib = I.alib(st, o)
        if name in ('copy', 'clone'):
            return self.m_copy(st, o)
        if name in ('detach', 'contiguous', 'cpu', 'numpy', 'cuda', 'requires_grad_'):
            if name == 'cpu' and lib == 't':
                return AV(I.new(st, st.heap[o.h].with_(sh=I.ashape(st, o), body=I.abody(st, o), lib='tcpu')))
            if name == 'numpy':
                return I.newarr(st, sh, I.abody(st, o), I.adt(st, o), 'np')
            if name == 'contiguous' and (o.maps is not None or st.heap[o.h].lay):
                return I.newarr(st, sh, I.abody(st, o), I.adt(st, o), lib)
            return o
        if name in ('astype', 'to', 'type'):
            dv = args[0] if args else kw.get('dtype', kw.get('device', NONE))
            if name == 'to' and ('device' in kw or (isinstance(dv, K) and isinstance(dv.v, str) and dv.v.split(':')[0] in ('cuda', 'cpu'))):
                if 'dtype' not in kw:
                    return o
                dv = kw['dtype']
            d = self.dtname(st, dv)
            if d is None or d == '?':
                return I.newarr(st, sh, A(('call', 'astype', I.as_term(st, dv), I.abody(st, o))), None, lib) if d == '?' else o
            src = I.adt(st, o)
            cp = kw.get('copy', K(True))
            body = self.castp(I.abody(st, o), src, d)
            if (name == 'to' or I.truth(st, cp) is False) and src == d:
                return o
            r = I.newarr(st, sh, body, d, lib)
            if src is None and (name == 'to' or I.truth(st, cp) is not True):
                st.heap[r.h] = st.heap[r.h].with_(may=frozenset([o.h]))
            return r
        if name in ('float', 'double'):
            return I.newarr(st, sh, I.abody(st, o), 'float32' if name == 'float' else 'float64', lib)
        if name in ('reshape', 'view') and args:
            dims = args
            if len(args) == 1 and isinstance(args[0], (Tup, Ref)):
                dims = I.iter_items(st, args[0])
            if name == 'view' and (self.is_dt_value(args[0])):
                return I.newarr(st, sh, A(('call', 'bitview', I.as_term(st, args[0]), I.abody(st, o))), self.dtname(st, args[0]), lib, may=frozenset([o.h]))
            return self.m_reshape(st, o, dims, node)
        if name == 'squeeze':
            ax = args[0] if args else kw.get('axis', kw.get('dim', NONE))
            if isinstance(ax, K) and ax.v is None:
                return self.m_squeeze(st, o)
            return self.m_squeeze(st, o, self.axis_arg(st, ax, len(sh)))
        if name in ('ravel', 'flatten'):
            one = [d for d in sh if d != ONE]
            if len(one) <= 1:
                r = self.m_reshape(st, o, [K(-1)], node)
            else:
                r = I.newarr(st, (self.prod(sh),), A(('call', 'ravel', I.as_term(st, o), ix(0))), I.adt(st, o), lib, may=frozenset([o.h]))
            return self.m_copy(st, r) if name == 'flatten' else r
        if name in ('transpose', 'permute'):
            if not args:
                return self.permute(st, o, list(range(len(sh)))[::-1])
            its = args[0].items if isinstance(args[0], Tup) else args
            return self.permute(st, o, [self.axis_arg(st, x, len(sh)) for x in its])
        if name == 'swapaxes':
            p = list(range(len(sh)))
            x, y = self.axis_arg(st, args[0], len(sh)), self.axis_arg(st, args[1], len(sh))
            p[x], p[y] = p[y], p[x]
            return self.permute(st, o, p)
        if name in ('numel', 'nelement'):
            p = ONE
            for d in sh:
                p = p * d
            return self.dim(p)
        if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'argmax', 'argmin', 'std', 'var', 'prod'):
            return self.red(st, name, [o] + args, kw, node)
        if name in ('conj', 'conjugate', 'abs', 'sqrt', 'round', 'clip', 'cumsum', 'flip', 'unsqueeze', 'dot', 'nonzero', 'repeat', 'take'):
            h = getattr(self, 'n_' + name, None)
            if h is not None:
                return h(st, [o] + args, kw, node, lib)
            if name in UFUNCS:
                return self.ufunc(st, name, [o] + args, kw, node)
            return self.opaque(st, name, [o] + args, kw)
        if name == 'tolist':
            its = I.try_items(st, o)
            if its is not None and all(self.scal(x) for x in its):
                return I.newlist(st, its)
            return Opq(call('tolist', I.as_term(st, o)))
        if name == 'item':
            r = self.scalar_of(st, o)
            if r is not None and not args:
                return Num(r.p, {'float32': 'pyfloat', 'float64': 'pyfloat', 'int64': 'pyint', 'int32': 'pyint'}.get(r.dt))
            return self.opaque(st, 'item', [o] + args, kw)
        if name == 'fill':
            I.write(st, o, args[0], node, 'fill')
            return NONE
        if name == 'sort':
            I.touch(st, o, node, 'sort')
            st.heap[o.h] = st.heap[o.h].with_(body=A(('call', 'sorted', st.heap[o.h].body)))
            return NONE
        if name == 'copy_':
            I.write(st, o, args[0], node, 'copy_')
            return o
        if name == 'new_zeros':
            s = self.shape_arg(st, args[0] if len(args) == 1 else Tup(args))
            d = self.dtname(st, kw.get('dtype', NONE))
            return I.newarr(st, s, ZERO, I.adt(st, o) if d is None else d, lib)
        if name in ('dim',):
            return K(len(sh))
        if name == 'size':
            if args:
                return self.dim(sh[self.axis_arg(st, args[0], len(sh))])
            return self.shape_tuple(st, o)
        if name == 'data_ptr':
            return Opq(call('ptr', ('cell', o.h)))
        I.event('opaque-meth', (I.as_term(st, o), name, args, kw), st, node)
        return self.opaque(st, 'arr.' + name, [o] + args, kw)

    def str_method(self, st, o, name, args, kw, node):
        I = self.I
        vs = []
        for a in args:
            if isinstance(a, K):
                vs.append(a.v)
            elif isinstance(a, (Tup, Ref)):
                its = I.try_items(st, a)
                if its is None or not all(isinstance(x, K) for x in its):
                    return Opq(call('str', ('k', o.v), name, I.as_term(st, a)))
                vs.append([x.v for x in its] if name == 'join' else tuple(x.v for x in its))
            else:
                return Opq(call('str', ('k', o.v), name, *[I.as_term(st, x) for x in args]))
        if any(not isinstance(v, K) for v in kw.values()):
            return Opq(call('str', ('k', o.v), name))
        try:
            if name == 'format' and any(isinstance(v, DT) for v in vs):
                return Opq(call('str', ('k', o.v), name))
            r = getattr(o.v, name)(*vs, **{k: v.v for k, v in kw.items()})
        except (ValueError, TypeError, IndexError, KeyError) as e:
            raise RaiseSig(type(e).__name__, str(e), node)
        if isinstance(r, list):
            return I.newlist(st, [K(x) for x in r])
        if isinstance(r, tuple):
            return Tup([K(x) for x in r])
        return K(r)

    def dict_method(self, st, o, c, name, args, kw, node):
        I = self.I
        live = {k: v for k, v in c.d.items() if I.simp(st, v) is not UNDEF}

        def gated(v):
            v = I.simp(st, v)
            return isinstance(v, Phi) and I.has_undef(v)
        if name == 'get':
            k = I.key(st, args[0])
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            if k in live:
                v = I.simp(st, live[k])
                if gated(v):
                    return I.split(st, v, lambda s, x: d if x is UNDEF else x)
                return v
            if isinstance(k, tuple) and k[:1] == ('#sym',):
                return Opq(call('dict.get', I.as_term(st, o), k[1]))
            return d
        if name in ('items', 'keys', 'values', 'copy'):
            if any(gated(v) for v in live.values()) and name != 'copy':
                raise Unsup('iteration over a dict with gated keys')
            if name == 'items':
                return I.newlist(st, [Tup([I.unkey(k), v]) for k, v in live.items()])
            if name == 'keys':
                return I.newlist(st, [I.unkey(k) for k in live])
            if name == 'values':
                return I.newlist(st, list(live.values()))
            return I.newdict(st, dict(c.d))
        if name == 'pop':
            k = I.key(st, args[0])
            I.touch(st, o, node, 'pop')
            d = dict(c.d)
            if k in live:
                v = d.pop(k)
                st.heap[o.h] = DictC(d, c.org)
                if gated(v):
                    def kk(s, x):
                        if x is UNDEF:
                            if len(args) > 1:
                                return args[1]
                            raise RaiseSig('KeyError', repr(k), node)
                        return x
                    return I.split(st, v, kk)
                return v
            if len(args) > 1:
                return args[1]
            raise RaiseSig('KeyError', repr(k), node)
        if name == 'update':
            I.touch(st, o, node, 'update')
            d = dict(c.d)
            for a in args:
                d.update(I.dict_of(st, a))
            d.update(kw)
            st.heap[o.h] = DictC(d, c.org)
            return NONE
        if name == 'setdefault':
            k = I.key(st, args[0])
            if k in live:
                return live[k]
            I.touch(st, o, node, 'setdefault')
            d = dict(c.d)
            d[k] = args[1] if len(args) > 1 else NONE
            st.heap[o.h] = DictC(d, c.org)
            return d[k]
        if name == 'clear':
            I.touch(st, o, node, 'clear')
            st.heap[o.h] = DictC({}, c.org)
            return NONE
        raise Unsup('dict.%s' % name)

    def list_method(self, st, o, c, name, args, kw, node):
        I = self.I
        if name == 'append':
            I.touch(st, o, node, 'append')
            if c.kind.startswith('#'):
                raise Unsup('append to symbolic list')
            st.heap[o.h] = ListC(c.items + (args[0],), c.kind, c.org)
            return NONE
        if name == 'add':
            I.touch(st, o, node, 'add')
            if args[0] not in c.items:
                st.heap[o.h] = ListC(c.items + (args[0],), c.kind, c.org)
            return NONE
        if name == 'extend':
            I.touch(st, o, node, 'extend')
            st.heap[o.h] = ListC(c.items + tuple(I.iter_all(st, args[0])), c.kind, c.org)
            return NONE
        if name == 'insert' and isinstance(args[0], K):
            I.touch(st, o, node, 'insert')
            l = list(c.items)
            l.insert(args[0].v, args[1])
            st.heap[o.h] = ListC(l, c.kind, c.org)
            return NONE
        if name == 'pop':
            I.touch(st, o, node, 'pop')
            l = list(c.items)
            k = args[0].v if args and isinstance(args[0], K) else -1
            try:
                x = l.pop(k)
            except IndexError:
                raise RaiseSig('IndexError', 'pop', node)
            st.heap[o.h] = ListC(l, c.kind, c.org)
            return x
        if name == 'index':
            for k, x in enumerate(c.items):
                e = self.equal(st, I.simp(st, x), args[0])
                if e is True:
                    return K(k)
                if e is not False:
                    raise Unsup('list.index')
            raise RaiseSig('ValueError', 'not in list', node)
        if name == 'copy':
            return I.newlist(st, c.items, c.kind)
        if name == 'sort':
            I.touch(st, o, node, 'sort')
            if all(isinstance(x, K) for x in c.items) and not kw:
                st.heap[o.h] = ListC([K(v) for v in sorted(x.v for x in c.items)], c.kind, c.org)
                return NONE
            raise Unsup('sort')
        if name == 'reverse':
            I.touch(st, o, node, 'reverse')
            st.heap[o.h] = ListC(c.items[::-1], c.kind, c.org)
            return NONE
        if name == 'remove':
            I.touch(st, o, node, 'remove')
            l = list(c.items)
            for k, x in enumerate(l):
                if self.equal(st, I.simp(st, x), args[0]) is True:
                    del l[k]
                    break
            else:
                raise RaiseSig('ValueError', 'remove', node)
            st.heap[o.h] = ListC(l, c.kind, c.org)
            return NONE
        if name == 'count':
            return self.opaque(st, 'count', [o] + args, kw)
        raise Unsup('list.%s' % name)

    # ------------------------------------------------------------ kernels
    def kernel_writes(self, f):
        """Parameters a compiled routine stores into, and what it returns (syntax)."""
        k = id(f.node)
        if k in self.kw_cache:
            return self.kw_cache[k][0]
        node = f.node
        params = [x.arg for x in node.args.args]
        alias = {p: p for p in params}
        writes = []

        def base(e):
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                b = base(n.value)
                if b in alias and isinstance(n.value, (ast.Name, ast.Subscript)) and n.targets[0].id not in params:
                    alias[n.targets[0].id] = alias[b]
        for n in ast.walk(node):
            tg = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tg += [x for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts)]
            elif isinstance(n, ast.AugAssign):
                tg = [n.target]
            for t in tg:
                if isinstance(t, ast.Subscript):
                    b = base(t)
                    if b in alias and alias[b] not in writes:
                        writes.append(alias[b])
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = self.I.proj.resolve(f.mod.name, n.func.id)
                if r and r[0] == 'def' and isinstance(r[2], ast.FunctionDef) and r[2] is not node:
                    from .project import jit_info
                    if jit_info(self.I.proj, r[1], r[2]) is not None:
                        sub = self.kernel_writes(Fn(r[2], r[1], name=r[2].name))
                        ps = [x.arg for x in r[2].args.args]
                        for p, a in zip(ps, n.args):
                            if p in sub['writes'] and base(a) in alias and alias[base(a)] not in writes:
                                writes.append(alias[base(a)])
        rets = [n for n in ast.walk(node) if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        ret = None
        if rets:
            names = {n.value.id if isinstance(n.value, ast.Name) else None for n in rets}
            if len(names) == 1 and list(names)[0] in params:
                ret = list(names)[0]
            else:
                ret = ('value',)
        r = dict(writes=writes, ret=ret)
        self.kw_cache[k] = (r, node)
        return r

    def interpretable(self, f):
        """Straight-line or single-loop routines are analysed like host code."""
        for n in ast.walk(f.node):
            if isinstance(n, (ast.While, ast.Break, ast.Continue)):
                return False
            if isinstance(n, ast.For):
                if any(isinstance(m, ast.For) and m is not n for m in ast.walk(n)):
                    return False
                if any(isinstance(m, ast.If) and any(isinstance(q, (ast.Subscript,)) for q in ast.walk(m.test)) for m in ast.walk(n)):
                    return False
        return True

    def kernel_result(self, st, f, d, terms, eff):
        return Opq(A(('kern', f.name, '#ret', terms)))


def _u(nin, f, floating=False, dtf=None):
    return (nin, f, floating, dtf)


def _log(b=None):
    def f(L, p):
        c = p.const()
        if p == ONE:
            return ZERO
        r = call('log', p)
        # log of a power of a known base
        a = p.atom()
        if a is not None and a[0] == 'pow' and a[1].const() is not None:
            r = a[2] * call('log', a[1])
        elif len(p.m) == 1 and b is not None:
            (mono, c0), = p.m.items()
            pr = [(x, e) for x, e in mono if x[0] == 'pow' and x[1].const() is not None]
            if len(pr) == len(mono) and c0 > 0:
                r = call('log', num(c0)) if c0 != 1 else ZERO
                for x, e in pr:
                    r = r + x[2].scale(e) * call('log', x[1])
        if b is not None:
            r = T.div(r, call('log', num(b)))
        return r
    return f


def _exp(L, p):
    return ONE if p == ZERO else call('exp', p)


def _conj(L, p):
    if all(L.real_atom(a) for a in p.atoms()):
        return p
    out = ZERO
    for mono, c in p.m.items():
        real, cpl = {}, {}
        for a, e in mono:
            (real if L.real_atom(a) else cpl)[a] = e
        r = Poly({tuple(sorted(real.items(), key=lambda t: repr(t))): c}) if real else num(c)
        if not cpl:
            out = out + r
            continue
        z = Poly({tuple(sorted(cpl.items(), key=lambda t: repr(t))): Fraction(1)})
        out = out + r * (-z if z == A(T.IM) else call('conj', z))
    return out


def _sign(L, p):
    s = L.F.sign(p)
    if s in ('+', '-', '0'):
        return num({'+': 1, '-': -1, '0': 0}[s])
    return call('sign', p)


UFUNCS = {
    'log': _u(1, _log(), True), 'log2': _u(1, _log(2), True), 'log10': _u(1, _log(10), True),
    'exp': _u(1, _exp, True), 'sqrt': _u(1, lambda L, p: T.power(p, HALF), True),
    'square': _u(1, lambda L, p: p * p), 'conj': _u(1, _conj), 'conjugate': _u(1, _conj),
    'sign': _u(1, _sign), 'negative': _u(1, lambda L, p: -p), 'reciprocal': _u(1, lambda L, p: T.div(ONE, p), True),
    'sin': _u(1, lambda L, p: call('sin', p), True), 'cos': _u(1, lambda L, p: call('cos', p), True),
    'tan': _u(1, lambda L, p: call('tan', p), True), 'tanh': _u(1, lambda L, p: call('tanh', p), True),
    'arctan': _u(1, lambda L, p: call('arctan', p), True), 'log1p': _u(1, lambda L, p: call('log', p + ONE), True),
    'power': _u(2, lambda L, a, b: L.pow(a, b)), 'float_power': _u(2, lambda L, a, b: L.pow(a, b), True),
    'pow': _u(2, lambda L, a, b: L.pow(a, b)),
    'multiply': _u(2, lambda L, a, b: a * b), 'add': _u(2, lambda L, a, b: a + b), 'subtract': _u(2, lambda L, a, b: a - b),
    'divide': _u(2, lambda L, a, b: T.div(a, b), True), 'true_divide': _u(2, lambda L, a, b: T.div(a, b), True),
    'floor_divide': _u(2, lambda L, a, b: L.floordiv(a, b)), 'mod': _u(2, lambda L, a, b: L.mod(a, b)),
    'remainder': _u(2, lambda L, a, b: L.mod(a, b)), 'hypot': _u(2, lambda L, a, b: T.power(a * a + b * b, HALF), True),
    'maximum': _u(2, lambda L, a, b: T._lat('max', [a, b], L.F)), 'minimum': _u(2, lambda L, a, b: T._lat('min', [a, b], L.F)),
    'fmax': _u(2, lambda L, a, b: T._lat('max', [a, b], L.F)), 'fmin': _u(2, lambda L, a, b: T._lat('min', [a, b], L.F)),
    'greater': _u(2, lambda L, a, b: T.ind(T.gt(a, b, L.F)), False, 'bool'), 'less': _u(2, lambda L, a, b: T.ind(T.lt(a, b, L.F)), False, 'bool'),
    'greater_equal': _u(2, lambda L, a, b: T.ind(T.ge(a, b, L.F)), False, 'bool'), 'less_equal': _u(2, lambda L, a, b: T.ind(T.le(a, b, L.F)), False, 'bool'),
    'equal': _u(2, lambda L, a, b: T.ind(L.eqc(a, b)), False, 'bool'), 'not_equal': _u(2, lambda L, a, b: T.ind(cnot(L.eqc(a, b))), False, 'bool'),
    'logical_and': _u(2, lambda L, a, b: T.ind(cand(L.pcond(a), L.pcond(b))), False, 'bool'),
    'logical_or': _u(2, lambda L, a, b: T.ind(cor(L.pcond(a), L.pcond(b))), False, 'bool'),
    'logical_not': _u(1, lambda L, a: T.ind(cnot(L.pcond(a))), False, 'bool'),
    'bitwise_or': _u(2, lambda L, a, b: T.ind(cor(L.pcond(a), L.pcond(b))), False, 'bool'),
    'bitwise_and': _u(2, lambda L, a, b: T.ind(cand(L.pcond(a), L.pcond(b))), False, 'bool'),
}


def _mkred(op, canon):
    def f(self, st, a, kw, node, lib):
        return self.red(st, canon, list(a), kw, node)
    return f


for _n, _c in dict(sum='sum', mean='mean', max='max', min='min', amax='max', amin='min', any='any', all='all', argmax='argmax',
                   argmin='argmin', std='std', var='var', prod='prod', median='median', nanmax='max', nanmin='min').items():
    setattr(Lib, 'n_' + _n, _mkred(_n, _c))
