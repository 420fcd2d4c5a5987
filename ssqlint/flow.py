"""Abstract interpreter for the host (non-kernel) Python of the package.

It propagates constants, value numbers (terms.Poly), array shapes, dtypes and alias
origins through the syntax of a function and everything it calls, one option assignment
at a time; undecided branches are both followed and joined with gated values.  Arrays
are element functions: a shape and a term over index atoms ('ix', k).  Nothing of the
analysed package is executed.
"""
import ast
from fractions import Fraction
from . import terms as T
from .terms import Poly, A, ZERO, ONE, num, sym, phi, cand, cor, cnot
from .project import jit_info, strip_doc


class Unsup(Exception):
    pass


class RaiseSig(Exception):
    def __init__(self, exc, msg='', node=None):
        Exception.__init__(self, exc, msg)
        self.exc, self.msg, self.node = exc, msg, node


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class K(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, repr(self.v)))

    def __repr__(self):
        return repr(self.v)


NONE = K(None)


class DT:
    """A dtype object."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'dtype(%s)' % self.name


class Num(V):
    __slots__ = ('p', 'dt')

    def __init__(self, p, dt=None):
        self.p, self.dt = p, dt

    def __eq__(self, o):
        return isinstance(o, Num) and self.p == o.p and self.dt == o.dt

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '%s' % (self.p,)


class B(V):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, B) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return '{%s}' % T.show_cond(self.c)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return repr(self.items)


class Slc(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slc) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.lo, self.hi, self.step)


class Ref(V):
    """Heap object: list, dict, set, instance, environment."""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Ref) and self.h == o.h

    def __hash__(self):
        return hash(('ref', self.h))

    def __repr__(self):
        return '&%s' % (self.h,)


class AV(V):
    """Array: heap cell + optional view (shape, base index maps)."""
    __slots__ = ('h', 'sh', 'maps')

    def __init__(self, h, sh=None, maps=None):
        self.h, self.sh, self.maps = h, sh, maps

    def __eq__(self, o):
        return isinstance(o, AV) and (self.h, self.sh, self.maps) == (o.h, o.sh, o.maps)

    def __hash__(self):
        return hash(('av', self.h, self.sh, self.maps))

    def __repr__(self):
        return 'array#%s%s' % (self.h, '' if self.maps is None else 'v')


class Fn(V):
    __slots__ = ('node', 'mod', 'env', 'selfv', 'name', 'defaults', 'kwd')

    def __init__(self, node, mod, env=None, selfv=None, name=None, defaults=(), kwd=None):
        self.node, self.mod, self.env, self.selfv = node, mod, env, selfv
        self.name, self.defaults, self.kwd = name, tuple(defaults), kwd or {}

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.env == o.env and self.selfv == o.selfv

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'fn %s' % self.name


class Cls(V):
    __slots__ = ('mod', 'node')

    def __init__(self, mod, node):
        self.mod, self.node = mod, node

    def __eq__(self, o):
        return isinstance(o, Cls) and self.node is o.node

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'class %s' % self.node.name


class Mod(V):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and self.m is o.m

    def __hash__(self):
        return hash(id(self.m))


class Ext(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Bound(V):
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, Bound) and (self.obj, self.name) == (o.obj, o.name)

    def __hash__(self):
        return hash((self.obj, self.name))

    def __repr__(self):
        return '%r.%s' % (self.obj, self.name)


class Py(V):
    """A model supplied by a check: callable(interp, st, args, kw, node)."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __eq__(self, o):
        return isinstance(o, Py) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<%s>' % self.name


class Phi(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return '(%r if %s else %r)' % (self.a, T.show_cond(self.c), self.b)


class Opq(V):
    """A value about which only its defining term is known."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Opq) and self.p == o.p

    def __hash__(self):
        return hash(('opq', self.p))

    def __repr__(self):
        return '?%s' % (self.p,)


class UndefT(V):
    __slots__ = ()

    def __repr__(self):
        return 'UNBOUND'


UNDEF = UndefT()


# ------------------------------------------------------------------ heap contents
class ArrC:
    __slots__ = ('sh', 'body', 'dt', 'lib', 'org', 'may', 'lay')

    def __init__(self, sh, body, dt=None, lib='np', org=frozenset(), may=frozenset(), lay=''):
        self.sh, self.body, self.dt, self.lib = tuple(sh), body, dt, lib
        self.org, self.may = org, may
        self.lay = lay                       # nonempty: not laid out row by row

    def with_(self, **k):
        d = dict(sh=self.sh, body=self.body, dt=self.dt, lib=self.lib, org=self.org, may=self.may, lay=self.lay)
        d.update(k)
        return ArrC(**d)


class ListC:
    __slots__ = ('items', 'kind', 'org')

    def __init__(self, items, kind='list', org=frozenset()):
        self.items, self.kind, self.org = tuple(items), kind, org


class DictC:
    __slots__ = ('d', 'org')

    def __init__(self, d, org=frozenset()):
        self.d, self.org = dict(d), org      # python hashable key -> V, insertion ordered


class InstC:
    __slots__ = ('cls', 'attrs', 'sym', 'org')

    def __init__(self, cls, attrs, sym=None, org=frozenset()):
        self.cls, self.attrs, self.sym, self.org = cls, attrs, sym, org


class Heap(dict):
    """Cells of one state; module level objects live in the shared base heap."""
    __slots__ = ('base',)

    def __init__(self, src, base):
        dict.__init__(self, src)
        self.base = base

    def __missing__(self, h):
        return self.base[h]

    def get(self, h, default=None):
        if dict.__contains__(self, h):
            return dict.__getitem__(self, h)
        return self.base.get(h, default)

    def __contains__(self, h):
        return dict.__contains__(self, h) or h in self.base

    def fork(self):
        return Heap(self, self.base)


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=()):
        self.heap, self.pc = heap, pc

    def fork(self, c=True):
        return State(self.heap.fork(), addpc(self.pc, c))

    def take(self, o):
        if self.heap is not o.heap:
            if isinstance(self.heap.base, Heap):
                self.heap = o.heap
            else:                       # the base state is shared: update in place
                self.heap.update(o.heap)
        self.pc = o.pc


def addpc(pc, c):
    if c is True:
        return pc
    cs = c[1:] if isinstance(c, tuple) and c[0] == 'and' else (c,)
    out = list(pc)
    for x in cs:
        if x not in out:
            out.append(x)
    return tuple(out)


def ix(k):
    return A(('ix', k))


def asg_of(pc):
    a = {}
    for c in pc:
        if c is True or c is False:
            continue
        if c[0] == 'not':
            a[c[1]] = False
        else:
            a[c] = True
            if c[0] == 'gt0':
                a[('eq0', c[1])] = False
                a[('eq0', -c[1])] = False
                a[('gt0', -c[1])] = False
            elif c[0] == 'eq0':
                a[('gt0', c[1])] = False
                a[('gt0', -c[1])] = False
    return a


class HostFacts(T.Facts):
    def int_atom(self, a):
        if a[0] in ('ix', 'bv', 'lv', 'lx', 'dimof'):
            return True
        if a[0] == 'red' and a[1] in ('argmax', 'argmin'):
            return True
        return T.Facts.int_atom(self, a)

    def atom_sign(self, a):
        if a[0] in ('ix', 'bv', 'lv', 'lx'):
            return '0+'
        if a[0] == 'dimof':
            return '+'
        if a[0] == 'call' and a[1] in ('floordiv', 'mod', 'ceil') and len(a) > 3 or a[0] == 'call' and a[1] == 'ceil':
            xs = [x for x in a[2:] if isinstance(x, Poly)]
            if all(self.sign(x) in ('+', '0+', '0') for x in xs):
                return '0+'
        return T.Facts.atom_sign(self, a)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return cor(cand(c, a), cand(cnot(c), b))


class Event:
    __slots__ = ('kind', 'data', 'pc', 'node', 'stack', 'mod')

    def __init__(self, kind, data, pc, node, stack, mod):
        self.kind, self.data, self.pc, self.node, self.stack, self.mod = kind, data, pc, node, stack, mod

    def __repr__(self):
        return '%s %s @%s:%s if %s' % (self.kind, self.data, self.stack[-1:] and self.stack[-1],
                                       getattr(self.node, 'lineno', '?'), [T.show_cond(c) for c in self.pc])


class Frame:
    def __init__(self, env, mod, name):
        self.env, self.mod, self.name = env, mod, name
        self.returns = []
        self.loops = []
        self.tries = []
        self.guards = []                # enclosing try/with statements: [kind, node or manager, phase]
        self.on_yield = None


MAXUNROLL = 64


class Interp:
    def __init__(self, proj, env=None, models=None, opaque=(), facts=None, gpu=False, import_env=None, files=None):
        self.proj = proj
        self.envvars = dict(env or {})
        self.import_env = import_env     # environment seen by module-level code (default: the same)
        self.files = dict(files or {})   # path suffix -> text replacing a file of the repository
        self.models = dict(models or {})
        self.opaque = set(opaque)
        self.facts = facts or HostFacts()
        self.nh = 0
        self.events = []
        self.mute = 0
        self.stack = []
        self.frames = []
        self.watch = None               # called at every point where an exception may start
        self.faulting = 0
        self.gcache = {}
        self.notes = []
        self.depth_lv = 0
        self.base = State(Heap({}, {}))
        self.gpu = gpu
        self.steps = 0
        self.maxsteps = 400000
        from . import flow_np
        self.lib = flow_np.Lib(self)
        T._FACTS.append(self.facts)
        self._init_globals()

    # ------------------------------------------------------------ basics
    def new(self, st, content):
        self.nh += 1
        st.heap[self.nh] = content
        return self.nh

    def newarr(self, st, sh, body, dt=None, lib='np', org=frozenset(), may=frozenset()):
        return AV(self.new(st, ArrC(sh, body, dt, lib, org, may)))

    def newlist(self, st, items, kind='list'):
        return Ref(self.new(st, ListC(items, kind)))

    def newdict(self, st, d):
        return Ref(self.new(st, DictC(d)))

    def event(self, kind, data, st, node=None):
        if self.mute:
            return
        self.events.append(Event(kind, data, st.pc, node, tuple(self.stack),
                                 self.frames[-1].mod.rel if self.frames else ''))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # array access
    def ashape(self, st, v):
        return v.sh if v.maps is not None else st.heap[v.h].sh

    def abody(self, st, v):
        c = st.heap[v.h]
        if v.maps is None:
            return c.body
        return self.reindex(c.body, v.maps)

    def reindex(self, body, maps):
        def f(a):
            if a[0] == 'ix':
                return maps[a[1]]
        return T.subst(body, f)

    def adt(self, st, v):
        return st.heap[v.h].dt

    def alib(self, st, v):
        return st.heap[v.h].lib

    def origins(self, st, h, seen=None):
        seen = set() if seen is None else seen
        if h in seen or h not in st.heap:
            return frozenset()
        seen.add(h)
        c = st.heap[h]
        o = getattr(c, 'org', frozenset())
        for m in getattr(c, 'may', ()):
            o = o | self.origins(st, m, seen)
        return o

    # ------------------------------------------------------------ conditions
    def decide(self, st, c):
        if c is True or c is False:
            return c
        return T.cond_eval(c, asg_of(st.pc)) if st.pc else c

    def simp(self, st, v):
        while isinstance(v, Phi):
            c = self.decide(st, v.c)
            if c is True:
                v = v.a
            elif c is False:
                v = v.b
            else:
                break
        return v

    def split(self, st, v, k):
        """Run k(state, alternative) on both sides of a gated value, join."""
        v = self.simp(st, v)
        if not isinstance(v, Phi):
            return k(st, v)
        c = v.c
        s1, s2 = st.fork(c), st.fork(cnot(c))
        r1 = r2 = None
        e1 = e2 = None
        try:
            r1 = self.split(s1, v.a, k)
        except RaiseSig as e:
            e1 = e
        try:
            r2 = self.split(s2, v.b, k)
        except RaiseSig as e:
            e2 = e
        if e1 and e2:
            raise e1
        if e1:
            self.event('raise', (e1.exc, e1.msg), s1, e1.node)
            st.take(s2)
            return r2
        if e2:
            self.event('raise', (e2.exc, e2.msg), s2, e2.node)
            st.take(s1)
            return r1
        r1h, r2h = r1, r2
        m = self.merge(s1, s2)
        st.take(m)
        return self.merge_val(st, c, r1h, r2h)

    def splitn(self, st, vs, k):
        """split over several values."""
        vs = list(vs)

        def go(s, i, done):
            if i == len(vs):
                return k(s, *done)
            return self.split(s, vs[i], lambda s2, x: go(s2, i + 1, done + [x]))
        return go(st, 0, [])

    # ------------------------------------------------------------ merge
    def merge(self, s1, s2):
        """Join two states with a common prefix of path conditions."""
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] == s2.pc[n]:
            n += 1
        a, b = s1.pc[n:], s2.pc[n:]
        c = cand(*a)
        nc = cand(*b)
        pc = s1.pc[:n]
        if c is True or nc is True:
            pass
        elif cnot(c) != nc:
            d = cor(c, nc)
            pc = addpc(pc, d)
        if len(a) and len(b) and c is not True:
            # the first literal usually separates the two sides
            for x in a:
                if cnot(x) in b:
                    c = x
                    break
        out = State(s1.heap.fork(), pc)
        for h, y in s2.heap.items():
            if h not in s1.heap:
                out.heap[h] = y
            else:
                x = s1.heap[h]
                if x is not y:
                    out.heap[h] = None      # placeholder, merged below
        todo = [h for h in s2.heap if h in s1.heap and s1.heap[h] is not s2.heap[h]]
        todo += [h for h in s1.heap if not dict.__contains__(s2.heap, h) and h in s2.heap
                 and s1.heap[h] is not s2.heap[h]]
        for h in todo:
            out.heap[h] = s1.heap[h]
        for h in todo:
            out.heap[h] = self.merge_content(out, c, s1.heap[h], s2.heap[h], s1, s2)
        return out

    def merge_content(self, out, c, x, y, s1, s2):
        if isinstance(x, dict):
            d = {}
            for k in list(x) + [k for k in y if k not in x]:
                a, b = x.get(k, UNDEF), y.get(k, UNDEF)
                d[k] = a if a is b or k.startswith('#') else self.merge_val(out, c, a, b)
            return d
        if type(x) is not type(y):
            raise Unsup('merge of different objects')
        if isinstance(x, ArrC):
            if x.sh == y.sh:
                return ArrC(x.sh, phi(c, x.body, y.body, self.facts), x.dt if x.dt == y.dt else None,
                            x.lib if x.lib == y.lib else '?', x.org | y.org, x.may | y.may)
            raise Unsup('merge of array cells of different shape')
        if isinstance(x, ListC):
            if x.items == y.items:
                return x
            if len(x.items) == len(y.items):
                return ListC([self.merge_val(out, c, a, b) for a, b in zip(x.items, y.items)], x.kind, x.org | y.org)
            raise Unsup('merge of lists of different length')
        if isinstance(x, DictC):
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                a, b = x.d.get(k, UNDEF), y.d.get(k, UNDEF)
                d[k] = self.merge_val(out, c, a, b)
            return DictC(d, x.org | y.org)
        if isinstance(x, InstC):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                a, b = x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF)
                if x.sym is not None:
                    if a is UNDEF:
                        a = self.sym_attr(out, x, k)
                    if b is UNDEF:
                        b = self.sym_attr(out, y, k)
                d[k] = self.merge_val(out, c, a, b)
            return InstC(x.cls, d, x.sym, x.org)
        raise Unsup('merge')

    def merge_val(self, st, c, a, b):
        if a is b or a == b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(st, c, x, y) for x, y in zip(a.items, b.items)])
        an, bn = self.isnum(a), self.isnum(b)
        if an and bn:
            return Num(phi(c, self.P(a), self.P(b), self.facts), self.promote_py(a, b))
        ab, bb = self.isbool(a), self.isbool(b)
        if ab and bb:
            return B(ite(c, self.cond_of(a), self.cond_of(b)))
        if isinstance(a, AV) and isinstance(b, AV) and a.h in st.heap and b.h in st.heap:
            s1, s2 = self.ashape(st, a), self.ashape(st, b)
            if s1 == s2:
                ca, cb = st.heap[a.h], st.heap[b.h]
                may = frozenset()
                for v, cc in ((a, ca), (b, cb)):
                    may = may | frozenset([v.h])
                return self.newarr(st, s1, phi(c, self.abody(st, a), self.abody(st, b), self.facts),
                                   ca.dt if ca.dt == cb.dt else None,
                                   ca.lib if ca.lib == cb.lib else '?', may=may)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.h in st.heap and b.h in st.heap:
            x, y = st.heap[a.h], st.heap[b.h]
            if isinstance(x, ListC) and isinstance(y, ListC) and len(x.items) == len(y.items) and x.kind == y.kind and not (x.org or y.org):
                return self.newlist(st, [self.merge_val(st, c, p, q) for p, q in zip(x.items, y.items)], x.kind)
            if isinstance(x, DictC) and isinstance(y, DictC) and list(x.d) == list(y.d) and not (x.org or y.org):
                return self.newdict(st, {k: self.merge_val(st, c, x.d[k], y.d[k]) for k in x.d})
        if c[0] == 'not':
            return Phi(c[1], b, a)
        return Phi(c, a, b)

    # ------------------------------------------------------------ numeric views
    def isbool(self, v):
        return isinstance(v, B) or (isinstance(v, K) and isinstance(v.v, bool))

    def isnum(self, v):
        return isinstance(v, Num) or (isinstance(v, K) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool))

    def cond_of(self, v):
        return v.c if isinstance(v, B) else bool(v.v)

    def P(self, v):
        if isinstance(v, Num):
            return v.p
        if isinstance(v, Opq):
            return v.p
        if isinstance(v, B):
            return T.ind(v.c)
        if isinstance(v, K) and isinstance(v.v, (bool, int, float, complex)):
            return num(v.v)
        raise Unsup('numeric value of %r' % (v,))

    def dt_of(self, v):
        if isinstance(v, Num):
            return v.dt
        if isinstance(v, B):
            return 'bool'
        if isinstance(v, K):
            return {bool: 'pybool', int: 'pyint', float: 'pyfloat', complex: 'pycomplex'}.get(type(v.v))
        return None

    def promote_py(self, a, b):
        x, y = self.dt_of(a), self.dt_of(b)
        return x if x == y else None

    def mknum(self, p, dt=None):
        c = p.const() if isinstance(p, Poly) else None
        if c is not None and dt in (None, 'pyint', 'pyfloat'):
            if c.denominator == 1 and dt == 'pyint':
                return K(int(c))
            if dt == 'pyfloat':
                f = float(c)
                if Fraction(repr(f)) == c:
                    return K(f)
            if dt is None and c.denominator == 1:
                return Num(p, dt)
        return Num(p, dt)

    def as_term(self, st, v, seen=()):
        """A hashable canonical term of any value (used as an uninterpreted argument)."""
        v = self.simp(st, v)
        if isinstance(v, Num):
            return v.p
        if isinstance(v, K):
            if isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool):
                return num(v.v)
            return ('k', repr(v.v))
        if isinstance(v, B):
            return ('cond', v.c)
        if isinstance(v, Opq):
            return v.p
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.as_term(st, x, seen) for x in v.items)
        if isinstance(v, AV):
            return self.lam(self.ashape(st, v), self.abody(st, v))
        if isinstance(v, Phi):
            return ('if', v.c, self.as_term(st, v.a, seen), self.as_term(st, v.b, seen))
        if isinstance(v, Slc):
            return ('slice', self.as_term(st, v.lo), self.as_term(st, v.hi), self.as_term(st, v.step))
        if isinstance(v, Ref):
            if v.h in seen:
                return ('rec',)
            c = st.heap.get(v.h)
            seen = seen + (v.h,)
            if isinstance(c, ListC):
                return (c.kind,) + tuple(self.as_term(st, x, seen) for x in c.items)
            if isinstance(c, DictC):
                return ('dict',) + tuple((repr(k), self.as_term(st, x, seen)) for k, x in c.d.items())
            if isinstance(c, InstC):
                if c.sym is not None:
                    return ('obj', c.sym)
                if len(seen) > 3:
                    return ('inst', c.cls.node.name)
                return ('inst', c.cls.node.name) + tuple((k, self.as_term(st, x, seen)) for k, x in sorted(c.attrs.items()))
            return ('ref', v.h)
        if isinstance(v, Fn):
            caps = ()
            if v.env is not None and isinstance(v.node, (ast.Lambda, ast.FunctionDef)) and len(seen) < 3:
                caps = self.captures(st, v, seen)
            return ('fn', v.name or 'lambda', getattr(v.mod, 'name', '')) + caps
        if isinstance(v, (Ext,)):
            return ('ext', v.name)
        if isinstance(v, Cls):
            return ('cls', v.node.name)
        if isinstance(v, Bound):
            return ('bound', self.as_term(st, v.obj, seen), v.name)
        if isinstance(v, Py):
            return ('py', v.name)
        if isinstance(v, Mod):
            return ('mod', v.m.name)
        if type(v).__name__ in ('Ptr', 'RView'):
            return ('ptr', self.as_term(st, v.av, seen))
        if type(v).__name__ == 'GObj':
            return ('gobj', v.kind, v.name or '')
        return ('undef',)

    def lam(self, sh, body):
        """An array as a closed function of its own indices."""
        return ('lam', sh, T.subst(body, lambda a: A(('lx', a[1])) if a[0] == 'ix' and len(a) == 2 else None))

    def captures(self, st, f, seen):
        names = sorted({n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)})
        out = []
        for n in names:
            e = f.env
            while e is not None and e in st.heap:
                d = st.heap[e]
                if n in d:
                    x = d[n]
                    if not (isinstance(x, Fn) and x.node is f.node):
                        out.append((n, self.as_term(st, x, seen + (('e', e),))))
                    break
                e = d.get('#up')
        return tuple(out)

    # ------------------------------------------------------------ globals
    def _init_globals(self):
        m0 = self.mute
        self.mute += 1
        for name in sorted(self.proj.modules):
            m = self.proj.modules[name]
            for s in m.tree.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                try:
                                    self.glob(self.base, m, n.id)
                                except (Unsup, RaiseSig, RecursionError):
                                    pass
        self.mute = m0

    def glob(self, st, mod, name):
        key = (mod.name, name)
        if key in self.gcache:
            v = self.gcache[key]
            if v is None:
                raise Unsup('global %s.%s' % key)
            return v
        if key in self.models and isinstance(self.models[key], V):
            self.gcache[key] = self.models[key]
            return self.gcache[key]
        r = self.proj.resolve(mod.name, name)
        if r is None:
            return None
        self.gcache[key] = None
        e0 = self.envvars
        if self.import_env is not None:
            self.envvars = dict(self.import_env)
        try:
            v = self._glob(st, mod, name, r)
        except RaiseSig:
            del self.gcache[key]
            raise
        finally:
            self.envvars = e0
        self.gcache[key] = v
        return v

    def _glob(self, st, mod, name, r):
        if r[0] == 'missing':
            self.event('absent', ('%s.%s is not bound' % (mod.name, name), self.caught('NameError')), st, None)
            raise RaiseSig('NameError', name, None)
        if r[0] == 'def':
            m, node = r[1], r[2]
            if isinstance(node, ast.ClassDef):
                return Cls(m, node)
            return self.mkfn(self.base, node, m, None)
        if r[0] == 'mod':
            return Mod(r[1])
        if r[0] == 'ext':
            return Ext(self.lib.canon(r[1]))
        if r[0] == 'assign':
            m, node = r[1], r[2]
            if m is not mod and not name.startswith('__'):
                pass
            orig = name
            # follow renamed imports: find the name as bound in m
            val = node.value
            fr = Frame(None, m, '<module %s>' % m.name)
            self.frames.append(fr)
            self.faulting += 1
            eid = self.new(self.base, {'#up': None, '#mod': m})
            fr.env = eid
            try:
                ck = ('@', id(node))
                if ck in self.gcache:    # one value per definition, whoever imports it
                    v = self.gcache[ck]
                else:
                    v = self.gcache[ck] = self.eval(self.base, val, fr)
                tg = node.targets[0] if isinstance(node, ast.Assign) else node.target
                if isinstance(tg, ast.Name):
                    return v
                names = {}

                def bind(t, x):
                    if isinstance(t, ast.Name):
                        names[t.id] = x
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        items = self.iter_items(self.base, x)
                        for a, b in zip(t.elts, items):
                            bind(a, b)
                    else:
                        raise Unsup('module level target')
                bind(tg, v)
                return names[orig]
            finally:
                self.faulting -= 1
                self.frames.pop()
        raise Unsup('global %s' % name)

    def mkfn(self, st, node, mod, env, selfv=None, qual=None):
        a = node.args
        if isinstance(node, ast.Lambda):
            nm = (qual or '') + '<lambda>'
        else:
            nm = (qual or '') + node.name
        fr = self.frames[-1] if self.frames and env is not None else None
        if fr is None:
            eid = self.new(self.base, {'#up': None, '#mod': mod})
            fr = Frame(eid, mod, '<module>')
            if st is not self.base:
                st.heap[eid] = self.base.heap[eid]
        defs = []
        for d in a.defaults:
            defs.append(self.eval(st, d, fr))
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = self.eval(st, d, fr)
        return Fn(node, mod, env, selfv, nm, defs, kwd)

    # ------------------------------------------------------------ variables
    def lookup(self, st, name, fr, node=None):
        e = fr.env
        while e is not None:
            d = st.heap[e]
            if name in d:
                v = self.simp(st, d[name])
                if v is UNDEF:
                    self.event('unbound', name, st, node)
                    raise RaiseSig('UnboundLocalError', name, node)
                if isinstance(v, Phi) and self.has_undef(v):
                    def k(s, x):
                        if x is UNDEF:
                            self.event('unbound', name, s, node)
                            raise RaiseSig('UnboundLocalError', name, node)
                        return x
                    v = self.split(st, v, k)
                return v
            if e == fr.env and name in self.locals_of(fr):
                self.event('unbound', name, st, node)
                raise RaiseSig('UnboundLocalError', name, node)
            e = d.get('#up')
        v = self.glob(st, fr.mod, name)
        if v is not None:
            return v
        if name == '__file__':
            return K(fr.mod.rel)
        if name == '__name__':
            return K(fr.mod.name)
        if name in self.lib.builtins:
            return Ext('builtins.' + name)
        raise Unsup('name %s' % name)

    def has_undef(self, v):
        if v is UNDEF:
            return True
        return isinstance(v, Phi) and (self.has_undef(v.a) or self.has_undef(v.b))

    _loc = {}

    def locals_of(self, fr):
        node = getattr(fr, 'node', None)
        if node is None or isinstance(node, ast.Lambda):
            return ()
        k = id(node)
        if k not in self._loc:
            out = set()

            def rec(b):
                for s in b:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        out.add(s.name)
                        continue
                    for n in self.own(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
                        elif isinstance(n, (ast.Import, ast.ImportFrom)):
                            for al in n.names:
                                out.add((al.asname or al.name).split('.')[0])
                        elif isinstance(n, ast.FunctionDef):
                            out.add(n.name)
            rec(node.body)
            self._loc[k] = (out, node)
        return self._loc[k][0]

    def own(self, s):
        """Nodes of a statement excluding nested function/lambda/comprehension scopes."""
        yield s
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)):
            return
        for c in ast.iter_child_nodes(s):
            yield from self.own(c)

    def setvar(self, st, fr, name, v):
        d = dict(st.heap[fr.env])
        d[name] = v
        st.heap[fr.env] = d

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for s in body:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsup('step limit')
            st = self.stmt(s, st, fr)
            if st is None:
                return None
        return st

    def stmt(self, s, st, fr):
        try:
            return self._stmt(s, st, fr)
        except RaiseSig as e:
            if e.node is None:
                e.node = s
            self.event('raise', (e.exc, e.msg), st, e.node)
            self.may_raise(st, e.node, 'raise')
            if fr.tries:
                fr.tries[-1].append(st)
            return None

    def _stmt(self, s, st, fr):
        t = type(s)
        if t is ast.Expr:
            self.eval(st, s.value, fr)
            return st
        if t is ast.Assign:
            v = self.eval(st, s.value, fr)
            for tg in s.targets:
                self.assign(st, tg, v, fr)
            return st
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(st, s.target, self.eval(st, s.value, fr), fr)
            return st
        if t is ast.AugAssign:
            self.aug(st, s, fr)
            return st
        if t is ast.If:
            c = self.truth(st, self.eval(st, s.test, fr))
            c = self.decide(st, c)
            if c is True:
                return self.block(s.body, st, fr)
            if c is False:
                return self.block(s.orelse, st, fr)
            s1, s2 = st.fork(c), st.fork(cnot(c))
            s1 = self.block(s.body, s1, fr)
            s2 = self.block(s.orelse, s2, fr)
            return self.join(s1, s2)
        if t is ast.Return:
            v = self.eval(st, s.value, fr) if s.value is not None else NONE
            fr.returns.append((st, v))
            return None
        if t is ast.Raise:
            exc, msg = 'Exception', ''
            if s.exc is not None:
                e = s.exc
                if isinstance(e, ast.Call):
                    f = e.func
                    try:
                        fv = self.eval(st, f, fr)
                        exc = fv.name.split('.')[-1] if isinstance(fv, Ext) else repr(fv)
                    except (Unsup, RaiseSig):
                        exc = ast.unparse(f)
                    if e.args:
                        msg = ast.unparse(e.args[0])
                        try:
                            mv = self.eval(st, e.args[0], fr)
                            if isinstance(mv, K):
                                msg = str(mv.v)
                        except (Unsup, RaiseSig):
                            pass
                else:
                    exc = ast.unparse(e)
            self.event('raise', (exc, msg), st, s)
            self.may_raise(st, s, 'raise')
            if fr.tries:
                fr.tries[-1].append(st)
            return None
        if t is ast.Assert:
            c = self.decide(st, self.truth(st, self.eval(st, s.test, fr)))
            if c is True:
                return st
            if c is not False:
                s1 = st.fork(cnot(c))
                self.event('raise', ('AssertionError', ast.unparse(s.test)), s1, s)
                st.pc = addpc(st.pc, c)
                return st
            self.event('raise', ('AssertionError', ast.unparse(s.test)), st, s)
            return None
        if t is ast.Pass:
            return st
        if t is ast.FunctionDef:
            f = self.mkfn(st, s, fr.mod, fr.env, qual=fr.name + '.')
            self.setvar(st, fr, s.name, f)
            return st
        if t is ast.For:
            return self.for_(s, st, fr)
        if t is ast.While:
            return self.while_(s, st, fr)
        if t is ast.Break:
            fr.loops[-1][0].append(st)
            return None
        if t is ast.Continue:
            fr.loops[-1][1].append(st)
            return None
        if t is ast.Import:
            for a in s.names:
                nm = a.asname or a.name.split('.')[0]
                full = a.name if a.asname else a.name.split('.')[0]
                self.event('import', full, st, s)
                if a.name.split('.')[0] in self.proj.absent:
                    self.event('absent', ('import ' + a.name, self.caught('ImportError', 'ModuleNotFoundError')), st, s)
                    raise RaiseSig('ImportError', a.name, s)
                v = Mod(self.proj.modules[full]) if full in self.proj.modules else Ext(self.lib.canon(full))
                self.setvar(st, fr, nm, v)
            return st
        if t is ast.ImportFrom:
            base = fr.mod._abs(s.module, s.level)
            for a in s.names:
                nm = a.asname or a.name
                self.event('import', '%s.%s' % (base, a.name), st, s)
                if base.split('.')[0] in self.proj.absent:
                    self.event('absent', ('from %s import %s' % (base, a.name), self.caught('ImportError', 'ModuleNotFoundError')), st, s)
                    raise RaiseSig('ImportError', a.name, s)
                if base in self.proj.modules:
                    v = self.glob(st, self.proj.modules[base], a.name)
                    if v is None:
                        sub = base + '.' + a.name
                        if sub not in self.proj.modules:
                            raise RaiseSig('ImportError', a.name, s)
                        v = Mod(self.proj.modules[sub])
                else:
                    v = Ext(self.lib.canon(base + '.' + a.name))
                self.setvar(st, fr, nm, v)
            return st
        if t is ast.Try:
            return self.try_(s, st, fr)
        if t is ast.With:
            if len(s.items) == 1:
                v = self.eval(st, s.items[0].context_expr, fr)
                if isinstance(v, Py) and v.name == '#ctxgen':
                    return self.with_gen(s, v, st, fr)
            for i in s.items:
                v = self.eval(st, i.context_expr, fr)
                r = v
                if isinstance(v, Ref) and isinstance(st.heap.get(v.h), InstC):
                    r = self.call_method(st, v, '__enter__', [], {}, s)
                if i.optional_vars is not None:
                    self.assign(st, i.optional_vars, r, fr)
                i_v = v
            nret = len(fr.returns)
            g = ['exit', i_v, 'body']
            if isinstance(i_v, Ref) and isinstance(st.heap.get(i_v.h), InstC):
                fr.guards.append(g)
            try:
                st2 = self.block(s.body, st, fr)
            finally:
                if g in fr.guards:
                    fr.guards.remove(g)
            if isinstance(i_v, Ref) and any(isinstance(x.heap.get(i_v.h), InstC) for x in ([st2] if st2 else []) + [r_[0] for r_ in fr.returns[nret:]]):
                for x in ([st2] if st2 else []) + [r_[0] for r_ in fr.returns[nret:]]:
                    self.call_method(x, i_v, '__exit__', [NONE, NONE, NONE], {}, s)
            return st2
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    self.setvar(st, fr, tg.id, UNDEF)
                elif isinstance(tg, ast.Subscript):
                    o = self.eval(st, tg.value, fr)
                    k = self.eval(st, tg.slice, fr)
                    self.lib.method(st, o, 'pop', [k], {}, s)
                else:
                    raise Unsup('del')
            return st
        if t in (ast.Global, ast.Nonlocal):
            return st
        raise Unsup('statement %s' % t.__name__)

    def with_gen(self, s, v, st, fr):
        """with <generator context manager>: the body runs where the generator yields"""
        f, d = v.fn
        pend, ran = [], []

        def on_yield(st2, val):
            if ran:
                raise Unsup('context manager yields twice')
            ran.append(1)
            if s.items[0].optional_vars is not None:
                self.assign(st2, s.items[0].optional_vars, val, fr)
            nret = len(fr.returns)
            end = self.block(s.body, st2, fr)
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            if end is not None and not rets:
                st2.take(end)
            elif end is None and len(rets) == 1:
                st2.take(rets[0][0])
                pend.append(rets[0][1])
            elif end is None and not rets:
                raise RaiseSig('#raised', 'with body', s)
            else:
                raise Unsup('with body both returns and continues')
            return NONE
        env = dict(d)
        env['#up'] = f.env
        env['#mod'] = f.mod
        g = Frame(self.new(st, env), f.mod, f.name)
        g.node = f.node
        g.on_yield = on_yield
        self.frames.append(g)
        self.stack.append(f.mod.name + ':' + f.name)
        try:
            end = self.block(strip_doc(f.node), st, g)
            ends = [x for x in [end] + [r for r, _ in g.returns] if x is not None]
            if not ends:
                raise RaiseSig('#raised', f.name, s)
            out = self.joinall(ends)
        finally:
            self.frames.pop()
            self.stack.pop()
        if not ran:
            raise Unsup('context manager does not yield')
        if pend:
            fr.returns.append((out, pend[0]))
            return None
        return out

    def join(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        return self.merge(s1, s2)

    def joinall(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = sts[0]
        for s in sts[1:]:
            out = self.merge(out, s)
        return out

    def try_(self, s, st, fr):
        g = ['try', s, 'body']
        fr.guards.append(g)
        try:
            return self.try2(s, st, fr, g)
        finally:
            fr.guards.remove(g)

    def exc_exit(self, st):
        """The state in which an exception starting in `st` leaves the outermost call, or None if a handler stops it."""
        s = st.fork()
        self.faulting += 1
        ne = len(self.events)
        try:
            for fr in reversed(self.frames):
                keep = fr.returns, fr.tries, fr.loops
                fr.returns, fr.tries, fr.loops = [], [[]], []
                try:
                    for kind, node, phase in reversed(fr.guards):
                        if kind == 'exit':
                            self.call_method(s, node, '__exit__', [Opq(sym('#exc'))] * 3, {}, None)
                            continue
                        if phase == 'body':
                            h = next((h for h in node.handlers if h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException')), None)
                            if h is not None:
                                if h.name:
                                    self.setvar(s, fr, h.name, Opq(sym('#exc')))
                                r = self.block(h.body, s, fr)
                                if r is not None or fr.returns:
                                    return None
                        if phase != 'final' and node.finalbody:
                            r = self.block(node.finalbody, s, fr)
                            if r is not None:
                                s = r
                            elif fr.returns:
                                return None
                finally:
                    fr.returns, fr.tries, fr.loops = keep
            return s
        finally:
            self.faulting -= 1
            del self.events[ne:]

    def caught(self, *exc):
        """Does an active try statement handle an exception of this name?"""
        for fr in self.frames:
            for kind, node, phase in fr.guards:
                if kind == 'try' and phase == 'body':
                    for h in node.handlers:
                        if h.type is None or any(n in ast.unparse(h.type).replace('(', ' ').replace(')', ' ').replace(',', ' ').split()
                                                 for n in ('Exception', 'BaseException') + exc):
                            return True
        return False

    def may_raise(self, st, node, kind):
        if self.watch is not None and not self.faulting:
            self.watch(st, node, kind)

    def try2(self, s, st, fr, g):
        fr.tries.append([])
        nret = len(fr.returns)
        entry = st.fork()
        unsup = None
        try:
            out = self.block(s.body, st, fr)
        finally:
            raised = fr.tries.pop()
        g[2] = 'handler'
        if out is not None and s.orelse:
            out = self.block(s.orelse, out, fr)
        outs = [out]
        if s.handlers and raised:
            for r in raised:
                h = s.handlers[-1]
                for hh in s.handlers:
                    h = hh
                    break
                r2 = r
                if h.name:
                    self.setvar(r2, fr, h.name, Opq(sym('#exc')))
                outs.append(self.block(h.body, r2, fr))
        elif raised and fr.tries:
            fr.tries[-1].extend(raised)
        out = self.joinall(outs)
        g[2] = 'final'
        if s.finalbody:
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            if out is not None:
                out = self.block(s.finalbody, out, fr)
            for r, v in rets:
                r2 = self.block(s.finalbody, r, fr)
                if r2 is not None:
                    fr.returns.append((r2, v))
            if raised and not s.handlers:
                for r in raised:
                    self.event('exc-exit', 'finally', r, s)
                    self.block(s.finalbody, r, fr)
        return out

    def assign(self, st, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.setvar(st, fr, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]

            def k(s, x):
                items = self.iter_items(s, x, n if not star else None, need=n)
                if star:
                    i = star[0]
                    if len(items) < n - 1:
                        raise RaiseSig('ValueError', 'not enough values to unpack')
                    m = len(items) - (n - 1)
                    items = list(items[:i]) + [self.newlist(s, items[i:i + m])] + list(items[i + m:])
                elif len(items) != n:
                    raise RaiseSig('ValueError', 'cannot unpack %d values into %d names' % (len(items), n))
                return Tup(items)
            r = self.split(st, v, k)
            if isinstance(r, Phi):
                raise Unsup('gated unpack')
            for e, x in zip(tg.elts, r.items):
                self.assign(st, e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(st, tg.value, fr)
            self.split(st, o, lambda s, x: self.setattr(s, x, tg.attr, v, tg) or NONE)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(st, tg.value, fr)
            i = self.eval(st, tg.slice, fr)
            self.splitn(st, [o, i], lambda s, x, j: self.store(s, x, j, v, tg) or NONE)
        else:
            raise Unsup('target %s' % type(tg).__name__)

    def aug(self, st, s, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(st, tg.id, fr, tg)
            v = self.eval(st, s.value, fr)
            r = self.splitn(st, [cur, v], lambda s2, a, b: self.augval(s2, a, s.op, b, s))
            self.setvar(st, fr, tg.id, r)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(st, tg.value, fr)
            i = self.eval(st, tg.slice, fr)

            def k(s2, x, j):
                cur = self.subscript(s2, x, j, tg)
                v = self.eval(s2, s.value, fr)
                if isinstance(cur, AV) and isinstance(x, AV) and cur.h == x.h:
                    self.augval(s2, cur, s.op, v, s)
                    return NONE
                r = self.splitn(s2, [cur, v], lambda s3, a, b: self.lib.binop(s3, s.op, a, b, s))
                self.store(s2, x, j, r, tg)
                return NONE
            self.splitn(st, [o, i], k)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(st, tg.value, fr)
            cur = self.getattr(st, o, tg.attr, tg)
            v = self.eval(st, s.value, fr)
            r = self.splitn(st, [cur, v], lambda s2, a, b: self.augval(s2, a, s.op, b, s))
            self.setattr(st, o, tg.attr, r, tg)
        else:
            raise Unsup('augmented target')

    def augval(self, st, a, op, b, node):
        if isinstance(a, AV):
            r = self.lib.binop(st, op, a, b, node)
            self.write(st, a, r, node, 'augmented assignment')
            return a
        if isinstance(a, Ref) and isinstance(st.heap.get(a.h), ListC) and isinstance(op, ast.Add):
            c = st.heap[a.h]
            if c.kind == 'list':
                self.touch(st, a, node, '+=')
                st.heap[a.h] = ListC(c.items + tuple(self.iter_items(st, b)), c.kind, c.org)
                return a
        if isinstance(a, Opq):
            self.event('opaque-aug', a.p, st, node)
        return self.lib.binop(st, op, a, b, node)

    def touch(self, st, v, node, how):
        """Report an in-place change of a heap object."""
        o = self.origins(st, v.h)
        self.event('write', (how, o, v), st, node)

    def write(self, st, av, val, node, how):
        """Write value `val` (array/scalar) over the whole view av."""
        self.touch(st, av, node, how)
        c = st.heap[av.h]
        sh = self.ashape(st, av)
        vb = self.lib.bcast_body(st, val, sh)
        if av.maps is None:
            st.heap[av.h] = c.with_(body=vb)
            return
        cond = True
        inv = {}
        for k, m in enumerate(av.maps):
            ixs = sorted({a for a in m.atoms() if a[0] == 'ix'})
            if not ixs:
                cond = cand(cond, T.eq(ix(k), m, self.facts))
                continue
            if len(ixs) > 1:
                raise Unsup('write through diagonal view')
            j = ixs[0][1]
            off = self.reindex(m, {**{q: ix(q) for q in range(8)}, j: ZERO})
            sgn = (m - off)
            if sgn == ix(j):
                inv[j] = ix(k) - off
            elif sgn == -ix(j):
                inv[j] = off - ix(k)
            else:
                raise Unsup('write through strided view')
            full = off == ZERO and sh[j] == c.sh[k]
            rev = sgn != ix(j) and off == c.sh[k] - ONE and sh[j] == c.sh[k]
            if not (full or rev):
                lo = T.ge(inv[j], ZERO, self.facts)
                hi = T.lt(inv[j], sh[j], self.facts)
                cond = cand(cond, lo, hi)
        for j in range(len(sh)):
            inv.setdefault(j, ZERO)
        vb = self.reindex(vb, inv)
        cond = self.pinch(cond)
        st.heap[av.h] = c.with_(body=phi(cond, vb, c.body, self.facts))

    def pinch(self, c):
        """Integer p > 0 and 2 - p > 0 is p == 1."""
        if not (isinstance(c, tuple) and c[0] == 'and'):
            return c
        lits = list(c[1:])
        for a in lits:
            if a[0] != 'gt0' or not self.facts.is_int(a[1]):
                continue
            for b in lits:
                if b is not a and b[0] == 'gt0':
                    s = (a[1] + b[1]).const()
                    if s is not None and s == 2:
                        rest = [x for x in lits if x is not a and x is not b]
                        return self.pinch(cand(T.eq(a[1], ONE, self.facts), *rest))
        return c

    def store(self, st, o, i, v, node):
        if isinstance(o, AV):
            i = self.simp(st, i)
            mask = self.lib.mask_of(st, o, i)
            if mask is not None:
                self.touch(st, o, node, 'masked store')
                c = st.heap[o.h]
                if o.maps is not None:
                    raise Unsup('masked store through view')
                mb = self.lib.bcast_body(st, mask, c.sh)
                if isinstance(v, AV):
                    vb = A(('call', 'masked', self.as_term(st, v)))
                    if len(self.ashape(st, v)) == 0:
                        vb = self.abody(st, v)
                else:
                    vb = self.P(v)
                st.heap[o.h] = c.with_(body=phi(self.lib.pcond(mb), vb, c.body, self.facts))
                return
            sub = self.lib.view(st, o, i, node)
            if sub is None or not isinstance(sub, AV) or sub.h != o.h:
                # advanced index: opaque content
                self.touch(st, o, node, 'indexed store')
                c = st.heap[o.h]
                st.heap[o.h] = c.with_(body=A(('call', 'scatter', c.body, self.as_term(st, i), self.as_term(st, v)) + tuple(ix(k) for k in range(len(c.sh)))))
                return
            v = self.lib.toarr(st, v)
            self.write(st, sub, v, node, 'indexed store')
            return
        if isinstance(o, Ref):
            c = st.heap[o.h]
            if isinstance(c, ListC):
                if isinstance(i, K) and isinstance(i.v, int):
                    self.touch(st, o, node, 'item store')
                    items = list(c.items)
                    if not -len(items) <= i.v < len(items):
                        raise RaiseSig('IndexError', '', node)
                    items[i.v] = v
                    st.heap[o.h] = ListC(items, c.kind, c.org)
                    return
                raise Unsup('list store at symbolic index')
            if isinstance(c, DictC):
                self.touch(st, o, node, 'item store')
                d = dict(c.d)
                d[self.key(st, i)] = v
                st.heap[o.h] = DictC(d, c.org)
                return
            if isinstance(c, InstC):
                self.call_method(st, o, '__setitem__', [i, v], {}, node)
                return
        if isinstance(o, Opq):
            self.event('opaque-store', (o.p,), st, node)
            return
        if isinstance(o, Tup) or (isinstance(o, K) and isinstance(o.v, (str, int, type(None)))):
            raise RaiseSig('TypeError', 'item assignment', node)
        raise Unsup('store to %r' % (o,))

    def key(self, st, v):
        v = self.simp(st, v)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.key(st, x) for x in v.items)
        if isinstance(v, (Ext, Cls, Fn)):
            return v
        if isinstance(v, (Num, Opq)):
            return ('#sym', v.p)
        raise Unsup('dict key %r' % (v,))

    def unkey(self, k):
        if isinstance(k, V):
            return k
        if isinstance(k, tuple) and k[:1] == ('#sym',):
            return Num(k[1])
        if isinstance(k, tuple):
            return Tup([self.unkey(x) for x in k])
        return K(k)

    # ------------------------------------------------------------ loops
    def iter_items(self, st, v, n=None, need=None):
        """Items of a value with statically known length."""
        v = self.simp(st, v)
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC):
                return c.items
            if isinstance(c, DictC):
                return tuple(self.unkey(k) for k in c.d)
        if isinstance(v, K) and isinstance(v.v, str):
            return tuple(K(ch) for ch in v.v)
        if isinstance(v, K) and isinstance(v.v, (range, tuple)):
            return tuple(K(ch) for ch in v.v)
        if isinstance(v, AV):
            sh = self.ashape(st, v)
            if sh:
                c = sh[0].const()
                if c is not None and c.denominator == 1 and c <= MAXUNROLL:
                    return tuple(self.lib.view(st, v, K(i), None) for i in range(int(c)))
        if isinstance(v, Opq) and need is not None and n is not None:
            return tuple(Opq(A(('call', 'item', v.p, num(i)))) for i in range(n))
        if isinstance(v, (K, Num, B)) and need is not None:
            raise RaiseSig('TypeError', 'cannot unpack', None)
        raise Unsup('iteration over %r' % (v,))

    def sym_iter(self, st, v):
        """(count, element(lv) -> V) of a value of symbolic length, or None."""
        v = self.simp(st, v)
        if isinstance(v, AV):
            sh = self.ashape(st, v)
            return sh[0], lambda s, i: self.lib.view(s, v, Num(i, 'pyint'), None)
        if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[0], K) and v.items[0].v == '#range':
            return None
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC) and c.kind.startswith('#'):
                if c.kind == '#range':
                    lo, hi, step = c.items
                    lo, hi, step = self.P(lo), self.P(hi), self.P(step)
                    if step == ONE:
                        return hi - lo, lambda s, i: Num(lo + i, 'pyint')
                    if step == -ONE:
                        return lo - hi, lambda s, i: Num(lo - i, 'pyint')
                    return A(('call', 'ceil', T.div(hi - lo, step))), lambda s, i: Num(lo + i * step, 'pyint')
                if c.kind == '#zip':
                    subs = [self.sym_iter(st, x) or self.known_iter(st, x) for x in c.items]
                    return subs[0][0], lambda s, i: Tup([f(s, i) for _, f in subs])
                if c.kind == '#enum':
                    sub = self.sym_iter(st, c.items[0]) or self.known_iter(st, c.items[0])
                    st0 = self.P(c.items[1])
                    return sub[0], lambda s, i: Tup([Num(i + st0, 'pyint'), sub[1](s, i)])
                if c.kind == '#rev':
                    sub = self.sym_iter(st, c.items[0])
                    return sub[0], lambda s, i: sub[1](s, sub[0] - ONE - i)
                if c.kind == '#map':
                    n, body = c.items
                    return self.P(n), lambda s, i: body.fn(self, s, [Num(i, 'pyint')], {}, None)
                if c.kind == '#rep':
                    n, x = c.items
                    return self.P(n), lambda s, i: x
        if isinstance(v, Opq):
            return A(('call', 'len', v.p)), lambda s, i: Opq(A(('get', v.p.atom() if v.p.atom() else v.p, i)))
        return None

    def known_iter(self, st, v):
        items = self.iter_items(st, v)
        raise Unsup('mixed iteration')

    def try_items(self, st, v):
        """Items when statically known, also for zip/enumerate/range objects."""
        v = self.simp(st, v)
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC) and c.kind.startswith('#'):
                if c.kind == '#range':
                    xs = [self.P(x).const() for x in c.items]
                    if any(x is None for x in xs):
                        return None
                    r = range(*[int(x) for x in xs])
                    return [K(i) for i in r] if len(r) <= MAXUNROLL else None
                if c.kind == '#zip':
                    subs = [self.try_items(st, x) for x in c.items]
                    if all(s is None for s in subs):
                        return None
                    n = min(len(s) for s in subs if s is not None)
                    out = []
                    for i in range(n):
                        row = []
                        for s, x in zip(subs, c.items):
                            row.append(s[i] if s is not None else self.subscript(st, x, K(i), None))
                        out.append(Tup(row))
                    return out
                if c.kind == '#enum':
                    s = self.try_items(st, c.items[0])
                    if s is None:
                        return None
                    z = self.P(c.items[1]).const()
                    return [Tup([K(int(z) + i), x]) for i, x in enumerate(s)]
                if c.kind == '#rev':
                    s = self.try_items(st, c.items[0])
                    return None if s is None else list(reversed(s))
                return None
        try:
            return list(self.iter_items(st, v))
        except Unsup:
            return None

    def for_(self, s, st, fr):
        it = self.eval(st, s.iter, fr)
        it = self.simp(st, it)
        if isinstance(it, Phi):
            s1, s2 = st.fork(it.c), st.fork(cnot(it.c))
            return self.join(self.for_body(s, s1, fr, it.a), self.for_body(s, s2, fr, it.b))
        return self.for_body(s, st, fr, it)

    def for_body(self, s, st, fr, it):
        items = self.try_items(st, it)
        if items is not None:
            breaks = []
            for x in items:
                fr.loops.append((breaks, []))
                self.assign(st, s.target, x, fr)
                st = self.block(s.body, st, fr)
                _, conts = fr.loops.pop()
                st = self.joinall([st] + conts)
                if st is None:
                    break
            if st is not None and s.orelse:
                st = self.block(s.orelse, st, fr)
            return self.joinall([st] + breaks)
        si = self.sym_iter(st, it)
        if si is None:
            raise Unsup('loop over %r' % (it,))
        return self.sym_loop(s, st, fr, si[0], si[1])

    def sym_loop(self, s, st, fr, n, elem):
        """Loop of symbolic trip count: one abstract iteration, closed forms after."""
        if s.orelse:
            raise Unsup('for-else over symbolic range')
        d = self.depth_lv
        self.depth_lv += 1
        lv = A(('lv', d))
        try:
            # pass 1: what changes
            pre = st.fork()
            h0 = pre.heap.fork()
            nev = len(self.events)
            self.mute += 1
            nret = len(fr.returns)
            try:
                probe = pre.fork()
                fr.loops.append(([], []))
                self.assign(probe, s.target, elem(probe, lv), fr)
                out = self.block(s.body, probe, fr)
                br, co = fr.loops.pop()
                if len(fr.returns) > nret:
                    del fr.returns[nret:]
                    raise Unsup('return inside symbolic loop')
                if br:
                    raise Unsup('break inside symbolic loop')
                out = self.joinall([out] + co)
            finally:
                self.mute -= 1
            if out is None:
                raise Unsup('loop body always leaves')
            changed = [h for h in out.heap if h in h0 and out.heap[h] is not h0[h]]
            # pass 2: changed values become loop-carried symbols
            cur = st.fork()
            carried = {}
            tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            cnt = 0
            for h in changed:
                c, o = h0[h], out.heap[h]
                if isinstance(c, dict):
                    e = dict(c)
                    for k in o:
                        if k.startswith('#') or k in tnames:
                            continue
                        if k in c and c[k] is not o[k] and c[k] != o[k]:
                            if self.isnum(c[k]) or isinstance(c[k], Opq):
                                ph = ('lc', d, cnt)
                                cnt += 1
                                carried[(h, k)] = ph
                                e[k] = Num(A(ph), None) if not isinstance(c[k], Opq) else Opq(A(ph))
                            elif isinstance(c[k], AV) and isinstance(o[k], AV):
                                ph = ('lc', d, cnt)
                                cnt += 1
                                sh = self.ashape(st, c[k])
                                carried[(h, k)] = ph
                                e[k] = self.newarr(cur, sh, A(ph + tuple(ix(q) for q in range(len(sh)))), self.adt(st, c[k]), self.alib(st, c[k]))
                            else:
                                carried[(h, k)] = None
                                e[k] = Opq(A(('lc', d, cnt)))
                                cnt += 1
                    cur.heap[h] = e
                elif isinstance(c, ArrC):
                    ph = ('lc', d, cnt)
                    cnt += 1
                    carried[h] = ph
                    cur.heap[h] = c.with_(body=A(ph + tuple(ix(q) for q in range(len(c.sh)))))
                elif isinstance(c, InstC):
                    carried[h] = 'inst'
                elif isinstance(c, ListC):
                    carried[h] = 'list'
                else:
                    raise Unsup('loop-carried %s' % type(c).__name__)
            cur.pc = addpc(cur.pc, cand(T.ge(lv, ZERO, self.facts), T.lt(lv, n, self.facts)))
            cur2 = cur.fork()
            cur2.pc = st.pc
            fr.loops.append(([], []))
            self.assign(cur2, s.target, elem(cur2, lv), fr)
            out = self.block(s.body, cur2, fr)
            br, co = fr.loops.pop()
            out = self.joinall([out] + co)
            if out is None:
                raise Unsup('loop body always leaves')
            # close
            fin = st
            for h in list(out.heap):
                if h not in h0:
                    fin.heap.setdefault(h, out.heap[h])
            for h in changed:
                c, o = h0[h], out.heap[h]
                if isinstance(c, dict):
                    e = dict(c)
                    for k in o:
                        if k.startswith('#'):
                            continue
                        if (h, k) in carried:
                            ph = carried[(h, k)]
                            e[k] = self.close_val(fin, out, c[k], o[k], ph, lv, n)
                        elif k not in c:
                            e[k] = Phi(T.gt(n, ZERO, self.facts), self.at_last(fin, out, o[k], lv, n), UNDEF) if T.gt(n, ZERO, self.facts) is not True else self.at_last(fin, out, o[k], lv, n)
                        elif k in tnames:
                            e[k] = self.at_last(fin, out, o[k], lv, n)
                    fin.heap[h] = e
                elif isinstance(c, ArrC):
                    fin.heap[h] = c.with_(body=self.close_arr(c.body, o.body, carried[h], lv, n, len(c.sh)))
                elif isinstance(c, ListC):
                    new = o.items[len(c.items):] if o.items[:len(c.items)] == c.items else None
                    if new is not None and len(new) == 1 and not c.items:
                        x = new[0]
                        fin.heap[h] = ListC([Num(n, 'pyint'), self.lam_item(fin, out, x, lv)], '#map', c.org)
                    else:
                        raise Unsup('list changed in symbolic loop')
                elif isinstance(c, InstC):
                    e = dict(c.attrs)
                    for k in o.attrs:
                        if c.attrs.get(k) != o.attrs[k]:
                            e[k] = self.at_last(fin, out, o.attrs[k], lv, n)
                    fin.heap[h] = InstC(c.cls, e, c.sym, c.org)
            return fin
        finally:
            self.depth_lv -= 1

    def lam_item(self, st, out, x, lv):
        lva = lv.atom()

        def sub(p, i):
            return T.subst(p, lambda a: i if a == lva else None)

        def inst(v, s, i):
            if isinstance(v, Num):
                return Num(sub(v.p, i), v.dt)
            if isinstance(v, Opq):
                return Opq(sub(v.p, i))
            if isinstance(v, Tup):
                return Tup([inst(y, s, i) for y in v.items])
            if isinstance(v, AV):
                return self.newarr(s, [sub(q, i) for q in self.ashape(out, v)], sub(self.abody(out, v), i), self.adt(out, v), self.alib(out, v))
            if isinstance(v, (K, Fn, Ext)):
                return v
            raise Unsup('symbolic list element')

        def fn(interp, s, args, kw, node):
            return inst(x, s, self.P(args[0]))
        return Py(('mapitem', repr(self.as_term(out, x))), fn)

    def at_last(self, fin, out, v, lv, n):
        lva = lv.atom()

        def f(a):
            return n - ONE if a == lva else None
        if isinstance(v, Num):
            return Num(T.subst(v.p, f), v.dt)
        if isinstance(v, Opq):
            return Opq(T.subst(v.p, f))
        if isinstance(v, Tup):
            return Tup([self.at_last(fin, out, x, lv, n) for x in v.items])
        if isinstance(v, AV) and v.h in out.heap:
            return self.newarr(fin, [T.subst(q, f) for q in self.ashape(out, v)], T.subst(self.abody(out, v), f), self.adt(out, v), self.alib(out, v), may=frozenset([v.h]))
        return v

    def close_val(self, fin, out, init, post, ph, lv, n):
        if ph is None:
            return self.at_last(fin, out, post, lv, n)
        if isinstance(post, AV) and isinstance(init, AV):
            sh = self.ashape(out, post)
            b = self.close_arr(self.abody(fin, init), self.abody(out, post), ph, lv, n, len(sh))
            return self.newarr(fin, sh, b, self.adt(out, post), self.alib(out, post))
        if not (self.isnum(post) or isinstance(post, Opq)):
            raise Unsup('loop-carried value')
        p = self.P(post)
        b = self.close_poly(self.P(init), p, ph, lv, n)
        return Num(b, self.dt_of(post)) if not isinstance(post, Opq) else Opq(b)

    def has(self, x, pred):
        r = [False]

        def visit(a):
            if pred(a):
                r[0] = True
        T.walk(x, visit)
        return r[0]

    def close_poly(self, init, post, ph, lv, n):
        me = A(ph)
        g = post - me
        isph = lambda a: a[0] == 'lc' and a[:3] == ph[:3]
        if not self.has(g, lambda a: a[0] == 'lc' and a[1] == ph[1]):
            return init + self.lib.sumover(g, lv.atom(), n)
        if not self.has(post, lambda a: a[0] == 'lc' and a[1] == ph[1]):
            lva = lv.atom()
            return T.subst(post, lambda a: n - ONE if a == lva else None)
        return A(('loop', n, init, self.bind(post, lv.atom())))

    def bind(self, p, lva):
        lev = self.lib.level(p)
        return T.subst(p, lambda a: A(('bv', lev)) if a == lva else None)

    def close_arr(self, init, post, ph, lv, n, nd):
        lva = lv.atom()
        me = A(ph + tuple(ix(q) for q in range(nd)))
        isph = lambda a: a[0] == 'lc' and len(a) > 1 and a[1] == ph[1]
        g = post - me
        a = post.atom()
        if a is not None and a[0] == 'phi' and self.has(a[2], isph) and not self.has(a[1], isph):
            x, y = a[2] - me, a[3] - me
            if not self.has(x, isph) and not self.has(y, isph):
                g = phi(a[1], x, y, self.facts)
        if not self.has(g, isph):
            return init + self.lib.sumover(g, lva, n)
        if a is not None and a[0] == 'phi' and a[3] == me and (self.has(a[2], isph) or self.has(a[1], isph)):
            a = self.own_reads(a, init, ph, lv, lva, nd, isph)
        if a is not None and a[0] == 'phi' and a[3] == me and not self.has(a[2], isph) and not self.has(a[1], isph):
            # disjoint store: some equality ix_k == lv + c
            lits = a[1][1:] if a[1][0] == 'and' else (a[1],)
            for l in lits:
                if l[0] == 'eq0':
                    p = l[1]
                    for sg in (1, -1):
                        q = p.scale(sg)
                        rest = q - lv
                        if not self.has(rest, lambda x: x == lva):
                            sol = -rest
                            f = lambda x: sol if x == lva else None
                            c = T.subst_cond(a[1], f, self.facts)
                            c = cand(c, T.ge(sol, ZERO, self.facts), T.lt(sol, n, self.facts))
                            c = self.inrange(c, nd, n, sol)
                            return phi(c, T.subst(a[2], f), init, self.facts)
        r = self.disjoint(post, me, init, lv, lva, n, nd, isph)
        if r is not None:
            return r
        return A(('loop', n, init, self.bind(post, lva)) + tuple(ix(q) for q in range(nd)))

    def disjoint(self, post, me, init, lv, lva, n, nd, isph):
        """Several stores under one loop, all of them only where lv == sol (a common index): the loop
        leaves, for each element, what its one iteration stores."""
        sols = None
        leaves = []

        def walk(p, lits):
            a = p.atom()
            if a is not None and a[0] == 'phi' and p != me:
                ls = a[1][1:] if a[1][0] == 'and' else (a[1],)
                walk(a[2], lits + list(ls))
                walk(a[3], lits)
            else:
                leaves.append((p, lits))
        walk(post, [])
        for p, lits in leaves:
            if p == me:
                continue
            mine = set()
            for l in lits:
                if l[0] != 'eq0':
                    continue
                for sg in (1, -1):
                    rest = l[1].scale(sg) - lv
                    if not self.has(rest, lambda x: x == lva) and not self.has(rest, isph):
                        mine.add(-rest)
            sols = mine if sols is None else sols & mine
            if not sols:
                return None
        if not sols:
            return None
        sol = sorted(sols, key=repr)[0]
        ma = me.atom()
        m0 = len(ma) - nd
        own = None
        for k in range(nd):
            rest = sol - ix(k)
            if not any(self.has(rest, lambda x, q=q: x == ix(q).atom()) for q in range(nd)):
                own = (k, lv - rest)

        def f(x):
            if x == ma:
                return init
            if x == lva:
                return sol
            if isph(x) and len(x) == len(ma) and own is not None and (x[m0 + own[0]] == own[1] or x[m0 + own[0]] == ix(own[0])):
                # the iteration's own element, as it was before the loop
                m = [T.subst(y, f) for y in x[m0:]]
                return T.subst(init, lambda y: m[y[1]] if y[0] == 'ix' and y[1] < nd else None)
            return None
        t = T.subst(post, f)
        if self.has(t, isph):
            return None
        c = self.inrange(cand(T.ge(sol, ZERO, self.facts), T.lt(sol, n, self.facts)), nd, n, sol)
        return t if c is True else init if c is False else phi(c, t, init, self.facts)

    def own_reads(self, a, init, ph, lv, lva, nd, isph):
        """Iteration lv writes only elements with ix_k == lv (+c) and reads only those of them: the
        reads see the values from before the loop."""
        lits = a[1][1:] if a[1][0] == 'and' else (a[1],)
        for l in lits:
            if l[0] != 'eq0' or self.has(l[1], isph):
                continue
            for k in range(nd):
                for sg in (1, -1):
                    own = ix(k) - l[1].scale(sg)         # ix_k = own
                    if any(self.has(own, lambda x, q=q: x == ix(q).atom()) for q in range(nd)) or not self.has(own, lambda x: x == lva):
                        continue

                    def f(x):
                        if isph(x) and len(x) == len(ph) + nd and (x[len(ph) + k] == own or x[len(ph) + k] == ix(k)):
                            m = x[len(ph):]
                            return T.subst(init, lambda y: m[y[1]] if y[0] == 'ix' and y[1] < nd else None)
                        return None
                    c, v = T.subst_cond(a[1], f, self.facts), T.subst(a[2], f)
                    if not self.has(c, isph) and not self.has(v, isph):
                        return ('phi', c, v, a[3])
        return a

    def inrange(self, c, nd, n, sol):
        """Drop range literals of a whole-axis index."""
        if c is True or c is False:
            return c
        lits = c[1:] if c[0] == 'and' else (c,)
        out = []
        for l in lits:
            drop = False
            for k in range(nd):
                if sol == ix(k):
                    if l == T.lt(ix(k), n, self.facts) and self._axis_len.get(k) == n:
                        drop = True
                    if l == T.ge(ix(k), ZERO, self.facts):
                        drop = True
            if not drop:
                out.append(l)
        return cand(*out)

    _axis_len = {}

    def while_(self, s, st, fr):
        for _ in range(12):
            c = self.decide(st, self.truth(st, self.eval(st, s.test, fr)))
            if c is False:
                return st
            if c is not True:
                raise Unsup('while with symbolic condition')
            fr.loops.append(([], []))
            st = self.block(s.body, st, fr)
            br, co = fr.loops.pop()
            if br:
                raise Unsup('break in while')
            st = self.joinall([st] + co)
            if st is None:
                return None
        raise Unsup('while does not terminate statically')

    # ------------------------------------------------------------ expressions
    def eval(self, st, e, fr):
        self.steps += 1
        t = type(e)
        if t is ast.Constant:
            return K(e.value)
        if t is ast.Name:
            return self.lookup(st, e.id, fr, e)
        if t is ast.Attribute:
            o = self.eval(st, e.value, fr)
            return self.split(st, o, lambda s, x: self.getattr(s, x, e.attr, e))
        if t is ast.Subscript:
            o = self.eval(st, e.value, fr)
            i = self.eval(st, e.slice, fr)
            return self.splitn(st, [o, i], lambda s, x, j: self.subscript(s, x, j, e))
        if t is ast.Call:
            return self.eval_call(st, e, fr)
        if t is ast.BinOp:
            a = self.eval(st, e.left, fr)
            b = self.eval(st, e.right, fr)
            return self.splitn(st, [a, b], lambda s, x, y: self.lib.binop(s, e.op, x, y, e))
        if t is ast.UnaryOp:
            v = self.eval(st, e.operand, fr)
            if isinstance(e.op, ast.Not):
                c = self.truth(st, v)
                return K(not c) if isinstance(c, bool) else B(cnot(c))
            return self.split(st, v, lambda s, x: self.lib.unop(s, e.op, x, e))
        if t is ast.BoolOp:
            return self.boolop(st, e.op, e.values, fr)
        if t is ast.Compare:
            l = self.eval(st, e.left, fr)
            res = None
            for op, r in zip(e.ops, e.comparators):
                rv = self.eval(st, r, fr)
                x = self.splitn(st, [l, rv], lambda s, a, b: self.lib.compare(s, op, a, b, e))
                res = x if res is None else self.andv(st, res, x)
                l = rv
            return res
        if t is ast.IfExp:
            c = self.decide(st, self.truth(st, self.eval(st, e.test, fr)))
            if c is True:
                return self.eval(st, e.body, fr)
            if c is False:
                return self.eval(st, e.orelse, fr)
            return self.cond2(st, c, lambda s: self.eval(s, e.body, fr), lambda s: self.eval(s, e.orelse, fr))
        if t is ast.Tuple:
            return Tup(self.elts(st, e.elts, fr))
        if t is ast.List:
            return self.newlist(st, self.elts(st, e.elts, fr))
        if t is ast.Set:
            return self.newlist(st, self.elts(st, e.elts, fr), 'set')
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                x = self.eval(st, v, fr)
                if k is None:
                    d.update(self.dict_of(st, x))
                else:
                    d[self.key(st, self.eval(st, k, fr))] = x
            return self.newdict(st, d)
        if t is ast.Slice:
            return Slc(*[self.eval(st, x, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)])
        if t is ast.Lambda:
            return self.mkfn(st, e, fr.mod, fr.env, qual=fr.name + '.')
        if t is ast.JoinedStr:
            parts = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(K(p.value))
                else:
                    parts.append(self.eval(st, p.value, fr))
            return self.lib.fstring(st, parts, e)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.comp(st, e, fr)
        if t is ast.Starred:
            raise Unsup('starred')
        if t is ast.Yield and fr.on_yield is not None:
            return fr.on_yield(st, self.eval(st, e.value, fr) if e.value is not None else NONE)
        if t is ast.NamedExpr:
            v = self.eval(st, e.value, fr)
            self.assign(st, e.target, v, fr)
            return v
        raise Unsup('expression %s' % t.__name__)

    def cond2(self, st, c, f, g):
        s1, s2 = st.fork(c), st.fork(cnot(c))
        e1 = e2 = None
        try:
            r1 = f(s1)
        except RaiseSig as e:
            e1 = e
        try:
            r2 = g(s2)
        except RaiseSig as e:
            e2 = e
        if e1 and e2:
            raise e1
        if e1:
            self.event('raise', (e1.exc, e1.msg), s1, e1.node)
            st.take(s2)
            return r2
        if e2:
            self.event('raise', (e2.exc, e2.msg), s2, e2.node)
            st.take(s1)
            return r1
        st.take(self.merge(s1, s2))
        return self.merge_val(st, c, r1, r2)

    def elts(self, st, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(st, x.value, fr)
                out += list(self.iter_all(st, v))
            else:
                out.append(self.eval(st, x, fr))
        return out

    def iter_all(self, st, v):
        r = self.try_items(st, v)
        if r is None:
            raise Unsup('expansion of symbolic sequence')
        return r

    def boolop(self, st, op, values, fr):
        v = self.eval(st, values[0], fr)
        if len(values) == 1:
            return v
        c = self.decide(st, self.truth(st, v))
        isand = isinstance(op, ast.And)
        if c is True:
            return self.boolop(st, op, values[1:], fr) if isand else v
        if c is False:
            return v if isand else self.boolop(st, op, values[1:], fr)
        rest = lambda s: self.boolop(s, op, values[1:], fr)
        bool_v = self.isbool(v)
        if isand:
            # value when v is falsy: v itself
            r = self.cond2(st, c, rest, lambda s: K(False) if bool_v else self.falsy(s, v))
        else:
            r = self.cond2(st, c, lambda s: K(True) if bool_v else v, rest)
        return r

    def falsy(self, st, v):
        return v

    def andv(self, st, a, b):
        if self.isbool(a) and self.isbool(b):
            c = cand(self.cond_of(a), self.cond_of(b))
            return K(c) if isinstance(c, bool) else B(c)
        return b

    def truth(self, st, v):
        v = self.simp(st, v)
        if isinstance(v, K):
            if isinstance(v.v, DT):
                return True
            return bool(v.v)
        if isinstance(v, B):
            return self.decide(st, v.c)
        if isinstance(v, Num):
            return self.decide(st, cnot(T.eq(v.p, ZERO, self.facts))) if self.facts.sign(v.p) not in ('+', '-') else True
        if isinstance(v, Phi):
            s1, s2 = st.fork(v.c), st.fork(cnot(v.c))
            return ite(v.c, self.truth(s1, v.a), self.truth(s2, v.b))
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            c = st.heap[v.h]
            if isinstance(c, ListC):
                if c.kind.startswith('#'):
                    raise Unsup('truth of iterator')
                return len(c.items) > 0
            if isinstance(c, DictC):
                return len(c.d) > 0
            return True
        if isinstance(v, AV):
            sh = self.ashape(st, v)
            if sh == ():
                return self.decide(st, self.lib.pcond(self.abody(st, v)))
            if all(d == ONE for d in sh):
                return self.decide(st, self.lib.pcond(self.reindex(self.abody(st, v), {k: ZERO for k in range(8)})))
            self.event('array-truth', None, st, None)
            return self.decide(st, ('flag', A(('call', 'truth', self.abody(st, v)))))
        if isinstance(v, Opq):
            return self.decide(st, ('flag', v.p))
        if isinstance(v, (Fn, Cls, Mod, Ext, Bound, Py, Slc)):
            return True
        if v is UNDEF:
            raise RaiseSig('UnboundLocalError', '')
        raise Unsup('truth of %r' % (v,))

    def comp(self, st, e, fr):
        kind = {ast.ListComp: 'list', ast.GeneratorExp: 'list', ast.SetComp: 'set', ast.DictComp: 'dict'}[type(e)]
        eid = self.new(st, {'#up': fr.env, '#mod': fr.mod})
        fr2 = Frame(eid, fr.mod, fr.name)
        out = []

        def go(gi):
            if gi == len(e.generators):
                if kind == 'dict':
                    out.append((self.key(st, self.eval(st, e.key, fr2)), self.eval(st, e.value, fr2)))
                else:
                    out.append(self.eval(st, e.elt, fr2))
                return
            g = e.generators[gi]
            it = self.eval(st, g.iter, fr2)
            items = self.try_items(st, it)
            if items is None:
                raise SymComp(it)
            for x in items:
                self.assign(st, g.target, x, fr2)
                ok = True
                for c in g.ifs:
                    b = self.decide(st, self.truth(st, self.eval(st, c, fr2)))
                    if b is False:
                        ok = False
                        break
                    if b is not True:
                        raise Unsup('comprehension filter undecided')
                if ok:
                    go(gi + 1)
        try:
            go(0)
        except SymComp as sc:
            if len(e.generators) != 1 or e.generators[0].ifs or kind == 'dict':
                raise Unsup('comprehension over symbolic range')
            n, elem = self.sym_iter(st, sc.it) or (None, None)
            if n is None:
                raise Unsup('comprehension')
            d = self.depth_lv
            self.depth_lv += 1
            try:
                lv = A(('lv', d))
                self.assign(st, e.generators[0].target, elem(st, lv), fr2)
                x = self.eval(st, e.elt, fr2)
                return Ref(self.new(st, ListC([Num(n, 'pyint'), self.lam_item(st, st.fork(), x, lv)], '#map')))
            finally:
                self.depth_lv -= 1
        if kind == 'dict':
            return self.newdict(st, dict(out))
        return self.newlist(st, out, kind)

    def dict_of(self, st, v):
        v = self.simp(st, v)
        if isinstance(v, Ref) and isinstance(st.heap[v.h], DictC):
            return st.heap[v.h].d
        raise Unsup('mapping expansion of %r' % (v,))

    # ------------------------------------------------------------ attributes
    def find_in_class(self, cls, name):
        for s in cls.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return s
        return None

    def class_member(self, st, cls, name):
        """('prop', getter) / ('fn', node, kind) / ('val', V) / None."""
        found = None
        for s in cls.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                decs = [ast.unparse(d) for d in s.decorator_list]
                if 'property' in decs:
                    found = ('prop', s)
                elif any(d.endswith('.setter') for d in decs):
                    continue
                elif 'staticmethod' in decs:
                    found = ('static', s)
                elif 'classmethod' in decs:
                    found = ('class', s)
                else:
                    found = ('fn', s)
            elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                found = ('val', s.value)
        if found is None:
            for b in cls.node.bases:
                if isinstance(b, ast.Name):
                    bv = self.glob(st, cls.mod, b.id)
                    if isinstance(bv, Cls):
                        r = self.class_member(st, bv, name)
                        if r is not None:
                            return r
            return None
        return found + (cls,)

    def setter(self, cls, name):
        for s in cls.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name and any(ast.unparse(d) == name + '.setter' for d in s.decorator_list):
                return s
        return None

    def member_value(self, st, m, selfv, clsv):
        kind, node, owner = m[0], m[1], m[2]
        q = owner.node.name + '.'
        if kind == 'val':
            fr = Frame(self.new(st, {'#up': None, '#mod': owner.mod}), owner.mod, owner.node.name)
            return self.eval(st, node, fr)
        f = self.mkfn(st, node, owner.mod, None, qual=q)
        if kind == 'static':
            return f
        if kind == 'class':
            return Fn(f.node, f.mod, None, clsv, f.name, f.defaults, f.kwd)
        if kind == 'fn':
            return Fn(f.node, f.mod, None, selfv, f.name, f.defaults, f.kwd) if selfv is not None else f
        raise Unsup('member')

    def sym_attr(self, st, c, name):
        return Opq(A(('call', 'attr', ('obj', c.sym), name)))

    def getattr(self, st, o, name, node=None, default=None):
        if isinstance(o, Ref):
            c = st.heap[o.h]
            if isinstance(c, InstC):
                if name in c.attrs and c.attrs[name] is not UNDEF:
                    v = self.simp(st, c.attrs[name])
                    if isinstance(v, Phi) and self.has_undef(v):
                        def k(s, x):
                            if x is UNDEF:
                                if default is not None:
                                    return default
                                raise RaiseSig('AttributeError', name, node)
                            return x
                        return self.split(st, v, k)
                    return v
                m = self.class_member(st, c.cls, name)
                if m is not None:
                    if m[0] == 'prop':
                        f = self.mkfn(st, m[1], m[2].mod, None, qual=m[2].node.name + '.')
                        return self.call_fn(st, Fn(f.node, f.mod, None, o, f.name, f.defaults, f.kwd), [], {}, node)
                    return self.member_value(st, m, o, c.cls)
                ga = self.class_member(st, c.cls, '__getattr__')
                if ga is not None:
                    f = self.member_value(st, ga, o, c.cls)
                    return self.call_fn(st, f, [K(name)], {}, node)
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    return self.newdict(st, c.attrs)
                if c.sym is not None:
                    v = self.sym_attr(st, c, name)
                    if default is not None:
                        return Phi(('flag', A(('call', 'hasattr', ('obj', c.sym), name))), v, default)
                    return v
                if default is not None:
                    return default
                if self.proj.absent:
                    self.event('absent', ('%s has no attribute %s' % (c.cls.node.name, name), self.caught('AttributeError')), st, node)
                raise RaiseSig('AttributeError', name, node)
        if isinstance(o, Cls):
            if name in ('__name__', '__qualname__'):
                return K(o.node.name)
            if name == '__module__':
                return K(o.mod.name)
            m = self.class_member(st, o, name)
            if m is None:
                if default is not None:
                    return default
                raise RaiseSig('AttributeError', name, node)
            return self.member_value(st, m, None, o)
        if isinstance(o, Mod):
            v = self.glob(st, o.m, name)
            if v is None:
                if default is not None:
                    return default
                raise RaiseSig('AttributeError', name, node)
            return v
        return self.lib.getattr(st, o, name, node, default)

    def setattr(self, st, o, name, v, node):
        if isinstance(o, Ref) and isinstance(st.heap[o.h], InstC):
            c = st.heap[o.h]
            s = self.setter(c.cls, name)
            if s is not None:
                self.event('setattr', (c.sym or o.h, name, v, o), st, node)
                f = self.mkfn(st, s, c.cls.mod, None, qual=c.cls.node.name + '.')
                self.call_fn(st, Fn(f.node, f.mod, None, o, f.name, f.defaults, f.kwd), [v], {}, node)
                return
            a = dict(c.attrs)
            a[name] = v
            self.event('setattr', (c.sym or o.h, name, v, o), st, node)
            st.heap[o.h] = InstC(c.cls, a, c.sym, c.org)
            return
        if isinstance(o, AV) and name in ('shape',):
            raise Unsup('shape assignment')
        if isinstance(o, (Opq, Ext, Mod, Fn, Cls)):
            self.event('setattr', (self.as_term(st, o), name, v, o), st, node)
            return
        raise Unsup('attribute store on %r' % (o,))

    def subscript(self, st, o, i, node):
        return self.lib.subscript(st, o, i, node)

    # ------------------------------------------------------------ calls
    def eval_call(self, st, e, fr):
        f = self.eval(st, e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value, fr)
                args += list(self.iter_all(st, v))
            else:
                args.append(self.eval(st, a, fr))
        ks = [(k.arg, self.simp(st, self.eval(st, k.value, fr))) for k in e.keywords]
        self.may_raise(st, e, 'call')
        gated = [v for n, v in ks if n is None and isinstance(v, Phi)]
        if gated:
            r = self.splitn(st, gated, lambda s, *vs: self.finish_call(s, f, args, ks, list(vs), fr, e))
        else:
            r = self.finish_call(st, f, args, ks, [], fr, e)
        self.may_raise(st, e, 'done')
        return r

    def finish_call(self, st, f, args, ks, maps, fr, e):
        kw = {}
        for n, v in ks:
            if n is None:
                if isinstance(v, Phi):
                    v = maps.pop(0)
                for kk, vv in self.dict_of(st, v).items():
                    if kk in kw:
                        raise RaiseSig('TypeError', 'multiple values for keyword ' + str(kk), e)
                    kw[kk] = vv
            else:
                if n in kw:
                    raise RaiseSig('TypeError', 'multiple values for keyword ' + n, e)
                kw[n] = v
        # nested calls such as locals()/vars() read the frame
        if isinstance(f, Ext) and f.name in ('builtins.locals', 'builtins.vars') and not args:
            d = {k: v for k, v in st.heap[fr.env].items() if not k.startswith('#')}
            return self.newdict(st, d)
        return self.call(st, f, args, kw, e)

    def call(self, st, f, args, kw, node):
        return self.split(st, f, lambda s, g: self.call1(s, g, args, kw, node))

    def call1(self, st, f, args, kw, node):
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, Py):
            return f.fn(self, st, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, Ref) and isinstance(st.heap[f.h], InstC):
            c = st.heap[f.h]
            return self.call_method(st, f, '__call__', args, kw, node)
        if isinstance(f, Ext):
            return self.lib.call(st, f.name, args, kw, node)
        if isinstance(f, Bound):
            return self.split(st, f.obj, lambda s, o: self.lib.method(s, o, f.name, args, kw, node))
        if isinstance(f, Opq):
            at = f.p.atom()
            if at is not None and at[:2] == ('call', 'attr') and isinstance(at[2], Poly) and isinstance(at[3], str):
                return self.lib.method(st, Opq(at[2]), at[3], args, kw, node)
            self.event('opaque-call', (f.p, args, kw), st, node)
            return Opq(A(('call', 'apply', f.p, *[self.as_term(st, a) for a in args],
                          *[(k, self.as_term(st, v)) for k, v in sorted(kw.items())])))
        if type(f).__name__ == 'GObj' and f.kind == 'fn':
            return self.lib.launch(st, f, args, kw, node)
        if isinstance(f, K):
            raise RaiseSig('TypeError', 'not callable: %r' % (f.v,), node)
        raise Unsup('call of %r' % (f,))

    def call_method(self, st, o, name, args, kw, node):
        c = st.heap[o.h]
        m = self.class_member(st, c.cls, name)
        if m is None:
            if c.sym is not None:
                return Opq(A(('call', 'meth', ('obj', c.sym), name, *[self.as_term(st, a) for a in args],
                              *[(k, self.as_term(st, v)) for k, v in sorted(kw.items())])))
            raise Unsup('method %s' % name)
        f = self.member_value(st, m, o, c.cls)
        return self.call_fn(st, f, args, kw, node)

    def instantiate(self, st, c, args, kw, node):
        key = (c.mod.name, c.node.name)
        if key in self.models:
            return self.models[key](self, st, args, kw, node)
        o = Ref(self.new(st, InstC(c, {})))
        m = self.class_member(st, c, '__init__')
        self.event('new', (c.node.name, args, kw), st, node)
        if m is not None:
            f = self.member_value(st, m, o, c)
            self.call_fn(st, f, args, kw, node)
        return o

    def bind_args(self, st, f, args, kw, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if f.selfv is not None:
            args = [f.selfv] + args
        d = {}
        for n, v in zip(names, args):
            d[n] = v
        if len(args) > len(names):
            if a.vararg:
                d[a.vararg.arg] = Tup(args[len(names):])
            else:
                raise RaiseSig('TypeError', '%s() takes %d positional arguments, got %d' % (f.name, len(names), len(args)), node)
        elif a.vararg:
            d[a.vararg.arg] = Tup(())
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in d:
                    raise RaiseSig('TypeError', '%s() got multiple values for %s' % (f.name, k), node)
                d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise RaiseSig('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k), node)
        if a.kwarg:
            d[a.kwarg.arg] = self.newdict(st, extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j >= 0:
                    d[n] = f.defaults[j]
                else:
                    raise RaiseSig('TypeError', '%s() missing argument %s' % (f.name, n), node)
        for k in konly:
            if k not in d:
                if k in f.kwd:
                    d[k] = f.kwd[k]
                else:
                    raise RaiseSig('TypeError', '%s() missing keyword argument %s' % (f.name, k), node)
        return d

    def call_fn(self, st, f, args, kw, node):
        name = f.name
        mod = f.mod
        d = self.bind_args(st, f, args, kw, node)
        key = (mod.name, name)
        if key in self.models:
            self.event('call', (mod.name, name, d), st, node)
            r = self.models[key](self, st, d, node)
            if r is not NotImplemented:
                return r
        if isinstance(f.node, ast.FunctionDef) and f.selfv is None:
            ji = jit_info(self.proj, mod, f.node)
            if ji is not None:
                return self.kernel_call(st, f, d, ji, node)
        self.event('call', (mod.name, name, d), st, node)
        if isinstance(f.node, ast.FunctionDef) and any(ast.unparse(x).split('.')[-1] == 'contextmanager' for x in f.node.decorator_list):
            return Py('#ctxgen', (f, d))
        if key in self.opaque or name in self.opaque:
            return self.opaque_call(st, name, d)
        if len(self.stack) > 40 or self.stack.count(mod.name + ':' + name) > 3:
            return self.opaque_call(st, name, d)
        snap = State(st.heap.fork(), st.pc)
        ne = len(self.events)
        nh = self.nh
        frames, stack = len(self.frames), len(self.stack)
        try:
            return self.run_fn(st, f, d, node)
        except Unsup as u:
            del self.frames[frames:]
            del self.stack[stack:]
            if self.strict(key):
                raise
            st.take(snap)
            del self.events[ne:]
            self.note('%s treated as opaque: %s' % (name, u))
            self.event('opaque-user', (mod.name, name, d, str(u)), st, node)
            # anything reachable may have changed: only arrays passed in are reported
            return self.opaque_call(st, name, d)

    stricts = ()

    def strict(self, key):
        return key in self.stricts or key[1] in self.stricts

    def opaque_call(self, st, name, d):
        return Opq(A(('call', name, *[(k, self.as_term(st, v)) for k, v in d.items()])))

    def run_fn(self, st, f, d, node=None):
        env = dict(d)
        env['#up'] = f.env
        env['#mod'] = f.mod
        eid = self.new(st, env)
        fr = Frame(eid, f.mod, f.name)
        fr.node = f.node
        self.frames.append(fr)
        self.stack.append(f.mod.name + ':' + f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(st, f.node.body, fr)
            end = self.block(strip_doc(f.node), st, fr)
            rets = list(fr.returns)
            if end is not None:
                rets.append((end, NONE))
            if not rets:
                raise RaiseSig('#raised', f.name, node)
            s, v = rets[0]
            for s2, v2 in rets[1:]:
                n = 0
                while n < len(s.pc) and n < len(s2.pc) and s.pc[n] == s2.pc[n]:
                    n += 1
                c = cand(*s.pc[n:])
                for x in s.pc[n:]:
                    if cnot(x) in s2.pc[n:]:
                        c = x
                        break
                m = self.merge(s, s2)
                v = self.merge_val(m, c, v, v2)
                s = m
            st.take(s)
            return v
        finally:
            self.frames.pop()
            self.stack.pop()

    # ------------------------------------------------------------ kernels
    def kernel_call(self, st, f, d, ji, node):
        """A numba routine: an event, and opaque new contents for arrays it writes."""
        self.event('kernel', (f.mod.name, f.name, d), st, node)
        eff = self.lib.kernel_writes(f)
        if self.lib.interpretable(f):
            snap = State(st.heap.fork(), st.pc)
            ne = len(self.events)
            frames, stack = len(self.frames), len(self.stack)
            try:
                return self.run_fn(st, f, d, node)
            except Unsup as u:
                del self.frames[frames:]
                del self.stack[stack:]
                st.take(snap)
                del self.events[ne:]
        terms = tuple((k, self.as_term(st, v)) for k, v in d.items())
        for p in eff['writes']:
            v = self.simp(st, d.get(p))
            if isinstance(v, AV):
                self.touch(st, v, node, 'written by %s' % f.name)
                sh = self.ashape(st, v)
                body = A(('kern', f.name, p, terms) + tuple(ix(k) for k in range(len(sh))))
                m0 = self.mute
                self.mute += 1
                try:
                    self.write(st, v, self.newarr(st, sh, body), node, '')
                finally:
                    self.mute = m0
            elif isinstance(v, Phi):
                for x in self.alts(v):
                    if isinstance(x, AV):
                        self.touch(st, x, node, 'written by %s' % f.name)
        if eff['ret'] is None:
            return NONE
        if isinstance(eff['ret'], str):
            return d[eff['ret']]
        return self.lib.kernel_result(st, f, d, terms, eff)

    def alts(self, v):
        if isinstance(v, Phi):
            return self.alts(v.a) + self.alts(v.b)
        return [v]

    # ------------------------------------------------------------ entry
    def start(self):
        return State(Heap({}, self.base.heap))

    def run(self, modname, fname, args, st=None, strict=True):
        """Analyse one entry point; args: parameter -> V.  Returns (value, state) or
        raises RaiseSig / Unsup."""
        st = st or self.start()
        m = self.proj.modules[modname]
        node = self.proj.func(modname, fname.split('.')[0])
        if '.' in fname:
            cls, meth = fname.split('.')
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == meth and not any(ast.unparse(x).endswith('.setter') for x in s.decorator_list):
                    mnode = s
            f = self.mkfn(st, mnode, m, None, qual=cls + '.')
        else:
            if node is None:
                raise Unsup('no function %s' % fname)
            r = self.proj.resolve(modname, fname)
            f = self.mkfn(st, node, r[1], None)
        if strict:
            self.stricts = tuple(self.stricts) + (f.name,)
        v = self.call_fn(st, f, [], dict(args), None)
        return v, st


class SymComp(Exception):
    def __init__(self, it):
        self.it = it
