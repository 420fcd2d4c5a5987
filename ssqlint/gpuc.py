"""CUDA kernel templates -> Python syntax trees the loop-kernel summariser reads.

The kernels live as string templates in the Python source.  They are parsed with a small
recursive-descent parser for the C subset they use.  Thread coordinates become parallel
loops over the extent their guard allows; `${M}`-style placeholders become extents taken
from the declared array dimensions.
"""
import ast
import re


class CError(Exception):
    pass


TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|
   (?P<num>(?:\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\d+)[fFlLuU]*)|
   (?P<id>[A-Za-z_]\w*)|(?P<ph>\$\{\w+\}|\$\w+)|(?P<str>"[^"]*")|
   (?P<op>\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|->|[-+*/%<>=!&|^~?:;,.(){}\[\]])''', re.X | re.S)

TYPES = {'int', 'float', 'double', 'bool', 'unsigned', 'long', 'size_t', 'char', 'short', 'void', 'const'}


def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise CError('character %r' % s[i])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(('eof', ''))
    return out


class Param:
    def __init__(s, name, ctype, ptr, dims):
        s.name, s.ctype, s.ptr, s.dims = name, ctype, ptr, dims


class Kernel:
    """Parsed kernel: name, params, body (Python statements), placeholders used."""
    pass


class Parser:
    def __init__(self, code):
        self.placeholders = set(re.findall(r'\$\{?(\w+)\}?', code))
        # ${f} is a suffix of an identifier: drop it
        code = re.sub(r'(?<=\w)\$\{f\}', '', code)
        self.toks = tokenize(code)
        self.i = 0
        self.types = {}      # local -> declared type
        self.placed = {}

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise CError('expected %r, got %r' % (v, self.peek()[1]))

    # ---------------------------------------------------------------- kernel
    def kernel(self):
        k = Kernel()
        while self.peek()[1] != 'void':
            if self.peek()[0] == 'eof':
                raise CError('no kernel')
            self.next()
        self.next()
        k.name = self.next()[1]
        self.expect('(')
        k.params = []
        while not self.accept(')'):
            ct = self.type_()
            ptr = 0
            while True:
                if self.accept('*'):
                    ptr += 1
                elif self.peek()[1] in ('const', '__restrict__'):
                    self.next()
                else:
                    break
            name = self.next()[1]
            dims = []
            while self.accept('['):
                dims.append(None if self.peek()[1] == ']' else self.expr())
                self.expect(']')
            k.params.append(Param(name, ct, ptr, dims))
            self.accept(',')
        self.expect('{')
        self.ptrs = {p.name for p in k.params if p.ptr and not p.dims}
        self.ctypes = {p.name: p.ctype for p in k.params}
        k.body = self.block()
        k.types = self.ctypes
        k.placeholders = self.placeholders
        return k

    def is_type(self, k=0):
        t = self.peek(k)
        return (t[0] == 'id' and t[1] in TYPES) or t[1] == '${dtype}'

    def type_(self):
        parts = []
        while self.is_type():
            parts.append(self.next()[1])
        if not parts:
            raise CError('type expected at %r' % (self.peek()[1],))
        parts = [p for p in parts if p != 'const']
        return ' '.join(parts)

    def block(self):
        out = []
        while not self.accept('}'):
            if self.peek()[0] == 'eof':
                raise CError('unexpected end')
            out += self.stmt()
        return out

    def body(self):
        if self.accept('{'):
            return self.block()
        return self.stmt()

    def stmt(self):
        t = self.peek()
        if self.accept(';'):
            return []
        if self.accept('{'):
            return self.block()
        if t[0] == 'ph' and t[1] == '${extra}':
            self.next()
            self.accept(';')
            # host code substitutes  k = M - 1 - k;  or nothing
            return [ast.Expr(value=ast.Call(func=ast.Name(id='__extra__', ctx=ast.Load()), args=[], keywords=[]))]
        if self.is_type():
            ct = self.type_()
            out = []
            while True:
                while self.accept('*') or self.accept('const'):
                    pass
                name = self.next()[1]
                self.ctypes[name] = ct
                if self.accept('='):
                    out.append(self.assign_(name, self.expr()))
                if not self.accept(','):
                    break
            self.expect(';')
            return out
        if t[1] == 'if':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            body = self.body()
            els = []
            if self.accept('else'):
                els = self.body()
            return [ast.If(test=c, body=body or [ast.Pass()], orelse=els)]
        if t[1] == 'for':
            return self.for_()
        if t[1] == 'return':
            self.next()
            self.expect(';')
            return [ast.Return(value=None)]
        if t[1] == 'continue':
            self.next()
            self.expect(';')
            return [ast.Continue()]
        # expression statement
        lhs = self.expr()
        op = self.peek()[1]
        if op == '=':
            self.next()
            v = self.expr()
            self.expect(';')
            return [self.assign_(lhs, v)]
        if op in ('+=', '-=', '*=', '/='):
            self.next()
            v = self.expr()
            self.expect(';')
            o = {'+=': ast.Add(), '-=': ast.Sub(), '*=': ast.Mult(), '/=': ast.Div()}[op]
            return [ast.AugAssign(target=_store(lhs), op=o, value=v)]
        if op in ('++', '--'):
            self.next()
            self.expect(';')
            return [ast.AugAssign(target=_store(lhs), op=ast.Add() if op == '++' else ast.Sub(), value=_num(1))]
        self.expect(';')
        return [ast.Expr(value=lhs)]

    def assign_(self, lhs, v):
        if isinstance(lhs, str):
            lhs = ast.Name(id=lhs, ctx=ast.Load())
        if isinstance(lhs, ast.Name) and self.ctypes.get(lhs.id) in ('int', 'long', 'short', 'unsigned', 'unsigned int', 'long long'):
            v = ast.Call(func=ast.Name(id='__cint__', ctx=ast.Load()), args=[v], keywords=[])
        return ast.Assign(targets=[_store(lhs)], value=v, lineno=0)

    def for_(self):
        self.next()
        self.expect('(')
        if self.is_type():
            self.ctypes_t = self.type_()
        var = self.next()[1]
        self.ctypes[var] = 'int'
        self.expect('=')
        lo = self.expr()
        self.expect(';')
        v2 = self.next()[1]
        op = self.next()[1]
        hi = self.expr()
        self.expect(';')
        if v2 != var or op not in ('<', '<=', '!='):
            raise CError('for condition')
        if op == '<=':
            hi = ast.BinOp(left=hi, op=ast.Add(), right=_num(1))
        # increment
        if self.accept('++'):
            if self.next()[1] != var:
                raise CError('for step')
        else:
            if self.next()[1] != var:
                raise CError('for step')
            if self.accept('++'):
                pass
            elif self.accept('+='):
                st = self.expr()
                if not (isinstance(st, ast.Constant) and st.value == 1):
                    raise CError('for step')
            else:
                raise CError('for step')
        self.expect(')')
        body = self.body()
        it = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[lo, hi], keywords=[])
        return [ast.For(target=ast.Name(id=var, ctx=ast.Store()), iter=it, body=body or [ast.Pass()], orelse=[], lineno=0)]

    # ------------------------------------------------------------ expressions
    PREC = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def expr(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.expr()
            self.expect(':')
            b = self.expr()
            return ast.IfExp(test=c, body=a, orelse=b)
        return c

    def binary(self, lvl):
        if lvl == len(self.PREC):
            return self.unary()
        left = self.binary(lvl + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.PREC[lvl]:
            op = self.next()[1]
            right = self.binary(lvl + 1)
            if op in ('||', '&&'):
                left = ast.BoolOp(op=ast.Or() if op == '||' else ast.And(), values=[left, right])
            elif op in ('==', '!=', '<', '>', '<=', '>='):
                o = {'==': ast.Eq(), '!=': ast.NotEq(), '<': ast.Lt(), '>': ast.Gt(), '<=': ast.LtE(), '>=': ast.GtE()}[op]
                left = ast.Compare(left=left, ops=[o], comparators=[right])
            else:
                o = {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(), '/': ast.Div(), '%': ast.Mod()}[op]
                if op == '/' and self.int_expr(left) and self.int_expr(right):
                    o = ast.FloorDiv()
                left = ast.BinOp(left=left, op=o, right=right)
        return left

    def int_expr(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int)
        if isinstance(e, ast.Name):
            return self.ctypes.get(e.id) == 'int' or e.id.startswith('__ph_')
        if isinstance(e, ast.BinOp):
            return self.int_expr(e.left) and self.int_expr(e.right)
        return False

    def unary(self):
        if self.accept('!'):
            return ast.UnaryOp(op=ast.Not(), operand=self.unary())
        if self.accept('-'):
            return ast.UnaryOp(op=ast.USub(), operand=self.unary())
        if self.accept('+'):
            return self.unary()
        if self.accept('*'):
            e = self.unary()
            if not (isinstance(e, ast.Name) and e.id in self.ptrs):
                raise CError('dereference')
            return e
        if self.peek()[1] == '(' and self.is_type(1):
            self.next()
            ct = self.type_()
            self.expect(')')
            e = self.unary()
            if ct in ('int', 'long', 'long long'):
                return ast.Call(func=ast.Name(id='int', ctx=ast.Load()), args=[e], keywords=[])
            return e
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'num':
            s = v.rstrip('fFlLuU')
            e = _num(float(s) if any(c in s for c in '.eE') else int(s))
        elif k == 'id':
            e = ast.Name(id=v, ctx=ast.Load())
        elif k == 'ph':
            e = ast.Name(id='__ph_' + v.strip('${}'), ctx=ast.Load())
        elif v == '(':
            e = self.expr()
            self.expect(')')
        else:
            raise CError('token %r' % v)
        while True:
            if self.accept('['):
                ix = self.expr()
                self.expect(']')
                if isinstance(e, ast.Name) and e.id in self.ptrs and isinstance(ix, ast.Constant) and ix.value == 0:
                    continue          # gamma[0] is *gamma
                e = ast.Subscript(value=e, slice=ix, ctx=ast.Load())
            elif self.accept('('):
                args = []
                while not self.accept(')'):
                    args.append(self.expr())
                    self.accept(',')
                e = ast.Call(func=e, args=args, keywords=[])
            elif self.accept('.'):
                e = ast.Attribute(value=e, attr=self.next()[1], ctx=ast.Load())
            else:
                return e


def _num(v):
    return ast.Constant(value=v)


def _store(e):
    import copy
    e = copy.deepcopy(e)
    e.ctx = ast.Store()
    return e


def parse_kernel(code):
    return Parser(code).kernel()


# ------------------------------------------------------------------- find kernels
def kernel_strings(mod):
    """All CUDA kernel templates in a module: (owner, key, node, text)."""
    out = []

    def scan(node, owner):
        for ch in ast.iter_child_nodes(node):
            o = owner
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                o = (owner + '.' if owner else '') + ch.name
            if isinstance(ch, ast.Assign) and isinstance(ch.targets[0], ast.Name):
                o2 = owner or ch.targets[0].id
                scan(ch, o2)
                continue
            if isinstance(ch, ast.Constant) and isinstance(ch.value, str) and '__global__' in ch.value:
                out.append((owner, ch, ch.value))
            scan(ch, o)
    scan(mod.tree, '')
    return out


class Thread:
    """A thread coordinate variable: name, axis (x/y/z), guard extent expression."""
    def __init__(s, name, axis):
        s.name, s.axis, s.extent = name, axis, None


def _thread_axis(e):
    """blockIdx.a * blockDim.a + threadIdx.a -> axis, else None."""
    while isinstance(e, ast.Call) and getattr(e.func, 'id', '') in ('__cint__', 'int'):
        e = e.args[0]
    if not isinstance(e, ast.BinOp) or not isinstance(e.op, ast.Add):
        return None
    names = set()
    ax = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            names.add(n.value.id)
            ax.add(n.attr)
    if names == {'blockIdx', 'blockDim', 'threadIdx'} and len(ax) == 1:
        # product of the two block terms plus the thread term
        for a, b in ((e.left, e.right), (e.right, e.left)):
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mult) and isinstance(b, ast.Attribute) and b.value.id == 'threadIdx':
                return ax.pop()
        raise CError('thread index expression')
    if names & {'blockIdx', 'threadIdx', 'blockDim'}:
        raise CError('thread index expression')
    return None


def split_threads(body):
    """(threads, rest): peels thread coordinate definitions and their guards."""
    threads, rest = [], []
    for st in body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            ax = _thread_axis(st.value)
            if ax:
                threads.append(Thread(st.targets[0].id, ax))
                continue
        rest.append(st)
    byname = {t.name: t for t in threads}
    out = []

    def upper(c):
        """{thread: extent} if c is  t >= X  (exits the thread when outside)."""
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r, op = c.left, c.comparators[0], c.ops[0]
            if isinstance(l, ast.Name) and l.id in byname:
                if isinstance(op, ast.GtE):
                    return {l.id: r}
                if isinstance(op, ast.Gt):
                    return {l.id: ast.BinOp(left=r, op=ast.Add(), right=_num(1))}
            if isinstance(r, ast.Name) and r.id in byname:
                if isinstance(op, ast.LtE):
                    return {r.id: l}
                if isinstance(op, ast.Lt):
                    return {r.id: ast.BinOp(left=l, op=ast.Add(), right=_num(1))}
        if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.Or):
            d = {}
            for x in c.values:
                u = upper(x)
                if u is None:
                    return None
                d.update(u)
            return d
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return inside(c.operand)
        return None

    def inside(c):
        """{thread: extent} if c is  t < X."""
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r, op = c.left, c.comparators[0], c.ops[0]
            if isinstance(l, ast.Name) and l.id in byname:
                if isinstance(op, ast.Lt):
                    return {l.id: r}
                if isinstance(op, ast.LtE):
                    return {l.id: ast.BinOp(left=r, op=ast.Add(), right=_num(1))}
        if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And):
            d = {}
            for x in c.values:
                u = inside(x)
                if u is None:
                    return None
                d.update(u)
            return d
        return None

    for st in rest:
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Return):
            u = upper(st.test)
            if u:
                for n, x in u.items():
                    if byname[n].extent is None:
                        byname[n].extent = x
                continue
        if isinstance(st, ast.If) and not st.orelse and st is rest[-1]:
            u = inside(st.test)
            if u:
                for n, x in u.items():
                    if byname[n].extent is None:
                        byname[n].extent = x
                out += st.body
                continue
        out.append(st)
    return threads, out


class _Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        return ast.Continue()


class _Names(ast.NodeTransformer):
    """Placeholders -> names; __cint__ -> int; __extra__ -> flip."""
    def __init__(self, extra):
        self.extra = extra

    def visit_Expr(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == '__extra__':
            return self.extra
        return n

    def visit_Name(self, n):
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if getattr(n.func, 'id', '') == '__cint__':
            a = n.args[0]
            if isinstance(a, ast.Call) and getattr(a.func, 'id', '') == 'int':
                return a
            return ast.Call(func=ast.Name(id='int', ctx=ast.Load()), args=[a], keywords=[])
        return n


def flip_stmt(var='k', ext='M'):
    """if flipud: k = M - 1 - k"""
    return ast.parse('if flipud:\n    %s = __ph_%s - 1 - %s' % (var, ext, var)).body


def to_function(k, extra=None):
    """Kernel -> (FunctionDef, threads).  Missing guards leave thread.extent None."""
    import copy
    threads, rest = split_threads(copy.deepcopy(k.body))
    tr = _Names(extra if extra is not None else flip_stmt())
    body = []
    for st in rest:
        r = tr.visit(st)
        body += r if isinstance(r, list) else [r]
    body = [_Ret().visit(s) for s in body] or [ast.Pass()]
    has_extra = 'extra' in k.placeholders
    for t in reversed(threads):
        ext = t.extent if t.extent is not None else ast.Name(id='__grid_%s' % t.axis, ctx=ast.Load())
        body = [ast.For(target=ast.Name(id=t.name, ctx=ast.Store()),
                        iter=ast.Call(func=ast.Name(id='prange', ctx=ast.Load()), args=[ext], keywords=[]),
                        body=body, orelse=[], lineno=0)]
    names = [p.name for p in k.params]
    if has_extra:
        names = names + ['flipud']
    names += sorted('__ph_' + p for p in k.placeholders if p not in ('dtype', 'f', 'extra'))
    fn = ast.FunctionDef(name=k.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body, decorator_list=[], lineno=0)
    ast.fix_missing_locations(fn)
    return fn, threads
