"""C03: every variant (serial, threaded, GPU) of an operation has the same normal form."""
import ast
from ssqlint import terms as T
from ssqlint.terms import Unsupported, sym
from ssqlint.kern import Array
from ssqlint.kset import KernelSet, Summ, same_kernel, FACTS
from ssqlint.project import dotted, jit_info, functions_of

TECHNIQUE = ('value numbering: variants reduced to guarded array writes in a common normal form '
             '(CUDA templates parsed to the same form) and compared')
EXPLANATION = ('Variant groups are found from names (X, X_par), from selections on a parallel/GPU flag, '
               'from the registries of CPU functions and CUDA kernels, and from GPU kernel names. Every '
               'member of a group is summarised - loops, guards, index and value terms over its '
               'parameters - and all members must have equal summaries. A difference of normal forms is '
               'withdrawn when random valuations of the terms cannot tell them apart.')
ASSUMPTIONS = ['single and double precision arithmetic are treated as exact',
               'norm(2, z) in CUDA code is the magnitude of z', 'all variants receive the same arguments (host side: C10, C17)']


def run(proj, rep):
    rep.rule('same-function', 'variants of one operation have the same normal form')
    ks = KernelSet(proj)
    units = Units(proj, ks)
    pairs = []
    seen = set()

    def add(a, b, how):
        k = tuple(sorted([id(a), id(b)]))
        if a is not b and k not in seen:
            seen.add(k)
            pairs.append((a, b, how))

    # 1. names
    for n, s in list(ks.cpu.items()):
        for suf in ('_par', 'p', '_parallel'):
            if n + suf in ks.cpu and ks.cpu[n + suf].mod is s.mod:
                add(s, ks.cpu[n + suf], 'names')
    # 2. selections on a flag
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.IfExp) and flagish(n.test):
                leaves = sel_leaves(n)
                ss = [units.get(m, x) for x in leaves]
                fs = [x for x in ss if x is not None]
                if len(fs) >= 2 and any(not isinstance(x, tuple) and x.jit for x in fs):
                    for x in fs[:-1]:
                        if isinstance(x, tuple) or isinstance(fs[-1], tuple):
                            bad = x if isinstance(x, tuple) else fs[-1]
                            rep.undecided('same-function', bad[0], bad[1])
                        else:
                            add(fs[-1], x, 'selected by ' + ast.unparse(n.test)[:60])
    # 3. registries
    reg = registries(proj, ks)
    for (mod, base), d in reg.items():
        items = list(d.values())
        for x in items[1:]:
            add(items[0], x, 'registry ' + base)
    # 4. GPU kernels against the CPU functions named after them
    for name, l in ks.gpu.items():
        for g in l:
            c = ks.cpu.get('_' + name)
            if c is not None:
                add(c, g, 'kernel name')
            if len(l) > 1 and g is not l[0]:
                add(l[0], g, 'kernel name')
    for (owner, key, kname, where) in kernel_keys(proj, ks):
        for (mod, base), d in reg.items():
            if base == key:
                for g in ks.gpu.get(kname, []):
                    add(list(d.values())[0], g, 'kernel table')
    for w, why in list(ks.undecided.items()) + list(ks.gpu_errors.items()):
        rep.undecided('same-function', w, why)
    for a, b, how in pairs:
        rep.count('pairs')
        rep.guard('same-function', '%s ~ %s' % (a.where, b.where), compare, a, b, how, rep)


def compare(a, b, how, rep):
    la, lb = tag(a), tag(b)
    c = '%s ~ %s' % (la, lb)
    pa, pb = a.sum.params, b.sum.params
    if not a.gpu and not b.gpu and pa != pb and sorted(pa) == sorted(pb):
        rep.undecided('same-function', c + ' (parameter order)', '%s / %s' % (pa, pb))
    r, text = same_kernel(a, b)
    if r == 'equal':
        rep.good('same-function', c, how + ': ' + text)
    elif r == 'differ':
        rep.violation('same-function', c, text, b.where)
    else:
        rep.undecided('same-function', c, text)


def tag(s):
    return s.where + (' (CUDA)' if s.gpu else '')


def flagish(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and ('parallel' in n.id.lower() or 'gpu' in n.id.lower()):
            return True
        if isinstance(n, ast.Attribute) and ('parallel' in n.attr.lower() or 'gpu' in n.attr.lower() or n.attr == 'is_tensor'):
            return True
    return False


def sel_leaves(n):
    out = []
    for x in (n.body, n.orelse):
        out += sel_leaves(x) if isinstance(x, ast.IfExp) else [x]
    return out


class Units:
    def __init__(s, proj, ks):
        s.proj, s.ks, s.cache = proj, ks, {}
        for u in ks.cpu.values():
            u.jit = True
            s.cache[id(u.node)] = u

    def get(s, mod, x):
        if not isinstance(x, ast.Name):
            return None
        r = s.proj.resolve(mod.name, x.id)
        if not r or r[0] != 'def' or not isinstance(r[2], ast.FunctionDef):
            return None
        node = r[2]
        if id(node) in s.cache:
            return s.cache[id(node)]
        # nested launches and wrappers are not kernels: only straight-line formulas
        K = s.ks.analyzer()
        K.mod = r[1]
        try:
            u = Summ(node.name, r[1], node, K.summarize(r[1], node))
            u.jit = False
        except (Unsupported, RecursionError) as e:
            u = ('%s:%s' % (r[1].rel, node.name), str(e))
        s.cache[id(node)] = u
        return u


def registries(proj, ks):
    """dict displays mapping names to jitted functions: {(module, base key): {key: Summ}}"""
    out = {}
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            items = []
            if isinstance(n, ast.Dict):
                items = [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and isinstance(k.value, str)]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict':
                items = [(k.arg, k.value) for k in n.keywords if k.arg]
            fs = []
            for k, v in items:
                if isinstance(v, ast.Name):
                    r = proj.resolve(m.name, v.id)
                    if r and r[0] == 'def' and r[2].name in ks.cpu and ks.cpu[r[2].name].node is r[2]:
                        fs.append((k, ks.cpu[r[2].name]))
            if len(fs) < 2:
                continue
            for k, u in fs:
                base = k[:-4] if k.endswith('_par') else k
                out.setdefault((m.name, base), {})[k] = u
    return {k: d for k, d in out.items()}


def kernel_keys(proj, ks):
    """(owner, key, kernel name, where) for kernel texts stored under a key."""
    out = []
    from ssqlint import gpuc
    names = {id(node): k.name for (m, owner, node, k) in ks.kernels}
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            items = []
            if isinstance(n, ast.Dict):
                items = [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict':
                items = [(k.arg, k.value) for k in n.keywords if k.arg]
            for k, v in items:
                if id(v) in names:
                    out.append((m.name, k, names[id(v)], m.rel))
    return out
