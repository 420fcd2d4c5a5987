"""C19: the library writes files only where the caller asks for it."""
import ast
from checks.hutil import *
from checks.hutil import H
from checks import scen
from checks.scen import Sc, val
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig, Ext
from ssqlint.project import functions_of, dotted

TECHNIQUE = 'effect analysis: every file-system effect site of the source is enumerated; its reachability is decided by abstract interpretation of the public functions, its target by backward dataflow to a parameter'
EXPLANATION = ('All calls that create, change or delete files (open in a writing mode, numpy/scipy/torch/matplotlib/os/shutil/pathlib writers, animation and array '
               'savers, subprocesses) are listed from the source. (1) The public functions are interpreted for a table of option combinations with pyfftw present '
               'and default or zero planning effort: none of these sites may be reached. (2) With planning effort 1 or 2 only the wisdom files in wisdom_dir may '
               'be written. (3) Each remaining site must write to a target derived from a parameter of its own function, and internal callers must pass that '
               'parameter on from a parameter of theirs or leave it unset.')
ASSUMPTIONS = ['code caches of Python and of the JIT compiler are not counted', 'functions of external libraries not in the list of writers do not write files']

WRITERS = {'os.' + n for n in ('remove', 'unlink', 'rename', 'renames', 'replace', 'mkdir', 'makedirs', 'rmdir', 'removedirs', 'truncate', 'chmod', 'chown', 'link', 'symlink',
                               'system', 'popen', 'mkfifo', 'open', 'write')}
WRITERS |= {'numpy.' + n for n in ('save', 'savez', 'savez_compressed', 'savetxt', 'memmap', 'lib.format.open_memmap')}
WRITERS |= {'torch.save', 'cupy.save', 'scipy.io.savemat', 'scipy.io.wavfile.write', 'matplotlib.pyplot.savefig', 'matplotlib.pyplot.imsave', 'pickle.dump', 'json.dump', 'marshal.dump',
            'logging.FileHandler', 'io.open', 'codecs.open', 'shelve.open', 'sqlite3.connect', 'joblib.dump', 'joblib.Memory', 'gzip.open', 'zipfile.ZipFile', 'tarfile.open',
            'pyfftw.export_wisdom_to_file', 'urllib.request.urlretrieve', 'logging.handlers.RotatingFileHandler'}
PREFIX = ('shutil.', 'tempfile.', 'subprocess.', 'multiprocessing.shared_memory.')
METHODS = {'savefig', 'tofile', 'write_text', 'write_bytes', 'mkdir', 'touch', 'unlink', 'rmdir', 'rename', 'symlink_to', 'hardlink_to', 'to_csv', 'to_pickle', 'to_hdf', 'dump', 'to_file', 'chmod', 'save'}
READ = ('r', 'rb', 'rt', 'br', 'tr')


def is_writer(name):
    return name in WRITERS or name.startswith(PREFIX)


def mode_of(m):
    if isinstance(m, K):
        return m.v
    return None


def effect(e):
    """description of a file-system effect event, or None"""
    if e.kind == 'open':
        p, m = e.data
        m = mode_of(m)
        if m in READ:
            return None
        return 'open(%s, %r)' % (short(p, 90), m), p
    if e.kind == 'file-write':
        return 'write to %s' % short(e.data[0], 90), e.data[0]
    if e.kind == 'ext' and is_writer(e.data[0]):
        return 'call of %s' % e.data[0], None
    if e.kind == 'opaque-meth' and e.data[1] in METHODS and e.data[1] not in ('save', 'dump', 'rename'):
        return '.%s() call' % e.data[1], e.data[0]
    return None


def post(s, h, r):
    ev = []
    for e in r.I.events:
        x = effect(e)
        if x is not None:
            ev.append((x[0], repr(x[1]), where(e), list(e.stack)))
    return r.why(), ev, r.ok or r.exc is not None


def planned():
    """FFT calls with explicit planning effort, pyfftw present"""
    out = []
    for f in ('fft', 'ifft', 'rfft', 'irfft'):
        for pat in (0, 1, 2, (1, 60), (2, None)):
            for cache in (False, True):
                def call(h, a, f=f, pat=pat, cache=cache):
                    F = h.I.call(h.st, h.glob('utils.fft_utils', 'FFT'), [], {'wisdom_dir': K('/chosen/dir'), 'cache_fft_objects': K(cache), 'verbose': K(0)}, None)
                    return scen.method(h, F, f, [h.arr('x', 'N', dt='float64' if f == 'rfft' else 'complex128')], {'patience': Tup([K(x) for x in pat]) if isinstance(pat, tuple) else K(pat)})
                out.append(Sc('FFT(cache_fft_objects=%s).%s(patience=%s)' % (cache, f, pat), 'utils.fft_utils', f, lambda h: {}, call=call))
    for wd in ('/chosen/dir', ''):
        def call(h, a, wd=wd):
            F = h.I.call(h.st, h.glob('utils.fft_utils', 'FFT'), [], {'wisdom_dir': K(wd), 'verbose': K(0)}, None)
            return scen.method(h, F, 'fft', [h.arr('x', 'N', dt='complex128')], {'patience': K(1)})
        out.append(Sc('FFT(wisdom_dir=%r).fft(patience=1)' % wd, 'utils.fft_utils', 'fft', lambda h: {}, call=call))
    return out


def allowed(label, p):
    if "wisdom_dir=''" in label:                 # documented: the package's utils directory
        return 'utils' in p
    return '/chosen/dir' in p


# ------------------------------------------------------------------ sites
def ext_name(proj, m, e):
    d = dotted(e)
    if not d:
        return None
    root, _, rest = d.partition('.')
    r = proj.resolve(m.name, root)
    if r is None:
        return ('builtins.' + d) if not rest else None
    if r[0] == 'ext':
        return r[1] + ('.' + rest if rest else '')
    if r[0] == 'mod' and rest:
        return ext_name_in(proj, r[1], rest)
    return None


def ext_name_in(proj, m, rest):
    head, _, tail = rest.partition('.')
    r = proj.resolve(m.name, head)
    if r and r[0] == 'ext':
        return r[1] + ('.' + tail if tail else '')
    return None


def owner_map(m):
    """node -> innermost enclosing function of each call, with the chain of enclosing functions"""
    out = []

    def rec(n, chain):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x]:
                    rec_e(d, chain)
                for b in c.body:
                    rec1(b, chain + [c])
            elif isinstance(c, ast.ClassDef):
                for b in c.body:
                    rec1(b, chain + [c])
            else:
                rec1(c, chain)

    def rec_e(n, chain):
        rec1(n, chain)

    def rec1(n, chain):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            w = ast.Module([n], [])
            rec(w, chain)
            return
        if isinstance(n, ast.Call):
            out.append((n, chain))
        rec(n, chain)
    rec(m.tree, [])
    return out


def call_sites(proj):
    """(module, call, chain, what, target expression) of every writer in the source"""
    out = []
    for m in proj.modules.values():
        local_imports = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    local_imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and not x.level:
                for a in x.names:
                    local_imports[a.asname or a.name] = '%s.%s' % (x.module, a.name)
        for c, chain in owner_map(m):
            f = c.func
            name = ext_name(proj, m, f)
            d = dotted(f)
            if d and (name is None or name.startswith('builtins.')):
                root, _, rest = d.partition('.')
                if root in local_imports:
                    name = local_imports[root] + ('.' + rest if rest else '')
            tgt = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg in ('file', 'fname', 'filename', 'path', 'fp')), None)
            if name in ('builtins.open', 'io.open'):
                mode = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == 'mode'), None)
                if mode is None or isinstance(mode, ast.Constant) and mode.value in READ:
                    continue
                out.append((m, c, chain, 'open(..., %s)' % ast.unparse(mode), tgt))
            elif name and is_writer(name):
                out.append((m, c, chain, name, tgt))
            elif name == 'logging.basicConfig' and any(k.arg == 'filename' for k in c.keywords):
                out.append((m, c, chain, name, next(k.value for k in c.keywords if k.arg == 'filename')))
            elif isinstance(f, ast.Attribute) and f.attr in METHODS and not (name and name.split('.')[0] in ('numpy', 'builtins') and False):
                if name and not is_writer(name) and name.split('.')[0] in ('numpy', 'os', 'torch'):
                    continue
                pathy = f.attr in ('mkdir', 'touch', 'unlink', 'rmdir', 'rename', 'symlink_to', 'hardlink_to', 'write_text', 'write_bytes', 'chmod')
                out.append((m, c, chain, '.' + f.attr, f.value if pathy else tgt))
    return out


def params_of(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def origins(fn_chain, e, depth=0, seen=None):
    """parameters, attributes and constants that an expression's value derives from, following local assignments"""
    seen = seen or set()
    fns = [f for f in fn_chain if isinstance(f, ast.FunctionDef)]
    out = set()

    def rec(x):
        if isinstance(x, ast.Name):
            if x.id in seen:
                return
            for f in reversed(fns):
                ps = params_of(f)
                defs = [s for s in walk_own(f) if assigns(s, x.id)]
                if defs or x.id in ps:
                    if x.id in ps and x.id != 'self':
                        out.add(('param', f.name, x.id))
                    seen.add(x.id)
                    for s in defs:
                        v = getattr(s, 'value', None) or getattr(s, 'iter', None)
                        if isinstance(s, ast.With):
                            for it in s.items:
                                rec(it.context_expr)
                        elif v is not None:
                            rec(v)
                    return
            out.add(('global', x.id))
        elif isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == 'self':
                out.add(('attr', x.attr))
            else:
                rec(x.value)
        elif isinstance(x, ast.Constant):
            if isinstance(x.value, (str, bytes)):
                out.add(('const', x.value))
        elif isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == 'getattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == 'self':
                out.add(('attr', ast.unparse(x.args[1])))
                return
            if isinstance(x.func, ast.Attribute):
                rec(x.func.value)
            elif isinstance(x.func, ast.Name):
                inner = next((s for f in fns for s in f.body if isinstance(s, ast.FunctionDef) and s.name == x.func.id), None)
                if inner is not None:
                    for s in ast.walk(inner):
                        if isinstance(s, ast.Return) and s.value is not None:
                            sub = origins(fns + [inner], s.value, depth + 1)
                            ps = params_of(inner)
                            for o in sub:
                                if o[0] == 'param' and o[1] == inner.name and o[2] in ps:
                                    i = ps.index(o[2])
                                    arg = x.args[i] if i < len(x.args) else next((k.value for k in x.keywords if k.arg == o[2]), None)
                                    if arg is not None:
                                        rec(arg)
                                else:
                                    out.add(o)
                    return
            for a in x.args:
                rec(a)
            for k in x.keywords:
                rec(k.value)
        else:
            for c in ast.iter_child_nodes(x):
                rec(c)
    rec(e)
    return out


def walk_own(f):
    stack = list(f.body)
    while stack:
        s = stack.pop()
        yield s
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(s))


def assigns(s, name):
    if isinstance(s, ast.Assign):
        return any(isinstance(n, ast.Name) and n.id == name for t in s.targets for n in ast.walk(t))
    if isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
        return isinstance(s.target, ast.Name) and s.target.id == name
    if isinstance(s, (ast.For, ast.comprehension)):
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s.target))
    if isinstance(s, ast.With):
        return any(it.optional_vars is not None and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(it.optional_vars)) for it in s.items)
    return False


def site_rules(proj, rep, reached):
    n = 0
    for m, c, chain, what, tgt in call_sites(proj):
        n += 1
        qn = '.'.join(f.name for f in chain) or '<module>'
        cons = '%s:%s: %s' % (m.name, qn, what)
        at = '%s:%d' % (m.rel, c.lineno)
        if any(r[1] == str(c.lineno) and m.name in r[0] for r in reached):
            rep.good('target-from-caller', cons, 'reached in the interpreted calls only with planning effort, and only for files in wisdom_dir')
            continue
        if not chain or all(isinstance(f, ast.ClassDef) for f in chain):
            rep.violation('target-from-caller', cons, 'executed at import: %s' % ast.unparse(c)[:100], at)
            continue
        if tgt is None:
            rep.violation('target-from-caller', cons, '%s writes to no path given by the caller' % ast.unparse(c)[:100], at)
            continue
        o = origins(chain, tgt)
        ps = {x for x in o if x[0] == 'param'}
        if ps:
            bad = None
            for caller, arg in passed(proj, chain, ps):
                if isinstance(arg, ast.Constant) and arg.value is not None and arg.value is not False:
                    bad = (caller, arg)
            if bad:
                rep.violation('target-from-caller', cons, 'internal caller %s passes the fixed path %s' % (bad[0], ast.unparse(bad[1])), at)
            else:
                rep.good('target-from-caller', cons, 'target derives from %s' % ', '.join(sorted('%s of %s' % (x[2], x[1]) for x in ps)))
        else:
            rep.violation('target-from-caller', cons, 'target %s derives from %s, from no parameter of the function' % (ast.unparse(tgt), sorted(map(str, o)) or 'nothing'), at)
    rep.count('file-system effect sites', n)


def passed(proj, chain, ps):
    """(caller, argument) for internal calls of the functions owning the parameters"""
    names = {(f, p) for _, f, p in ps}
    fns = {f.name: f for f in chain if isinstance(f, ast.FunctionDef)}
    for m in proj.modules.values():
        for c, ch in owner_map(m):
            d = dotted(c.func)
            nm = d.split('.')[-1] if d else None
            for f, p in names:
                if nm == f and f in fns and fns[f] not in ch:
                    prm = params_of(fns[f])
                    i = prm.index(p) - (1 if prm[:1] == ['self'] else 0)
                    a = c.args[i] if 0 <= i < len(c.args) else next((k.value for k in c.keywords if k.arg == p), None)
                    if a is not None:
                        yield '%s:%s' % (m.name, '.'.join(x.name for x in ch)), a


def run(proj, rep):
    rep.rule('no-write-by-default', 'with default or zero planning effort no file-system effect is reached')
    rep.rule('wisdom-only', 'with planning effort only files in wisdom_dir are written')
    rep.rule('target-from-caller', 'every site that writes a file writes to a target given by a parameter of the function, or is the planner\'s wisdom')
    ss = scen.all_scens(rep.tier)
    pl = planned()
    reached, flagged = set(), set()
    for s, v, err in scen.run_all(proj, ss + pl, post):
        rule = 'wisdom-only' if s in pl and 'patience=0' not in s.label else 'no-write-by-default'
        if err:
            rep.undecided(rule, s.label, err)
            continue
        why, ev, done = v
        bad = []
        for what, p, (c, at), stack in ev:
            reached.add((c, at.split(':')[-1]))
            if rule == 'wisdom-only' and allowed(s.label, p):
                continue
            bad.append(c)
            flagged.add((c, at.split(':')[-1]))
            rep.violation(rule, '%s: %s' % (c, what.split('(')[0].split(' to ')[0]), '%s reaches %s; call path %s' % (s.label, what, ' > '.join(stack)), at)
        if bad:
            continue
        if done:
            rep.good(rule, s.label, '%s; %d writes' % (why, len(ev)))
        else:
            rep.undecided(rule, s.label, why)
    rep.count('calls interpreted', len(ss) + len(pl))
    site_rules(proj, rep, reached - flagged)
