"""C24: computations are deterministic."""
import ast
from checks.hutil import *
from checks.hutil import H
from checks import scen
from checks.scen import Sc, val
from checks.c19 import owner_map, ext_name
from ssqlint import terms as T
from ssqlint.flow import Unsup, RaiseSig, Ext
from ssqlint.project import dotted
from ssqlint.kset import KernelSet

TECHNIQUE = 'effect analysis: interpretation of every public function watching for reads of hidden inputs (clock, random generators, object identity, uninitialised memory), plus enumeration of all such sites and of iterations over sets'
EXPLANATION = ('Every public function is interpreted on symbolic inputs for a table of option combinations. A call that reads a clock, a random generator, the '
               'process or object identity is a violation on every path that reaches it, and so is returning memory that was allocated and not filled. For test '
               'signals with noise, each draw must follow a seeding with exactly the seed the caller gave (including 0), or with no seed given come from the '
               'documented global generator. All such sites in the source are listed; a site never reached by an interpreted public call is reported as outside '
               'the claim. Loops and conversions that take elements of a set in iteration order are listed and must not depend on the order.')
ASSUMPTIONS = ['external functions other than the listed ones are deterministic', 'thread scheduling is covered by C01']
PREF = ('time.', 'datetime.', 'random.', 'numpy.random.', 'torch.rand', 'torch.normal', 'torch.randn', 'secrets.', 'uuid.', 'timeit.', 'cupy.random.', 'scipy.stats.')
NAMES = {'os.urandom', 'os.getpid', 'os.times', 'builtins.id', 'builtins.hash', 'builtins.object', 'platform.node', 'socket.gethostname', 'torch.initial_seed', 'torch.seed', 'os.listdir', 'glob.glob',
         'threading.get_ident', 'os.getppid', 'os.getloadavg', 'resource.getrusage', 'gc.get_count', 'sys.getrefcount'}
SEEDERS = ('numpy.random.seed', 'numpy.random.RandomState', 'numpy.random.default_rng', 'random.seed', 'numpy.random.Generator', 'numpy.random.PCG64')


GENS = ('RandomState', 'default_rng', 'random.Generator', 'random.Random', 'random.SystemRandom')


def only_atom(p):
    m = getattr(p, 'm', None)
    if not m or len(m) != 1:
        return None
    (k, c), = m.items()
    return k[0][0] if c == 1 and len(k) == 1 and k[0][1] == 1 else None


def hidden(name):
    return name in NAMES or name.startswith(PREF)


def nondet(e):
    if e.kind == 'ext' and hidden(e.data[0]):
        return e.data[0], e.data[1], e.data[2]
    if e.kind in ('opaque-meth', 'opaque-call'):
        # a draw is a method of a generator object, not of an array drawn before
        a = only_atom(e.data[0])
        if a is not None and any(('%s' % a[0]).endswith(x) or (len(a) > 1 and str(a[1]).endswith(x)) for x in GENS):
            return 'generator.%s' % (e.data[1] if e.kind == 'opaque-meth' else '()'), e.data[2], e.data
    return None


_ACC = {}


def accumulators(proj):
    """(kernel name, parameter) pairs whose previous contents enter the result"""
    k = str(proj.repo)
    if k not in _ACC:
        out = set()
        ks = KernelSet(proj)
        for name, ss in [(n, [s]) for n, s in ks.cpu.items()] + [('gpu:' + n, l) for n, l in ks.gpu.items()]:
            for s in ss:
                try:
                    es = s.effects()
                except Exception:
                    continue
                for t in {e.target for e in es}:
                    mine = [e for e in es if e.target == t]
                    if all(e.op != '=' for e in mine):
                        out.add((name, t))
        _ACC[k] = out
    return _ACC[k]


def garbage(b, acc, sub):
    """b with the contents of unfilled memory renamed; arguments a kernel overwrites dropped"""
    def f(a):
        if a[0] == 'uninit':
            return A(sub)
        if a[0] == 'kern' and isinstance(a[3], tuple):
            name, out = a[1], a[2]
            terms = []
            for q, t in a[3]:
                if q == out and (name, q) not in acc:
                    continue
                terms.append((q, T._subst_any(t, f)))
            return A(a[:3] + (tuple(terms),) + tuple(T._subst_any(x, f) for x in a[4:]))
        return None
    return T.subst(b, f)


def has_uninit(b):
    hit = []
    T.walk(b, lambda a: hit.append(1) if a[0] == 'uninit' else None)
    return bool(hit)


def unfilled(r, acc=()):
    """(label, why) of returned arrays whose elements depend on memory that was never filled"""
    out = []
    if not r.ok:
        return out

    def rec(v, lbl):
        v = r.I.simp(r.st, v)
        if isinstance(v, Tup):
            for i, x in enumerate(v.items):
                rec(x, '%s[%d]' % (lbl, i))
        elif isinstance(v, AV):
            b = r.I.abody(r.st, v)
            if has_uninit(b):
                sh = r.I.ashape(r.st, v)
                p, q = (garbage(b, acc, ('sym', g)) for g in ('#g1', '#g2'))
                if p != q and same(p, q, r.I.facts, inb(*enumerate(sh)))[0] == 'ne':
                    out.append((lbl, short(b)))
    rec(r.v, 'result')
    return out


def post(s, h, r):
    acc = accumulators(h.proj)
    ev = []
    for e in r.I.events:
        x = nondet(e)
        if x is not None:
            ev.append((x[0], [repr(a) for a in x[1]] if isinstance(x[1], (list, tuple)) else [], where(e), list(e.stack)))
    return r.why(), ev, unfilled(r, acc), r.ok or r.exc is not None


def noise():
    """(scenario, seed) with noise added"""
    out = []
    for seed in (None, 0, 7):
        for snr in (3, 0, -2.):
            for via in ('init', 'params'):
                for sigs in (['lchirp'], ['cosine', '#echirp'], ['lchirp:am-cosine']):
                    def call(h, a, seed=seed, snr=snr, via=via, sigs=sigs):
                        kw = {'N': h.num('N', 'pyint')}
                        if via == 'init':
                            kw['snr'] = K(snr)
                        if seed is not None:
                            kw['seed'] = K(seed)
                        ts = h.I.call(h.st, h.glob('_test_signals', 'TestSignals'), [], kw, None)
                        L = [K(x) if via == 'init' else Tup([K(x), Tup([scen.mkdict(h, 'p', {'snr': K(snr)}), scen.mkdict(h, 'q', {})]) if ':' in x else scen.mkdict(h, 'p', {'snr': K(snr)})]) for x in sigs]
                        return scen.method(h, ts, 'make_signals', [scen.mklist(h, 'signals', L)], {})
                    out.append((Sc('TestSignals(%s%s).make_signals(%s%s)' % ('snr=%s, ' % snr if via == 'init' else '', 'seed=%s' % seed, sigs, ' with snr=%s' % snr if via != 'init' else ''),
                                   '_test_signals', 'TestSignals', lambda h: {}, call=call), seed, len(sigs)))
    return out


def check_noise(rep, s, seed, n, v):
    why, ev, _, done = v
    if not done or 'raises' in why:
        rep.undecided('noise-seeded', s.label, why)
        return
    cur, bad, draws = None, [], 0
    for name, args, (c, at), stack in ev:
        if name in SEEDERS:
            cur = args[0] if args else None
        else:
            draws += 1
            if seed is not None and cur != repr(K(seed)):
                bad.append((name, c, at, stack, cur))
    # adding noise to two signals needs two draws; zero draws = noise not added (C11)
    for name, c, at, stack, cur in bad:
        rep.violation('noise-seeded', '%s: %s with seed %s' % (c, name, 'zero' if seed == 0 else 'given'), '%s: %s draws %s; call path %s' % (
            s.label, name, 'without seeding the generator' if cur is None else 'from a generator seeded with %s' % cur, ' > '.join(stack)), at)
    if not bad:
        rep.good('noise-seeded', s.label, '%d draws, each after seeding with %s' % (draws, seed) if seed is not None else '%d draws from the documented global generator' % draws)


# ------------------------------------------------------------------ sets
ORDER_FREE = {'sorted', 'min', 'max', 'len', 'any', 'all', 'set', 'frozenset', 'sum_', 'isinstance'}


def set_typed(proj, m, e, env):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return set_typed(proj, m, e.left, env) or set_typed(proj, m, e.right, env)
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        r = proj.resolve(m.name, e.id)
        return bool(r and r[0] == 'assign' and getattr(r[2], 'value', None) is not None and isinstance(r[2], ast.Assign) and isinstance(r[2].targets[0], ast.Name) and
                    set_typed(proj, r[1], r[2].value, {}))
    if isinstance(e, ast.Attribute):
        for mm in proj.modules.values():
            for c in ast.walk(mm.tree):
                if isinstance(c, ast.ClassDef):
                    for s in c.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in s.targets):
                            if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls', c.name) or isinstance(e.value, ast.Attribute):
                                return set_typed(proj, mm, s.value, {})
    return False


def local_sets(proj, m, fn):
    env = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            nm = s.targets[0].id
            env[nm] = set_typed(proj, m, s.value, {}) and env.get(nm, True)
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        env.setdefault(p.arg, False)
    return env


def free_body(loop):
    """does the loop body store per element only, independent of other iterations?"""
    v = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    for s in loop.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            d = dotted(s.value.func)
            if d in ('setattr', 'delattr', 'getattr') and any(isinstance(n, ast.Name) and n.id in v for n in ast.walk(s.value.args[1])):
                continue
            if d and d.split('.')[-1] in ('add', 'discard', 'pop'):
                continue
            return False
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Subscript) and any(isinstance(n, ast.Name) and n.id in v for n in ast.walk(t.slice)) for t in s.targets):
            continue
        if isinstance(s, (ast.Raise, ast.Pass, ast.Assert)):
            continue
        if isinstance(s, ast.If) and all(isinstance(x, (ast.Raise, ast.Pass, ast.Continue)) for x in s.body + s.orelse):
            continue
        return False
    return True


def set_rules(proj, rep):
    n = 0
    for m in proj.modules.values():
        fns = [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)]
        for fn in fns:
            env = local_sets(proj, m, fn)
            parents = {c: p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}
            for x in ast.walk(fn):
                it = None
                if isinstance(x, ast.For):
                    it = x.iter
                elif isinstance(x, ast.comprehension):
                    it = x.iter
                elif isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and x.args:
                    nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                    if nm in ('list', 'tuple', 'enumerate', 'zip', 'map', 'array', 'asarray', 'join', 'iter', 'sum', 'hstack', 'stack'):
                        it = next((a for a in x.args if set_typed(proj, m, a, env)), None)
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'list', 'tuple', 'zip', 'reversed', 'map') and it.args:
                    it = next((a for a in it.args if set_typed(proj, m, a, env)), it.args[0])
                if it is None or not set_typed(proj, m, it, env):
                    continue
                n += 1
                c = '%s:%s: over %s' % (m.name, fn.name, ast.unparse(it)[:60])
                at = '%s:%d' % (m.rel, getattr(x, 'lineno', it.lineno))
                p, ok = x, None
                while p is not None and p is not fn:
                    if isinstance(p, ast.Raise):
                        ok = 'only in an error message'
                        break
                    if isinstance(p, ast.Call) and p is not x and isinstance(p.func, ast.Name) and (p.func.id in ORDER_FREE or p.func.id in ('WARN', 'NOTE', 'print')):
                        ok = 'consumed by %s' % p.func.id
                        break
                    if isinstance(p, (ast.SetComp,)):
                        ok = 'into a set'
                        break
                    p = parents.get(p)
                if ok is None and isinstance(x, ast.For) and free_body(x):
                    ok = 'each iteration stores to its own element'
                if ok:
                    rep.good('set-order', c, ok)
                elif fn.name.startswith('_viz') or 'viz' in fn.name:
                    rep.undecided('set-order', c, 'plotting order')
                else:
                    rep.violation('set-order', c, 'elements of a set are taken in iteration order, which varies between processes', at)
    rep.count('iterations over sets', n)


def sites(proj, rep, reached):
    n = 0
    for m in proj.modules.values():
        local = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    local[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and not x.level:
                for a in x.names:
                    local[a.asname or a.name] = '%s.%s' % (x.module, a.name)
        for c, chain in owner_map(m):
            name = ext_name(proj, m, c.func)
            d = dotted(c.func)
            if d and d.split('.')[0] in local:
                root, _, rest = d.partition('.')
                name = local[root] + ('.' + rest if rest else '')
            if name is None or not hidden(name):
                continue
            n += 1
            qn = '.'.join(f.name for f in chain) or '<module>'
            cons = '%s:%s: %s' % (m.name, qn, name)
            if not chain:
                rep.violation('no-hidden-input', cons, 'executed at import', '%s:%d' % (m.rel, c.lineno))
            elif any(qn.split('.')[-1] in st for st in reached):
                rep.good('sites', cons, 'reached by interpreted calls, which decide it')
            else:
                rep.undecided('sites', cons, 'in a function no interpreted public computation reaches')
    rep.count('sites reading hidden inputs', n)


def run(proj, rep):
    rep.rule('no-hidden-input', 'no public computation reads a clock, a random generator, object identity or unfilled memory')
    rep.rule('noise-seeded', 'test-signal noise is drawn after seeding with exactly the seed given')
    rep.rule('set-order', 'no value depends on the iteration order of a set')
    rep.rule('sites', 'every site reading a hidden input lies in a function the interpreted calls decide')
    ss = scen.all_scens(rep.tier)
    nz = noise()
    meta = {s.label: (sd, n) for s, sd, n in nz}
    reached = set()
    for s, v, err in scen.run_all(proj, ss + [x[0] for x in nz], post):
        noisy = s.label in meta
        rule = 'noise-seeded' if noisy else 'no-hidden-input'
        if err:
            rep.undecided(rule, s.label, err)
            continue
        why, ev, un, done = v
        for e in ev:
            reached |= {f.split(':')[-1] for f in e[3]}
        if noisy:
            check_noise(rep, s, *meta[s.label], v)
            continue
        # signals with an explicit snr and no seed draw from the documented generator
        ev = [e for e in ev if not ("'snr'" in s.label and 'TestSignals' in s.label)]
        for name, args, (c, at), stack in ev:
            rep.violation('no-hidden-input', '%s: %s' % (c, name), '%s reaches %s; call path %s' % (s.label, name, ' > '.join(stack)), at)
        for lbl, b in un:
            rep.violation('no-hidden-input', '%s: unfilled %s' % (s.fn, lbl), '%s returns memory that was allocated and not filled (%s): %s' % (s.label, lbl, b), s.mod)
        if not ev and not un:
            (rep.good if done else rep.undecided)('no-hidden-input', s.label, why)
    rep.count('calls interpreted', len(ss) + len(nz))
    set_rules(proj, rep)
    sites(proj, rep, reached)
