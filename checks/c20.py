"""C20: configs.ini supplies exactly the parameters left unset."""
import ast
import itertools
import os
from checks.hutil import *
from checks.hutil import H
from ssqlint.flow import Unsup, RaiseSig

TECHNIQUE = 'call-site/configuration-file cross-check plus abstract interpretation under rewritten configs.ini contents, comparing resulting terms'
EXPLANATION = ('configs.ini is parsed independently and matched with every gdefaults call: section and object exist, the keys passed are listed, '
               'listed keys are parameters of the function with default None. Each backed function is interpreted for every subset of its '
               'configured parameters given explicitly (falsy values included) while configs.ini holds other values; the result must equal the one '
               'obtained with everything left unset and configs.ini holding the merged values. gdefaults itself and the file parser are interpreted '
               'on symbolic arguments and on differently formatted but equivalent files; the string, tuple and function forms of a wavelet are compared.')
ASSUMPTIONS = ['configs.ini is the file beside configs.py and is read as text', 'the wavelet terms are compared as formulas over the frequency axis']
INI = 'configs.ini'


def ini_lines(proj):
    with open(os.path.join(proj.repo, 'ssqueezepy', INI), encoding='utf-8') as f:
        return f.read().split('\n')


def parse(lines):
    """{(module, object): {key: text}} and the line of each key; own reading of the documented format"""
    out, at = {}, {}
    mod = obj = None
    for n, l in enumerate(lines):
        l = l.strip()
        if l.startswith('#### END'):
            break
        if l.startswith('## '):
            mod, obj = l[3:].strip(), None
        elif l.startswith('# '):
            obj = l[2:].strip()
            out[(mod, obj)] = {}
        elif '=' in l and not l.startswith('#'):
            k, v = [s.strip() for s in l.split('=', 1)]
            out.setdefault((mod, obj), {})[k] = v.strip('"').strip("'")
            at[(mod, obj, k)] = n
    return out, at


def rewritten(proj, vals, fmt='%s=%s'):
    """text of configs.ini with {(module, object, key): value} replaced"""
    lines = ini_lines(proj)
    _, at = parse(lines)
    for k, v in vals.items():
        if k in at:
            lines[at[k]] = fmt % (k[2], v)
    return '\n'.join(lines)


def num_or(s):
    if s in ('None', 'True', 'False'):
        return {'None': None, 'True': True, 'False': False}[s]
    try:
        return float(s)
    except ValueError:
        return s


def run(proj, rep):
    rep.rule('entries', 'configs.ini and the gdefaults call sites list the same parameters')
    rep.rule('defaults', 'a parameter with an entry in configs.ini is left unset by default')
    rep.rule('unset', 'unset parameters take the configured value, given ones (falsy included) are used as given')
    rep.rule('effect', 'the configured value of each parameter reaches the result')
    rep.rule('gdefaults', 'gdefaults fills None values only, keeps order and the other values')
    rep.rule('format', 'equivalent spellings of an entry are read alike')
    rep.rule('forms', 'string, tuple and function forms of a wavelet agree')
    entries, _ = parse(ini_lines(proj))
    sites(proj, rep, entries)
    unpacking(proj, rep)
    for (mod, obj), keys in sorted(entries.items()):
        rep.count('entries', len(keys))
        if (mod, obj) == ('configs', 'IS_PARALLEL'):
            continue                                        # decided by C10
        rep.guard('unset', '%s.%s' % (mod, obj), backed, proj, rep, mod, obj, keys)
    rep.guard('gdefaults', 'configs.gdefaults', generic, proj, rep, entries)
    rep.guard('format', 'configs._get_gdefaults', spelling, proj, rep, entries)
    for w in ('morlet', 'bump', 'cmhat', 'hhhat', 'gmw'):
        rep.guard('forms', w, forms, proj, rep, w, entries)


# ------------------------------------------------------------------ call sites
def sites(proj, rep, entries):
    used = set()
    for name, m in sorted(proj.modules.items()):
        for fn, node in functions(m.tree):
            for c in ast.walk(node):
                if not (isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == 'gdefaults' or
                                                     isinstance(c.func, ast.Attribute) and c.func.attr == 'gdefaults')):
                    continue
                if any(c in ast.walk(f2) for _, f2 in functions(node) if f2 is not node):
                    continue
                rep.count('call sites')
                key = '%s:%s' % (m.rel, fn)
                where_ = '%s:%d' % (m.rel, c.lineno)
                a = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == 'module_and_obj'), None)
                if a is None:
                    mod, obj = name[len('ssqueezepy.'):].split('.')[-1], fn.split('.')[-1]
                    objs = [(mod, obj)]
                elif isinstance(a, ast.Constant):
                    mod, _, obj = a.value.rpartition('.')
                    objs = [(mod, obj)]
                elif isinstance(a, ast.JoinedStr):
                    objs = None                              # computed name: decided by `forms`
                else:
                    objs = None
                if objs is None:
                    rep.good('entries', key + ' (computed name)', 'decided by the forms rule')
                    continue
                for mo in objs:
                    used.add(mo)
                    if mo not in entries:
                        rep.violation('entries', key, 'no entry %s / %s in configs.ini' % mo, where_)
                        continue
                    if c.keywords and any(k.arg is None for k in c.keywords):
                        rep.good('entries', key, 'keywords computed')
                        continue
                    kws = [k.arg for k in c.keywords if k.arg not in ('get_all', 'as_dict', 'default_order', 'module_and_obj')]
                    miss = [k for k in kws if k not in entries[mo]]
                    if miss:
                        rep.violation('entries', key, 'configs.ini has no value for %s of %s' % (', '.join(miss), mo[1]), where_)
                    else:
                        rep.good('entries', key, ', '.join(kws))
    for (mod, obj), keys in sorted(entries.items()):
        m = proj.modules.get('ssqueezepy.' + mod)
        key = '%s.%s' % (mod, obj)
        f = None
        if m is not None:
            f = next((n for fn, n in functions(m.tree) if fn == obj), None)
        if f is None:
            rep.violation('entries', key, 'configs.ini lists %s, which does not exist' % key, 'ssqueezepy/configs.ini')
            continue
        a = f.args
        names = [x.arg for x in a.args]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        bad = []
        for k in keys:
            if k in dflt and not (isinstance(dflt[k], ast.Constant) and dflt[k].value is None):
                bad.append('%s defaults to %s, configs.ini is never consulted' % (k, ast.unparse(dflt[k])))
        if bad:
            rep.violation('defaults', key, '; '.join(bad), '%s:%d' % (m.rel, f.lineno))
        else:
            rep.good('defaults', key, ', '.join(keys))


def unpacking(proj, rep):
    """names bound from gdefaults(a=.., b=..) are the keywords, in their order"""
    for name, m in sorted(proj.modules.items()):
        for fn, node in functions(m.tree):
            for s in ast.walk(node):
                if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and
                        (s.value.func.id if isinstance(s.value.func, ast.Name) else s.value.func.attr) == 'gdefaults'):
                    continue
                t = s.targets[0]
                if not (isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts)):
                    continue
                ks = [k.arg for k in s.value.keywords if k.arg not in ('get_all', 'as_dict', 'default_order', 'module_and_obj')]
                ts = [x.id for x in t.elts]
                key = '%s:%s unpacking' % (m.rel, fn)
                if sorted(x for x in ks if x) == sorted(ts) and ks != ts:
                    rep.violation('gdefaults', key, 'values of %s are bound to %s' % (', '.join(ks), ', '.join(ts)), '%s:%d' % (m.rel, s.lineno))
                elif ks == ts:
                    rep.good('gdefaults', key)


def functions(tree, prefix=''):
    for n in getattr(tree, 'body', []):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = prefix + n.name
            if isinstance(n, ast.FunctionDef):
                yield q, n
            yield from functions(n, q + '.')


# ------------------------------------------------------------------ backed functions
VAL = {'gamma': ['2', '4'], 'beta': ['20', '30', '0'], 'norm': ['bandpass', 'energy'], 'order': ['0', '1'], 'centered_scale': ['False', 'True'],
       'dtype': ['float64', 'float32'], 'mu': ['7', '0', '3'], 's': ['2', '3'], 'om': ['0', '4'], 'downsample': ['3', '5'],
       'fontsize': ['9', '0'], 'weight': ['light', 'normal'], 'loc': ['right', 'center']}


def pairs(key, cur):
    """(explicit, configured) value texts to try for a parameter"""
    vs = VAL.get(key)
    if vs is None:
        vs = [cur, '2', '5'] if isinstance(num_or(cur), float) else None
    if not vs:
        return []
    out = [(vs[0], vs[1]), (vs[1], vs[0])]
    out += [(v, vs[0]) for v in vs[2:]]
    return out


def observe(proj, mod, obj, given, ini, extra=None):
    """(comparable value, reason) of calling mod.obj with parameters `given` under configs.ini `ini`"""
    text = rewritten(proj, {(mod, obj, k): v for k, v in ini.items()})
    conv = {k: conv_(k, v) for k, v in given.items()}
    if mod in ('wavelets', '_gmw'):
        h = H(proj, 'log', psi=None, files={INI: text})
        r = h.run(mod, obj, conv)
        if not r.ok:
            return None, r.why()
        T._FACTS.append(h.facts)
        try:
            v = r.I.simp(r.st, r.I.call(r.st, r.I.simp(r.st, r.v), [h.arr('w', 'N')], {}, None))
            if not isinstance(v, AV):
                return None, '%r' % (v,)
            return (r.I.abody(r.st, v), r.I.adt(r.st, v)), ''
        except (Unsup, RaiseSig) as e:
            return None, str(e)
        finally:
            T._FACTS.pop()
    if (mod, obj) == ('_stft', 'stft'):
        h = H(proj, 'log', files={INI: text})
        r = h.run(mod, obj, dict(x=h.arr('x', 'N'), window=h.arr('win', 'nf'), n_fft=h.num('nf', 'pyint'), **conv))
        if not r.ok:
            return None, r.why()
        v = r.I.simp(r.st, r.items()[0] if r.items() else r.v)
        if not isinstance(v, AV):
            return None, '%r' % (v,)
        return (r.I.abody(r.st, v), r.I.adt(r.st, v)), ''
    if (mod, obj) == ('utils.cwt_utils', 'make_scales'):
        h = H(proj, 'log', files={INI: text}, models={('utils.cwt_utils', 'find_downsampling_scale'): const_model(Num(sym('idx'), 'pyint'))},
              ints=('idx',), pos=('idx', 'mn', 'mx'))
        r = h.run(mod, obj, dict(N=h.num('N', 'pyint'), min_scale=h.num('mn', 'pyfloat'), max_scale=h.num('mx', 'pyfloat'), nv=K(32),
                                 scaletype=K('log-piecewise'), wavelet=K('gmw'), **conv))
        if not r.ok:
            return None, r.why()
        v = r.I.simp(r.st, r.v)
        if not isinstance(v, AV):
            return None, '%r' % (v,)
        return (r.I.abody(r.st, v), tuple(map(str, r.I.ashape(r.st, v)))), ''
    if (mod, obj) == ('visuals', '_maybe_title'):
        h = H(proj, 'log', files={INI: text})
        from ssqlint.flow import DictC
        d = Ref(h.I.new(h.st, DictC({k: K(v) for k, v in conv.items()})))
        r = h.run(mod, obj, dict(title=Tup([K('t'), d]) if conv else K('t')))
        if not r.ok:
            return None, r.why()
        es = [e for e in r.ev('ext') if 'title' in str(e.data[0])]
        if len(es) != 1:
            return None, 'no title call'
        return tuple(sorted((k, plain(r.I.simp(r.st, v))) for k, v in es[0].data[2].items())), ''
    return None, 'no model of this function'


def plain(v):
    return float(v.v) if isinstance(v, K) and isinstance(v.v, (int, float)) else repr(v)


def conv_(k, s):
    v = num_or(s)
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return v


def agree(a, b):
    if a == b:
        return 'eq', ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[0], Poly) and isinstance(b[0], Poly):
        if a[1] != b[1]:
            return 'ne', 'type or shape %s instead of %s' % (a[1], b[1])
        from ssqlint.terms import Facts
        s, w = same(a[0], b[0], Facts(pos={'N', 'nf', 'idx', 'mn', 'mx'}, ints={'N', 'nf', 'idx'}))
        return s, w
    return 'ne', '%s instead of %s' % (a, b)


def backed(proj, rep, mod, obj, keys):
    m = proj.modules['ssqueezepy.' + mod]
    key = '%s:%s' % (m.rel, obj)
    names = [k for k in keys if pairs(k, keys[k])]
    base = {k: keys[k] for k in keys}
    cache = {}

    def obs(given, ini):
        t = (tuple(sorted(given.items())), tuple(sorted(ini.items())))
        if t not in cache:
            cache[t] = observe(proj, mod, obj, given, ini)
        return cache[t]

    # each parameter alone, both directions, falsy included
    for k in names:
        bad, und, eff = [], [], None
        for e, c in pairs(k, keys[k]):
            if obj == 'gmw' and k == 'norm':
                ini0 = dict(base, dtype='float64')
            else:
                ini0 = base
            a, wa = obs({k: e}, dict(ini0, **{k: c}))
            b, wb = obs({}, dict(ini0, **{k: e}))
            d, wd = obs({}, dict(ini0, **{k: c}))
            rep.count('configurations', 3)
            if a is None and b is None and wa == wb:
                continue                                     # refused alike
            if a is None or b is None:
                if (a is None) != (b is None) and ('raises' in (wa + wb)):
                    bad.append('%s=%s given: %s; configured: %s' % (k, e, wa or 'accepted', wb or 'accepted'))
                else:
                    und.append((wa or wb)[:160])
                continue
            s, w = agree(a, b)
            if s == 'ne':
                bad.append('%s=%s given explicitly with configs.ini %s=%s does not give the result of configs.ini %s=%s (%s)' % (k, e, k, c, k, e, w))
            elif s != 'eq':
                und.append(w)
            if d is not None:
                s2, _ = agree(b, d)
                eff = 'ne' if s2 == 'ne' else (eff or s2)
        q = '%s %s' % (key, k)
        if bad:
            rep.violation('unset', q, bad[0][:400], m.rel)
        elif und:
            rep.undecided('unset', q, und[0])
        else:
            rep.good('unset', q)
        if eff == 'ne':
            rep.good('effect', q)
        elif eff == 'eq':
            rep.violation('effect', q, 'changing %s in configs.ini changes nothing' % k, m.rel)
        elif not bad:
            rep.undecided('effect', q, 'not compared')
    # subsets: given parameters must not displace the configured ones
    bad, und, n = [], [], 0
    ps = [(k,) + pairs(k, keys[k])[0] for k in names]
    for mask in itertools.product((0, 1), repeat=len(ps)):
        if sum(mask) in (0,) or len(ps) > 1 and sum(mask) == 1:
            continue
        given = {k: e for on, (k, e, c) in zip(mask, ps) if on}
        ini = dict(base, **{k: c for k, e, c in ps})
        merged = dict(ini, **given)
        a, wa = obs(given, ini)
        b, wb = obs({}, merged)
        n += 1
        rep.count('configurations', 2)
        if a is None or b is None:
            if not (a is None and b is None and wa == wb):
                und.append((wa or wb)[:160])
            continue
        s, w = agree(a, b)
        if s == 'ne':
            bad.append('given %s under configs.ini %s: %s' % (given, {k: c for k, e, c in ps}, w))
        elif s != 'eq':
            und.append(w)
    if n:
        if bad:
            rep.violation('unset', key + ' (subsets)', bad[0][:500], m.rel)
        elif und:
            rep.undecided('unset', key + ' (subsets)', und[0])
        else:
            rep.good('unset', key + ' (subsets)', '%d subsets' % n)


# ------------------------------------------------------------------ gdefaults
def dict_of(r, v):
    v = r.I.simp(r.st, v)
    if isinstance(v, Ref) and isinstance(r.st.heap[v.h], DictC):
        return [(k, r.I.simp(r.st, x)) for k, x in r.st.heap[v.h].d.items()]
    return None


def generic(proj, rep, entries):
    mod, obj = '_gmw', 'gmw'
    if (mod, obj) not in entries:
        mod, obj = sorted(e for e in entries if len(entries[e]) > 2)[0]
    ent = entries[(mod, obj)]
    ks = list(ent)
    for label, opts, given in (
            ('keeps falsy values', {}, {ks[0]: K(0), ks[1]: K(False), ks[2]: K('')}),
            ('fills None', {}, {ks[0]: NONE, ks[1]: NONE}),
            ('mixed, reversed order', {}, {ks[2]: NONE, ks[0]: Num(sym('g'), 'pyfloat'), ks[1]: NONE}),
            ('unlisted key', {}, {ks[1]: NONE, 'no_such_key': NONE, 'other': K(5)}),
            ('get_all', {'get_all': True}, {ks[1]: K(0)}),
            ('get_all keeps None of unlisted', {'get_all': True}, {'other': K(7), ks[2]: NONE}),
            ('get_all, default_order', {'get_all': True, 'default_order': True}, {ks[2]: K(0), 'zz': K(1), ks[0]: K(2)}),
            ('default_order', {'default_order': True}, {ks[2]: K(0), ks[0]: NONE})):
        key = 'ssqueezepy/configs.py:gdefaults (%s)' % label
        expect = {}
        for k, v in given.items():
            expect[k] = K(num_or(ent[k])) if (v == NONE and k in ent) else v
        if opts.get('get_all'):
            for k in ks:
                expect.setdefault(k, K(num_or(ent[k])))
        if opts.get('default_order'):
            expect = {**{k: expect[k] for k in ks if k in expect}, **{k: v for k, v in expect.items() if k not in ks}}
        h = H(proj, 'log', psi=None)
        T._FACTS.append(h.facts)
        try:
            f = h.glob('configs', 'gdefaults')
            from ssqlint.host import Res
            v = h.I.call(h.st, f, [K('%s.%s' % (mod, obj))], dict({k: K(x) for k, x in opts.items()}, as_dict=K(True), **given), None)
            got = None
            v = h.I.simp(h.st, v)
            if isinstance(v, Ref) and isinstance(h.st.heap[v.h], DictC):
                got = [(k, h.I.simp(h.st, x)) for k, x in h.st.heap[v.h].d.items()]
        except (Unsup, RaiseSig) as e:
            rep.undecided('gdefaults', key, str(e)[:160])
            continue
        finally:
            T._FACTS.pop()
        if got is None:
            rep.undecided('gdefaults', key, 'result %r' % (v,))
            continue
        order = opts.get('default_order') or not opts.get('get_all')
        ok = dict(got) == expect and [type(x.v) for _, x in sorted(got) if isinstance(x, K)] == [type(x.v) for _, x in sorted(expect.items()) if isinstance(x, K)]
        if ok and order:
            ok = [k for k, _ in got] == list(expect)
        if ok:
            rep.good('gdefaults', key)
        else:
            rep.violation('gdefaults', key, 'returns %s for %s; expected %s' % (got, given, list(expect.items())), 'ssqueezepy/configs.py')
    # the plain call returns the values in the order of the keywords; a single one comes bare
    h = H(proj, 'log', psi=None)
    T._FACTS.append(h.facts)
    try:
        f = h.glob('configs', 'gdefaults')
        v = h.I.call(h.st, f, [K('%s.%s' % (mod, obj))], {ks[1]: NONE, ks[0]: K(0)}, None)
        got = [h.I.simp(h.st, x) for x in h.I.iter_all(h.st, v)]
        one = h.I.simp(h.st, h.I.call(h.st, f, [K('%s.%s' % (mod, obj))], {ks[1]: NONE}, None))
        exp = K(num_or(ent[ks[1]]))
        if got == [exp, K(0)] and one == exp:
            rep.good('gdefaults', 'ssqueezepy/configs.py:gdefaults (values)')
        elif all(isinstance(x, K) for x in got):
            rep.violation('gdefaults', 'ssqueezepy/configs.py:gdefaults (values)', 'values %s and %s' % (got, one), 'ssqueezepy/configs.py')
        else:
            rep.undecided('gdefaults', 'ssqueezepy/configs.py:gdefaults (values)', '%s' % got)
    except (Unsup, RaiseSig) as e:
        rep.undecided('gdefaults', 'ssqueezepy/configs.py:gdefaults (values)', str(e)[:160])
    finally:
        T._FACTS.pop()


def spelling(proj, rep, entries):
    """each entry reads the same in every documented spelling, as the independent reading says"""
    def parsed(text):
        I2 = H(proj, 'log', psi=None, files={INI: text})
        I2.I.models[('ssqueezepy.configs', '_get_gdefaults')] = lambda *a: NotImplemented
        r = I2.run('configs', '_get_gdefaults', {})
        if not r.ok:
            return None, r.why()

        def conv(x):
            x = r.I.simp(r.st, x)
            if isinstance(x, K):
                return x.v
            if isinstance(x, Ref) and isinstance(r.st.heap[x.h], DictC):
                return {k: conv(y) for k, y in r.st.heap[x.h].d.items()}
            raise Unsup('value %r' % (x,))
        return conv(r.v), ''
    want = {}
    for (m, o), d in entries.items():
        want.setdefault(m, {})[o] = {k: num_or(v) for k, v in d.items()}
    every = {(m, o, k): v for (m, o), d in entries.items() for k, v in d.items()}
    strs = {q: v for q, v in every.items() if isinstance(num_or(v), str)}
    for label, text in (('as committed', '\n'.join(ini_lines(proj))),
                        ('name = value', rewritten(proj, every, '%s = %s')),
                        ('name =value', rewritten(proj, every, '%s =%s')),
                        ('indented', rewritten(proj, every, '  %s= %s')),
                        ("'string'", rewritten(proj, strs, "%s='%s'")),
                        ('"string"', rewritten(proj, strs, '%s = "%s"'))):
        key = 'ssqueezepy/configs.py:_get_gdefaults (%s)' % label
        try:
            got, why = parsed(text)
        except Unsup as e:
            got, why = None, str(e)
        if got is None:
            if 'raises' in why:
                rep.violation('format', key, 'reading fails: %s' % why[:200], 'ssqueezepy/configs.py')
            else:
                rep.undecided('format', key, why[:200])
        elif got == want:
            rep.good('format', key)
        else:
            diff = [(m, o, k, got.get(m, {}).get(o, {}).get(k), v) for m in want for o in want[m] for k, v in want[m][o].items()
                    if got.get(m, {}).get(o, {}).get(k, 'missing') != v]
            rep.violation('format', key, 'read as %s' % (diff[:3],), 'ssqueezepy/configs.py')


# ------------------------------------------------------------------ wavelet forms
def forms(proj, rep, w, entries):
    mod = '_gmw' if w == 'gmw' else 'wavelets'
    ent = entries.get((mod, w))
    if ent is None:
        return
    m = proj.modules['ssqueezepy.wavelets']
    text_vals = {k: pairs(k, v)[0][1] for k, v in ent.items() if pairs(k, v)}
    if w == 'gmw':
        text_vals.update(norm='bandpass', order='0')
    text_vals['dtype'] = 'float64'
    text = rewritten(proj, {(mod, w, k): v for k, v in text_vals.items()})
    opts = [k for k in ent if k != 'dtype']

    def wavelet(arg, **kw):
        """psih term of Wavelet(arg)"""
        h = H(proj, 'log', psi=None, files={INI: text})
        T._FACTS.append(h.facts)
        try:
            cls = h.glob('wavelets', 'Wavelet')
            a = arg(h)
            o = h.I.call(h.st, cls, [a], {k: K(v) for k, v in kw.items()}, None)
            fn = h.I.getattr(h.st, o, 'fn', None)
            v = h.I.simp(h.st, h.I.call(h.st, h.I.simp(h.st, fn), [h.arr('w', 'N')], {}, None))
            cfg = h.I.simp(h.st, h.I.getattr(h.st, o, 'config', None))
            c = {k: h.I.simp(h.st, x) for k, x in h.st.heap[cfg.h].d.items()} if isinstance(cfg, Ref) else None
            return (h.I.abody(h.st, v), h.I.adt(h.st, v)), c
        finally:
            T._FACTS.pop()

    def as_tuple(h, d):
        return Tup([K(w), Ref(h.I.new(h.st, DictC({k: K(conv_(k, v)) for k, v in d.items()})))])

    def as_fn(h, d):
        return h.I.simp(h.st, h.I.call(h.st, h.glob(mod, w), [], {k: K(conv_(k, v)) for k, v in d.items()}, None))

    cases = [('unset', {})] + [('%s=%s' % (k, e), {k: e}) for k in opts for e, _ in pairs(k, ent[k])[:1]]
    full = {k: pairs(k, ent[k])[0][0] for k in opts if pairs(k, ent[k])}
    if len(full) > 1:
        cases.append(('all given', full))
    for label, d in cases:
        key = 'ssqueezepy/wavelets.py:Wavelet(%s, %s)' % (w, label)
        try:
            tup, c = wavelet(lambda h: as_tuple(h, d))
            fn, _ = wavelet(lambda h: as_fn(h, d))
            got = [('function form', fn)]
            if not d:
                got.append(('string form', wavelet(lambda h: K(w))[0]))
                got.append(('upper-case name', wavelet(lambda h: K(w.upper()))[0]))
        except (Unsup, RaiseSig) as e:
            rep.undecided('forms', key, str(e)[:200])
            continue
        bad, und = [], []
        for nm, g in got:
            s, why = agree(g, tup)
            if s == 'ne':
                bad.append('%s differs from the tuple form: %s' % (nm, why))
            elif s != 'eq':
                und.append(why)
        if c is not None:
            for k, v in ent.items():
                want_ = conv_(k, d[k]) if k in d else num_or(text_vals.get(k, v))
                if k in c and isinstance(c[k], K) and c[k].v != want_ and k != 'dtype':
                    bad.append('config records %s=%r instead of %r' % (k, c[k].v, want_))
        if bad:
            rep.violation('forms', key, bad[0][:400], 'ssqueezepy/wavelets.py')
        elif und:
            rep.undecided('forms', key, und[0])
        else:
            rep.good('forms', key)
