"""E18: an observer is made from the files that belong to it."""

import ast

from ..absint import Interp, Config, State, K, show, isk, subterms
from ..fields import initial
from ..model import AnalysisError
from ..util import mapterm
from .o14 import called, arg, near, self_attr, Unread

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the functions that find observer and configuration "
    "files and build observers from them. File-name patterns are read as templates "
    "of prefix, padded number and suffix, and compared with EPREM's naming; the "
    "numbers of matching files for which a path is returned, or refused, are read "
    "from the conditions on each path; the arguments given to each constructor are "
    "traced back to the function's own."
)
ASSUMPTIONS = [
    "pathlib finds and resolves paths as documented",
    "the observables and file views built from the paths are checked by O11-O14",
]
E = 'eprempy.eprem'
PA = 'eprempy.paths'
ME = ('sym', 'self')
STREAM, POINT = {'stream', 'obs', 'flux'}, {'point', 'p_obs'}
NAMES = ('eprem_input_file', '*.cfg', '*.ini', '*.in')
NUMBERS = (0, 7, 123, 654321, 7654321)


STEPS = ('_create_observer', '_build_datapath', '_build_confpath', '_get_observer_id')


def local(fn):
    """Inline a function and the private helpers of its module."""
    return lambda g: g is fn or (
        g.module is fn.module and not g.cls and g.name[:1] == '_'
        and g.name not in STEPS)


def constant(P, cls, name):
    """The literal value of a class attribute."""
    q = f'{E}:{cls}'
    c = P.classes.get(q)
    for s in c.node.body if c else ():
        v = None
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name for t in s.targets):
            v = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and \
                s.target.id == name:
            v = s.value
        if v is None:
            continue
        if isinstance(v, ast.Call) and len(v.args) == 1:
            v = v.args[0]
        try:
            return tuple(ast.literal_eval(v))
        except ValueError:
            return None
    return None


def params(fn):
    a = fn.node.args
    return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]


def isid(t, ident):
    if called(t, 'int', 'str') and len(t[2]) == 1:
        t = t[2][0]
    return t == ident


def instances(P, t, ident, n):
    """The strings that a template term stands for when the ID is n."""
    if isk(t):
        return {str(t[2])}
    if t == ident:
        return {str(n)}
    if called(t, 'int', 'str') and t[2] == (ident,):
        return {str(int(n))}
    if called(t, 'format') and t[1][0] == 'ext' and t[2] and isid(t[2][0], ident):
        spec = t[2][1][2] if len(t[2]) > 1 and isk(t[2][1], str) else None
        if spec is None:
            raise Unread(show(t)[:80])
        try:
            return {format(n if t[2][0] == ident else int(n), spec)}
        except ValueError:
            raise Unread(show(t)[:80])
    if called(t, 'zfill') and t[1][0] == 'attr' and len(t[2]) == 1 and isk(t[2][0]):
        return {x.zfill(t[2][0][2]) for x in instances(P, t[1][1], ident, n)}
    if t[0] == 'many':
        return instances(P, t[1], ident, n)
    if t[0] == 'iter':
        return elements(P, t[1])
    if t[0] == 'fmt':
        out = {''}
        for p in t[1]:
            out = {a + b for a in out for b in instances(P, p, ident, n)}
        return out
    if t[0] == 'op' and t[1] == 'add' and len(t) == 4:
        return {a + b for a in instances(P, t[2], ident, n)
                for b in instances(P, t[3], ident, n)}
    raise Unread(show(t)[:80])


def elements(P, t):
    """The strings in a collection."""
    if t[0] == 'cattr' and t[1].startswith(E + ':'):
        v = constant(P, t[1].partition(':')[2], t[2])
        if v is not None:
            return set(v)
    if t[0] == 'attr' and t[1][0] == 'class':
        return elements(P, ('cattr', t[1][1], t[2]))
    if t[0] in ('tuple', 'list', 'set') and all(isk(x, str) for x in t[1]):
        return {x[2] for x in t[1]}
    if called(t, 'sorted', 'reversed', 'tuple', 'list', 'set') and len(t[2]) == 1:
        return elements(P, t[2][0])
    if t[0] == 'op' and t[1] in ('or_', 'add', 'or'):
        return elements(P, t[2]) | elements(P, t[3])
    raise Unread(show(t)[:80])


def collection(P, t, ident, n):
    if t[0] in ('tuple', 'list', 'set'):
        out = set()
        for x in t[1]:
            if x[0] == 'star':
                out |= collection(P, x[1], ident, n)
            else:
                out |= instances(P, x, ident, n)
        return out
    if called(t, 'tuple', 'list', 'set') and len(t[2]) == 1:
        return collection(P, t[2][0], ident, n)
    if t[0] == 'op' and t[1] == 'add':
        return collection(P, t[2], ident, n) | collection(P, t[3], ident, n)
    if t[0] in ('many', 'gen'):
        return instances(P, t, ident, n)
    raise Unread(show(t)[:80])


# -- patterns -----------------------------------------------------------------

def expected(prefixes, width, n, kind):
    out = {f"{p}{int(n):0{width}}.*" for p in prefixes} if str(n).isdigit() else set()
    if kind == 'str':
        out.add(f"{n}.*")
    return out


def isinst(facts, t):
    """Types that t is known to be, and not to be, an instance of."""
    yes, no = [], []
    for k, v in facts.items():
        if k[0] == 'isa' and k[1] == t:
            names = {x[1].rpartition('.')[2] for x in k[2]}
            if v:
                yes.append(names)
            else:
                no.append(names)
    return yes, no


def kinds(facts, t):
    yes, no = isinst(facts, t)
    out = []
    for kind in ('int', 'str', 'other'):
        if all(kind in s for s in yes) and not any(kind in s for s in no):
            out.append(kind)
    return out


def patterns(P, rep):
    for cls, prefixes, width, ok_kinds in (('Stream', STREAM, 6, ('int',)),
                                           ('Point', POINT, 3, ('int', 'str'))):
        have = constant(P, cls, 'prefixes')
        c = P.classes.get(f'{E}:{cls}')
        if c is None:
            rep.ob('files', cls, False, 'is not defined')
            continue
        rep.ob('files', f"{cls}.prefixes", None if have is None else
               set(have) == prefixes, f"are {have}", c.where)
        f = P.lookup(f'{E}:{cls}', 'patterns')
        if not f or f[1][0] != 'func':
            rep.ob('files', f"{cls}.patterns", None, 'not found')
            continue
        fn = f[1][1]
        ident = ('sym', params(fn)[1])
        it = Interp(P, Config(inline=near(P, f'{E}:{cls}'), binders=False))
        seen = {}
        for o in it.run(fn, selfclass=f'{E}:{cls}'):
            rep.count('paths')
            judge_patterns(P, rep, f"{cls}.patterns", o, it, ident, prefixes, width,
                           ok_kinds, fn, seen)
        found(rep, f"{cls}.patterns", seen, ok_kinds, fn)


def found(rep, label, seen, ok_kinds, fn):
    for k in ok_kinds:
        if k not in seen:
            rep.ob('files', f"{label} of {k}", None if None in seen else False,
                   'has no pattern', fn.where)


def judge_patterns(P, rep, label, o, it, ident, prefixes, width, ok_kinds, fn, seen,
                   t=None):
    facts = o.st.facts
    ks = kinds(facts, ident)
    failed = any(k[:2] in (('exc', 'suppressed'), ('exc', 'caught')) and v
                 for k, v in facts.items())
    if o.kind == 'raise':
        bad = [k for k in ks if k in ok_kinds]
        rep.ob('files', label, None if bad and failed else not bad,
               f"refuses an ID of type {' or '.join(bad)}", fn.where)
        return
    if t is None:
        t = it.snap(o.value, o.st)
    try:
        for k in ks:
            if k == 'other':
                if not failed:
                    rep.ob('files', label, False, 'accepts an ID of any type',
                           fn.where)
                continue
            if k not in ok_kinds:
                rep.ob('files', label, False, f"accepts an ID of type {k}", fn.where)
                continue
            if k == 'int' and failed:
                continue        # an integer is never refused as a number
            for n in ((*NUMBERS, '007', '0012') if k == 'str' else NUMBERS) if not failed \
                    else ('abc', 'x1y'):
                n = str(n) if k == 'str' else n
                got = collection(P, t, ident, n)
                want = expected(prefixes, width, n, k)
                if got != want:
                    rep.ob('files', label, False,
                           f"of {n!r} are {sorted(got)} instead of {sorted(want)}",
                           fn.where)
                    break
            else:
                rep.ob('files', label, True)
            if not failed:
                seen[k] = True
    except (Unread, TypeError, ValueError) as err:
        seen[None] = True
        rep.ob('files', label, None, str(err)[:140], fn.where)


# -- paths of files -------------------------------------------------------------

def possible(facts, x):
    """The numbers of elements x may have under the given conditions."""
    out = set(range(5))
    size = ('call', ('ext', 'builtins.len'), (x,), ())
    for k, v in facts.items():
        if k == x or k == ('truthy', x) or k == size:
            test = lambda n: bool(n)     # noqa: E731
        elif k == ('not', x):
            test = lambda n: not n     # noqa: E731
        elif k[0] == 'op' and len(k) == 4 and size in k[2:]:
            a, b = k[2:]
            c = b if a == size else a
            if not isk(c):
                raise Unread(show(k)[:80])
            op = {'eq': lambda m, n: m == n, 'ne': lambda m, n: m != n,
                  'lt': lambda m, n: m < n, 'le': lambda m, n: m <= n,
                  'gt': lambda m, n: m > n, 'ge': lambda m, n: m >= n,
                  'is': lambda m, n: m is n}.get(k[1])
            if op is None:
                raise Unread(show(k)[:80])
            if a == size:
                test = lambda n, c=c, op=op: op(n, c[2])     # noqa: E731
            else:
                test = lambda n, c=c, op=op: op(c[2], n)     # noqa: E731
        else:
            continue
        out = {n for n in out if test(n) == v}
    return out


def datapath(P, rep):
    fn = P.funcs.get(E + ':_build_datapath')
    if fn is None:
        rep.ob('files', '_build_datapath', None, 'not found')
        return
    a = params(fn)
    pats, folder = ('sym', a[0]), ('sym', a[1])
    it = Interp(P, Config(inline=local(fn), binders=False))
    back = False
    for o in it.run(fn):
        if o.kind not in ('return', 'raise'):
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        ok, why = None, show(t)[:120]
        try:
            terms = {y for k in (t, *o.st.facts) for y in subterms(k)}
            globs = [y for y in terms if called(y, 'glob') and y[1][0] == 'attr'
                     and y[1][1] == folder and y[2] == (('iter', pats),)]
            lists = {y for y in terms if any(
                y == ('list', (('star', g),)) or called(y, 'list', 'tuple', 'sorted')
                and y[2] == (g,) for g in globs)} or {
                    y for y in terms if y[0] in ('list', 'tuple') and len(y[1]) == 1
                    and any(g in y[1][0] for g in globs)}
            if o.kind == 'return':
                if t == K(None):
                    ok, why = False, 'returns nothing'
                elif not globs:
                    ok = None
                else:
                    back = True
                    for x in lists:
                        ns = possible(o.st.facts, x)
                        if ns == {1}:
                            if ('sub', x, K(0)) in terms or ('sub', x, K(-1)) in terms:
                                ok = True
                        elif ns:
                            ok = False
                            why = f"takes one of {max(ns)} matching files" if \
                                max(ns) > 1 else 'takes a file which does not exist'
            else:
                ok = True
                for x in lists:
                    ns = possible(o.st.facts, x)
                    if 1 in ns and len(ns) < 5:
                        ok, why = False, 'refuses the only matching file'
        except (Unread, TypeError) as err:
            ok, why = None, str(err)[:120]
        rep.ob('files', 'data path', ok, why, fn.where)
    if not back:
        rep.ob('files', 'data path', None, 'never returned', fn.where)


def confpath(P, rep):
    fn = P.funcs.get(E + ':_build_confpath')
    if fn is None:
        rep.ob('files', '_build_confpath', None, 'not found')
        return
    a = params(fn)
    folder, config = ('sym', a[0]), ('sym', a[1])
    it = Interp(P, Config(inline=local(fn), binders=False))
    order = {}
    plain, full, missing = [], [], False
    for o in it.run(fn):
        if o.kind not in ('return', 'raise'):
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        facts = o.st.facts
        given = facts.get(('op', 'is', K(None), config))
        if given is None:
            given = facts.get(('op', 'is', config, K(None)))
        if given is None:
            rep.ob('files', 'config path', None, 'does not test whether it is given',
                   fn.where)
            continue
        if given:
            if o.kind == 'raise':
                missing = True
                continue
            g = [y for y in subterms(t) if called(y, 'glob')]
            ok, why = None, show(t)[:100]
            if len(g) == 1 and g[0][1][1] == folder and len(g[0][2]) == 1 and \
                    isk(g[0][2][0], str):
                name = g[0][2][0][2]
                tried = {y[2][0][2] for k, v in facts.items() for y in subterms(k)
                         if called(y, 'glob') and y[2] and isk(y[2][0], str)
                         and not v}
                order[name] = tried - {name}
                ok = True
            elif t == K(None) or config in set(subterms(t)):
                ok = False
            rep.ob('files', 'guessed config path', ok, why, fn.where)
            continue
        if o.kind == 'raise':
            # the path that was refused must not exist
            ex = [v for k, v in facts.items() if called(k, 'exists')]
            rep.ob('files', 'config path', True if False in ex else None if ex
                   else False if not facts else None, 'refused', fn.where)
            continue
        joined = ('op', 'truediv', folder, config)
        ok, why = None, show(t)[:120]
        bare = [(k, v) for k, v in facts.items() if k[0] == 'op' and k[1] == 'eq'
                and any(y[0] == 'attr' and y[2] == 'name' for y in k[2:])]
        if t == joined or called(t, 'joinpath') and t[1][1] == folder and \
                t[2] == (config,):
            plain.append(bare)
            ok = any(called(k, 'exists', 'is_file') and k[1][1] == t and v
                     for k, v in facts.items())
            why = 'may not exist' if not ok else ''
            if ok and bare and not bare[0][1]:
                ok, why = False, 'takes a path as relative to the dataset'
            if ok and bare and config in bare[0][0][2:]:
                ok, why = False, 'compares the name of a path object with the path'
        elif called(t, 'fullpath') and any(y == config for y in subterms(t)):
            full.append(bare)
            strict = arg(t, 1, 'strict') == K(True)
            ok = strict or any(called(k, 'exists', 'is_file') and k[1][1] == t and v
                               for k, v in facts.items())
            why = 'may not exist' if not ok else ''
            if ok and bare and bare[0][1]:
                ok, why = False, 'takes a bare name as relative to the working directory'
        elif called_in(t, 'glob'):
            ok, why = False, 'ignores the given path'
        elif t in (config, K(None)) or t[0] == 'op' and t[1] == 'truediv':
            ok = False
        rep.ob('files', 'config path', ok, why, fn.where)
    if not order and missing:
        rep.ob('files', 'guessed config names', False, 'are never tried', fn.where)
    if order:
        rep.ob('files', 'guessed config names', set(order) == set(NAMES),
               f"are {', '.join(sorted(order))}", fn.where)
        for i, n in enumerate(NAMES):
            if n in order:
                rep.ob('files', f"config name {n}", order[n] <= set(NAMES[:i]),
                       f"tried after {', '.join(sorted(order[n]))}", fn.where)
    rep.ob('files', 'missing config file', True if missing else None, '', fn.where)
    for what, got in (('bare config name', plain), ('config path', full)):
        rep.ob('files', what, True if got else None, 'not accepted', fn.where)


def identity(P, rep):
    """The ID of a file is its name without prefix or suffix."""
    fn = P.funcs.get(E + ':_get_observer_id')
    if fn is None:
        rep.ob('files', '_get_observer_id', None, 'not found')
        return
    path = ('sym', params(fn)[0])
    stem = ('attr', path, 'stem')
    it = Interp(P, Config(inline=local(fn), binders=False))
    kinds_ = set()
    for o in it.run(fn):
        if o.kind != 'return':
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        number = called(t, 'int')
        x = t[2][0] if number else t
        ok, why = None, show(t)[:120]
        for k, v in o.st.facts.items():
            if called(k, 'startswith') and k[1][0] == 'attr' and k[1][1] == stem and v \
                    and len(k[2]) == 1:
                prefix = k[2][0]
                break
        else:
            prefix = None
        try:
            if prefix is not None:
                size = K(len(prefix[2])) if isk(prefix, str) else (
                    'call', ('ext', 'builtins.len'), (prefix,), ())
                rest = ('sub', stem, ('slice', size, K(None), K(None)))
                if x == rest or called(x, 'removeprefix') and x[1][1] == stem and \
                        x[2] == (prefix,):
                    ok = True
                elif called(x, 'lstrip', 'strip') and x[1][1] == stem:
                    ok, why = False, 'strips any of the characters of the prefix'
                elif called(x, 'replace') and x[1][1] == stem and x[2][0] == prefix:
                    ok = len(x[2]) == 3 and x[2][2] == K(1)
                    why = 'removes the prefix anywhere in the name'
                elif x[0] == 'sub' and x[1] == stem and x[2][0] == 'slice' and (
                        x[2][1] == K(None) or x[2][2] != K(None)):
                    ok = False
                elif x == stem or x[0] == 'sub' and x[1] == stem and x[2][0] != 'slice':
                    ok = False
                names = elements(P, prefix[1]) if prefix[0] == 'iter' else \
                    {prefix[2]} if isk(prefix, str) else None
                for k, v in o.st.facts.items():
                    if k[:2] == ('op', 'in') and k[2] == prefix and names:
                        got = elements(P, k[3])
                        names = names & got if v else names - got
                if names is not None:
                    kinds_.add((number, frozenset(names)))
                    if number and not names <= STREAM:
                        ok, why = False, 'is a number for a point observer'
                    elif not number and not names <= POINT:
                        ok, why = False, 'is text for a stream observer'
        except Unread as err:
            ok, why = None, str(err)[:100]
        rep.ob('files', 'ID of a file', ok, why, fn.where)
    for number, want in ((True, STREAM), (False, POINT)):
        have = set().union(*(s for n, s in kinds_ if n == number))
        rep.ob('files', 'IDs of ' + ('streams' if number else 'points'),
               want <= have if kinds_ else None,
               f"no ID for {', '.join(sorted(want - have))}", fn.where)


# -- observers from paths ---------------------------------------------------------

def isdir(t, source, facts, fn):
    """t is the full path of the source, or of the working directory."""
    if not called(t, 'fullpath'):
        return None
    x = arg(t, 0, 'path')
    v = next((v for k, v in facts.items() if k in (source, ('truthy', source))), None)
    if v is None:
        v = {True: False, False: True}.get(facts.get(('op', 'is', source, K(None)),
                                                    facts.get(('op', 'is', K(None),
                                                               source))))
    if x == source:
        return v is True or v is None and default(fn, source) != K(None)
    if isk(x):
        return x[2] in ('.', '') and v is False
    if called(x, 'cwd'):
        return v is False
    if x[0] == 'op' and x[1] == 'or':
        return x[2:] == (source, K('.')) or None
    return None


def default(fn, param):
    """The default value of a parameter, if it is a constant."""
    a = fn.node.args
    pos = [*a.posonlyargs, *a.args]
    pairs = [*zip(reversed(pos), reversed(a.defaults)), *zip(a.kwonlyargs,
                                                            a.kw_defaults)]
    for x, d in pairs:
        if x.arg == param[1] and isinstance(d, ast.Constant):
            return K(d.value)
    return None


def making(P, rep):
    fn = P.funcs.get(E + ':_create_observer')
    if fn is None:
        rep.ob('observer', '_create_observer', None, 'not found')
        return
    a = params(fn)
    kind, pats, config, source, system = (('sym', x) for x in a[:5])
    it = Interp(P, Config(inline=local(fn)))
    for o in it.run(fn):
        isd = [v for k, v in o.st.facts.items() if called(k, 'is_dir')]
        if o.kind == 'raise' and True in isd or o.kind == 'return' and False in isd:
            rep.ob('observer', 'observer from patterns', False,
                   'takes only what is not a directory', fn.where)
        if o.kind != 'return':
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        ok, why = None, show(t)[:160]
        if t == K(None):
            ok = False
        elif t[0] == 'call' and t[1] == kind:
            view, obs = arg(t, 0, 'dataview'), arg(t, 1, 'observables')
            why, ok = observer_args(view, obs, system)
            if ok:
                d = arg(view, 0, 'source', 'path')
                c = arg(obs, 1, 'config')
                if not called(d, '_build_datapath') or not called(c, '_build_confpath'):
                    ok, why = None, show(t)[:160]
                else:
                    df, cf = arg(d, 1, 'directory'), arg(c, 0, 'directory')
                    r1 = isdir(df, source, o.st.facts, fn)
                    r2 = isdir(cf, source, o.st.facts, fn)
                    if arg(d, 0, 'patterns') != pats:
                        ok, why = False, 'uses other patterns'
                    elif arg(c, 1, 'config') != config:
                        ok, why = False, 'ignores the given config file'
                    elif False in (r1, r2):
                        ok, why = False, 'looks in another directory than the source'
                    elif None in (r1, r2):
                        ok, why = None, show(df)[:100]
        rep.ob('observer', 'observer from patterns', ok, why, fn.where)


def observer_args(view, obs, system, path=None):
    """('', True) if an observer is made of a view and observables of one file."""
    if view is not None and obs is not None and called(
            view, 'quantities', 'Quantities', 'quantities_factory') and called(
                obs, 'view', 'view_factory', 'View'):
        return 'takes the view for the quantities', False
    if view is None or obs is None or not called(view, 'view', 'view_factory', 'View') \
            or not called(obs, 'quantities', 'Quantities', 'quantities_factory'):
        return 'not understood', None
    d, e = arg(view, 0, 'source', 'path'), arg(obs, 0, 'source', 'path')
    if d != e or path is not None and d != path:
        return 'uses different files for its view and its quantities', False
    s = arg(obs, 2, 'system')
    if s is None:
        return 'ignores the system of units', False
    if s != system:
        if s[0] in ('k', 'sym'):
            return 'ignores the system of units', False
        if called(s, 'system', 'system_factory') and s[2] == (system,):
            return '', True
        return show(s)[:80], None
    return '', True


def entries(P, rep):
    """stream, point and observer hand on what they were given."""
    for name, cls in (('stream', 'Stream'), ('point', 'Point')):
        fn = P.funcs.get(f'{E}:{name}')
        if fn is None:
            rep.ob('observer', name, False, 'is not defined')
            continue
        ident = ('sym', params(fn)[0])
        it = Interp(P, Config(inline=local(fn)))
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            ok, why = handed(t, cls)
            if ok:
                p = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('patterns')
                ok = True if called(p, 'patterns') and p[2] == (ident,) and \
                    p[1][1] == ('class', f'{E}:{cls}') else None
                if called(p, 'patterns') and p[1][1][0] == 'class' and not ok:
                    ok, why = False, f"uses the patterns {show(p)[:60]}"
                if ok is None and called(p, f'{cls}.patterns', 'patterns'):
                    ok = p[2] in ((ident,), (('class', f'{E}:{cls}'), ident))
            rep.ob('observer', name, ok, why, fn.where)
    fn = P.funcs.get(E + ':observer')
    if fn is None:
        rep.ob('observer', 'observer', False, 'is not defined')
        return
    ident = ('sym', params(fn)[0])
    it = Interp(P, Config(inline=local(fn), binders=False))
    seen = {}
    for o in it.run(fn):
        rep.count('paths')
        if o.kind == 'raise':
            judge_patterns(P, rep, 'observer', o, it, ident, {}, 0, ('int', 'str'), fn,
                           seen)
            continue
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        for k in kinds(o.st.facts, ident):
            if k == 'other':
                continue
            cls = 'Stream' if k == 'int' else 'Point'
            ok, why = handed(t, cls)
            rep.ob('observer', f"observer of {k}", ok, why, fn.where)
            if not ok:
                continue
            p = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('patterns')
            pre, w = ({'obs', 'flux'}, 6) if k == 'int' else ({'p_obs'}, 3)
            failed = any(x[:2] in (('exc', 'suppressed'), ('exc', 'caught')) and v
                         for x, v in o.st.facts.items())
            try:
                for n in ((*NUMBERS, '007', '0012') if k == 'str' else NUMBERS) if not failed \
                    else ('abc', 'x1y'):
                    n = str(n) if k == 'str' else n
                    got = collection(P, p, ident, n)
                    want = expected(pre, w, n, k)
                    most = expected(STREAM if k == 'int' else POINT, w, n, k)
                    if k == 'int' and failed:
                        continue
                    rep.ob('files', f"observer of {k}", want <= got <= most,
                           f"{n!r} looks for {sorted(got)} instead of {sorted(want)}",
                           fn.where)
            except (Unread, TypeError, ValueError) as err:
                rep.ob('files', f"observer of {k}", None, str(err)[:100], fn.where)


def handed(t, cls):
    """Whether the type and the options are those that were given."""
    if t == K(None):
        return False, 'returns None'
    if not called(t, '_create_observer'):
        return None, show(t)[:120]
    kind = arg(t, 0, '__type')
    if kind != ('class', f'{E}:{cls}'):
        if kind is not None and kind[0] == 'class':
            return False, f"makes a {kind[1].partition(':')[2]}"
        if kind is not None and kind[0] in ('list', 'tuple', 'many') or called(
                kind, 'patterns', 'tuple', 'list'):
            return False, 'takes the patterns as the type'
        return None, show(t)[:120]
    for i, n in ((2, 'config'), (3, 'source'), (4, 'system')):
        v = arg(t, i, n)
        if v != ('sym', n):
            if v is None or v[0] in ('k', 'sym'):
                return False, f"ignores the given {n}"
            return None, show(v)[:80]
    return True, ''


# -- datasets ---------------------------------------------------------------------

def dataset(P, rep):
    q = E + ':Dataset'
    if q not in P.classes:
        rep.ob('dataset', 'Dataset', False, 'is not defined')
        return
    fn = P.funcs.get(E + ':dataset')
    if fn is not None:
        source, config, system = (('sym', x) for x in params(fn)[:3])
        it = Interp(P, Config(inline=local(fn)))
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            if not called(t, 'Dataset'):
                rep.ob('dataset', 'dataset', False if t == K(None) else None,
                       show(t)[:100], fn.where)
                continue
            facts = o.st.facts
            ok = isdir(arg(t, 0, 'directory'), source, facts, fn)
            rep.ob('dataset', 'directory of dataset', ok, show(t)[:100], fn.where)
            for i, n, fs in ((1, 'parameters', ('interface', 'Interface')),
                             (2, 'config', ('configfile', 'configfile_factory',
                                            'ConfigFile'))):
                v = arg(t, i, n)
                ok, why = None, show(v)[:120] if v else 'missing'
                if v is None or v[0] == 'k':
                    ok = False
                elif called(v, *fs):
                    p = v[2][0] if v[2] else next(iter(dict(v[3]).values()), None)
                    if p is not None and called(p, '_build_confpath'):
                        d = isdir(arg(p, 0, 'directory'), source, facts, fn)
                        ok = d if d is not True else arg(p, 1, 'config') == config
                elif v[0] == 'call' and v[1][0] in ('func', 'class') and called(
                        v, 'interface', 'configfile_factory', 'Interface',
                        'ConfigFile'):
                    ok = False
                rep.ob('dataset', f"{n} of dataset", ok, why, fn.where)
            v = arg(t, 3, 'system')
            ok = None
            if v is not None and called(v, 'system', 'system_factory') and len(v[2]) == 1:
                given = facts.get(system, facts.get(('truthy', system)))
                if v[2][0] == system:
                    ok = given is True or given is None and \
                        default(fn, system) != K(None)
                elif isk(v[2][0], str):
                    ok = given is False and v[2][0][2] == 'mks'
            elif v is None or v[0] == 'k':
                ok = False
            rep.ob('dataset', 'system of dataset', ok, show(v)[:80] if v else '',
                   fn.where)
    stored = initial(P, q) or {}
    for p in ('directory', 'parameters', 'config', 'system'):
        f = P.lookup(q, p)
        if not f or f[1][0] != 'func':
            rep.ob('dataset', f"Dataset.{p}", None, 'not found')
            continue
        it = Interp(P, Config(inline=near(P, q)))
        for o in it.run(f[1][1], selfclass=q):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t[0] == 'attr' and t[1] == ME:
                got = stored.get(t[2]) or {t}
                t = next(iter(got)) if len(got) == 1 else t
            rep.ob('dataset', f"Dataset.{p}", t == ('sym', p) or (
                False if t[0] in ('sym', 'k') else None), show(t)[:60], f[1][1].where)
    for p, cls, prefixes in (('streams', 'Stream', STREAM), ('points', 'Point', POINT)):
        members(P, rep, q, p, cls, prefixes)
    f = P.lookup(q, 'observers')
    if f and f[1][0] == 'func':
        st = State()
        st.attrs[(ME, '_observers')] = K(None)
        it = Interp(P, Config(inline=local(f[1][1])))
        for o in it.run(f[1][1], selfclass=q, state=st):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            text = repr(t)
            have = [x for x in ('streams', 'points') if repr(self_attr(x)) in text]
            ok = len(have) == 2 and (True if t[0] == 'dict' or called(
                t, 'dict', 'ChainMap') or t[:2] in (('op', 'or_'),) else None)
            if t[0] != 'dict' and t != K(None) and not have:
                ok = None
            rep.ob('dataset', 'Dataset.observers', ok, show(t)[:100], f[1][1].where)
    f = P.lookup(q, '_new_observer')
    if f and f[1][0] == 'func':
        fn = f[1][1]
        a = params(fn)
        it = Interp(P, Config(inline=local(fn)))
        for o in it.run(fn, selfclass=q):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:120]
            if t[0] == 'call' and t[1] == ('sym', a[2]):
                view, obs = arg(t, 0, 'dataview'), arg(t, 1, 'observables')
                why, ok = observer_args(view, obs, self_attr('system'), ('sym', a[1]))
                if ok:
                    c = arg(obs, 1, 'config')
                    conf = ('attr', self_attr('config'), 'source')
                    if c is None or isk(c) or called(
                            c, '_build_confpath') and not mentions(c, ME):
                        ok, why = False, 'ignores the config file of the dataset'
                    elif c not in (conf, self_attr('config'), (
                            'attr', self_attr('config'), 'path')):
                        ok, why = None, show(c)[:80]
            elif t == K(None):
                ok = False
            rep.ob('dataset', 'observer of a dataset', ok, why, fn.where)


def mentions(t, x):
    """Whether one term contains another."""
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def members(P, rep, q, p, cls, prefixes):
    f = P.lookup(q, p)
    if not f or f[1][0] != 'func':
        rep.ob('dataset', f"Dataset.{p}", False, 'is not defined')
        return
    fn = f[1][1]
    st = State()
    for n in ('_streams', '_points', '_observers'):
        st.attrs[(ME, n)] = K(None)
    helpers = near(P, q)
    it = Interp(P, Config(
        inline=lambda g: g is fn or helpers(g) and g.name not in (
            '_new_observer', '_get_observer_id', '_build_datapath', '_build_confpath')
        and not P.isproperty(g), binders=False))
    some, every = False, set()
    for o in it.run(fn, selfclass=q, state=st):
        if o.kind != 'return':
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        ok, why = None, show(t)[:140]
        if t == ('dict', ()):
            continue
        some = True
        if t == K(None):
            ok = False
        elif t[0] == 'dict':
            try:
                bad, looked = '', set()
                for k, v in t[1]:
                    bad = bad or member(P, k, v, cls, o.st.facts, looked)
                every |= looked
                if not bad and not looked <= {x + '*' for x in prefixes}:
                    bad = f"looks for {sorted(looked)}"
                ok, why = not bad, bad
            except Unread as err:
                why = str(err)[:120]
        if ok is None:
            every.add(None)
        rep.ob('dataset', f"Dataset.{p}", ok, why, fn.where)
    if not some:
        rep.ob('dataset', f"Dataset.{p}", None, 'not understood', fn.where)
    elif None not in every:
        rest = {x + '*' for x in prefixes} - every
        rep.ob('dataset', f"files of Dataset.{p}", not rest,
               f"does not look for {', '.join(sorted(rest))}", fn.where)


def member(P, k, v, cls, facts, looked):
    """What is wrong with an item of a mapping of observers, or ''."""
    k = k[1] if k[0] in ('many', 'star') else k
    if not called(k, '_get_observer_id') or not called(v, '_new_observer') or \
            len(k[2]) != 1:
        raise Unread(show(k)[:100])
    path = k[2][0]
    vs = [x for x in v[2] if x != ME]
    if vs[:1] != [path]:
        return 'pairs the ID of a file with another file'
    got = vs[1] if len(vs) > 1 else dict(v[3]).get('obstype')
    if got != ('class', f'{E}:{cls}'):
        return f"makes {show(got)[:40] if got else 'generic'} observers"
    return files(P, path, facts, looked)


def files(P, path, facts, looked):
    """What is wrong with the path of a data file, or ''."""
    if path[0] == 'iter' and path[1][0] in ('list', 'tuple') and len(path[1][1]) == 1:
        path = path[1][1][0]
        path = path[1] if path[0] in ('many', 'star') else path
    if path[0] != 'iter' or not called(path[1], 'glob'):
        raise Unread(show(path)[:100])
    g = path[1]
    if g[1][1] not in (self_attr('directory'), self_attr('_directory')):
        if g[1][1][0] == 'attr' and g[1][1][1] == ME:
            return f"looks in {show(g[1][1])[:60]}"
        raise Unread(show(g)[:100])
    looked |= instances(P, g[2][0], None, 0)
    suffix = ('attr', path, 'suffix')
    known = [v for k, v in facts.items() if k[:2] == ('op', 'in') and k[2] == suffix]
    if not known:
        return 'takes files of any kind'
    return '' if all(known) else 'takes files that are not data files'


# -- paths -------------------------------------------------------------------------

def paths(P, rep):
    fn = P.funcs.get(PA + ':fullpath')
    if fn is None:
        rep.ob('paths', 'fullpath', None, 'not found')
        return
    path, strict = (('sym', x) for x in params(fn)[:2])
    it = Interp(P, Config(inline=local(fn)))
    refused = False
    for o in it.run(fn):
        t = it.snap(o.value, o.st)
        facts = o.st.facts
        s = facts.get(strict, facts.get(('truthy', strict)))
        ex = [v for k, v in facts.items() if called(k, 'exists')]
        rep.count('paths')
        if o.kind == 'raise':
            refused = True
            rep.ob('paths', 'fullpath', s is True and ex == [False] or (
                None if ex and True not in ex and s is not False and any(
                    strict in subterms(k) for k in facts) else False),
                   'refuses a path ' + ('although it exists' if True in ex or not ex
                                        else 'when it is not strict'), fn.where)
            continue
        if o.kind != 'return':
            continue
        ok, why = None, show(t)[:80]
        names, x = [], t
        while x[0] == 'call' and x[1][0] == 'attr':
            names.append(x[1][2])
            x = x[1][1]
        if x[0] == 'call' and x[1][0] == 'ext' and x[1][1].endswith('Path') and \
                x[2] == (path,):
            if set(names) <= {'expanduser', 'resolve', 'absolute'}:
                ok = 'expanduser' in names and 'resolve' in names and \
                    names.index('resolve') < names.index('expanduser')
        elif t[0] in ('k', 'sym'):
            ok = False
        if ok and s is True and False in ex:
            ok, why = False, 'returns a path that does not exist'
        rep.ob('paths', 'fullpath', ok, why, fn.where)
    d = default(fn, strict)
    rep.ob('paths', 'fullpath', d is None or not d[2],
           'is strict by default', fn.where)
    rep.ob('paths', 'fullpath', True if refused else False,
           'accepts paths that do not exist', fn.where)
    fn = P.funcs.get(PA + ':locate')
    if fn is not None:
        name, path, env = (('sym', x) for x in params(fn)[:3])
        it = Interp(P, Config(inline=local(fn)))
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            facts = o.st.facts
            get = [k for k in facts for k in subterms(k) if called(k, 'get') and
                   k[1][1] == env]
            loc = [y for y in subterms(t) if y == ('op', 'truediv', path, name)]
            ex = [v for k, v in facts.items() if called(k, 'exists')]
            ok, why = None, show(t)[:100]
            if not get and called_in(t, 'realpath', 'normalize', 'Path') and not any(
                    env in subterms(k) for k in (t, *facts)):
                ok, why = False, 'ignores the environment'
            elif False in ex:
                which = called(t, 'Path') and len(t[2]) == 1
                x = t[2][0] if which else None
                if which and called(x, 'which'):
                    v = facts.get(x, facts.get(('truthy', x)))
                    none = facts.get(('op', 'is', x, K(None)))
                    ok = True if v is True or none is False else False
                    why = 'fails if there is no such executable'
                elif which and x == name:
                    ok, why = any(called_in(k, 'which') for k in facts), \
                        'does not search the system path'
                elif which and x[:2] == ('op', 'or'):
                    ok = x[3] == name or None
            elif True in ex and called(t, 'Path') and not loc and not any(
                    y in get for y in subterms(t)):
                ok, why = False, 'is ignored although it exists'
            elif True in ex:
                src = [y for y in subterms(t) if y in get or y in loc]
                fromenv = any(facts.get(y, facts.get(('truthy', y))) for y in get)
                if src:
                    ok = bool(loc) != fromenv if len(set(map(repr, src))) == 1 else None
            rep.ob('paths', 'locate', ok, why, fn.where)
    search(P, rep)
    extract(P, rep)
    localnames(P, rep)
    once(P, rep)


def search(P, rep):
    fn = P.funcs.get(PA + ':search')
    if fn is None:
        return
    file, dirs = ('sym', params(fn)[0]), ('tuple', (('sym', 'p'), ('sym', 'q')))
    va = fn.node.args.vararg
    if va is None:
        return
    it = Interp(P, Config(inline=local(fn)))
    for o in it.run(fn, args={va.arg: dirs}):
        if o.kind != 'return':
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        have = [('exists' if called(k, 'exists') else 'dir', k, v)
                for k, v in o.st.facts.items() if called(k, 'exists', 'is_dir')]
        ok, why = None, show(t)[:100]

        def which(k):
            return [n for n in ('p', 'q') if repr(('sym', n)) in repr(k)] or (
                ['cwd'] if called_in(k, 'cwd') else [])
        if t == K(None):
            # nothing was found anywhere
            ok = not any(n == 'exists' and v for n, k, v in have)
            why = 'does not return the file that was found'
        elif repr(file) in repr(t):
            at = which(t)
            if any(n == 'dir' and not v and which(k) == at for n, k, v in have):
                ok, why = False, 'is not in a directory'
            elif len(at) == 1 and at[0] in ('p', 'q', 'cwd'):
                order = ['p', 'q', 'cwd']
                earlier = order[:order.index(at[0])]
                yes = [which(k) for n, k, v in have if n == 'exists' and v]
                ok, why = yes == [at], 'was not found there'
                for e in earlier:
                    if not any(which(k) == [e] for n, k, v in have):
                        ok, why = False, 'is found in a later directory first'
        rep.ob('paths', 'search', ok, why, fn.where)


def localnames(P, rep):
    """Local names, normal paths and files by template."""
    for f, opts in (('normalize', {}), ('localize', {'normalized': True}),
                    ('localize', {'normalized': False})):
        fn = P.funcs.get(f'{PA}:{f}')
        if fn is None:
            continue
        p = ('sym', params(fn)[0])
        it = Interp(P, Config(inline=lambda g: g.module.name == PA and not g.cls))
        for o in it.run(fn, args={k: K(v) for k, v in opts.items()}):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:80]
            if t == K(None):
                ok = False
            local_ = called(t, 'Path') and len(t[2]) == 1 and t[2][0][0] == 'attr' \
                and t[2][0][2] == 'name'
            if f == 'localize':
                if local_:
                    full = called_in(t, 'resolve')
                    ok = full == opts['normalized']
                elif p in set(subterms(t)) and not any(
                        x[0] == 'attr' and x[2] == 'name' for x in subterms(t)):
                    ok = False
            elif called_in(t, 'resolve') and called_in(t, 'expanduser'):
                ok = True
            rep.ob('paths', f, ok, why, fn.where)
    fn = P.funcs.get(f'{PA}:find_file_by_template')
    if fn is not None:
        a = params(fn)
        it = Interp(P, Config(inline=local(fn), binders=False))
        x, y = ('sym', 'x'), ('sym', 'y')
        for o in it.run(fn, args={a[0]: ('tuple', (x, y))}):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            have = {}
            for k, v in o.st.facts.items():
                if called(k, 'exists'):
                    for n in (x, y):
                        if ('call', n, (('sym', a[1]),), ()) in set(subterms(k)):
                            have[n] = v
            ok, why = None, show(t)[:80]
            if t == K(None):
                ok, why = True not in have.values() and len(have) == 2, \
                    'gives up although there may be a file'
            else:
                at = [n for n in (x, y) if n in set(subterms(t))]
                if len(at) == 1:
                    ok = have.get(at[0]) is True and (at[0] == x or have.get(x) is False)
            rep.ob('paths', 'find_file_by_template', ok, why, fn.where)


def once(P, rep):
    """Objects made once per path are told apart by their paths."""
    f = P.lookup(PA + ':PathSet', '_generate_key')
    if not f or f[1][0] != 'func':
        return
    fn = f[1][1]
    va, kw = fn.node.args.vararg, fn.node.args.kwarg
    if va is None or kw is None:
        return
    p = ('sym', 'path')
    for label, pos, kws in (('positional', (p, ('sym', 'other')), ()),
                            ('keyword', (), (('path', p),))):
        it = Interp(P, Config(inline=local(fn)))
        st = State()
        given = it.alloc('dict', tuple((K(k), v) for k, v in kws), st)
        some = False
        for o in it.run(fn, selfclass=PA + ':PathSet', state=st, args={
                va.arg: ('tuple', pos), kw.arg: given}):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            yes, no = isinst(o.st.facts, p)
            if any({'str', 'Path'} <= x for x in no) and t != p:
                continue        # left to the parent, which refuses it
            some = some or t == p
            rep.ob('paths', f"key of a {label} path", p in set(subterms(t)) or (
                False if t[0] in ('k', 'sym') else None), show(t)[:80], fn.where)
        rep.ob('paths', f"key of a {label} path", True if some else None,
               'not understood', fn.where)


def mapping(P, rep):
    """An observer is a mapping of its observable quantities."""
    obs = ('attr', ME, '_observables')
    for m in ('__len__', '__iter__'):
        f = P.lookup(E + ':Observer', m)
        if not f or f[1][0] != 'func':
            rep.ob('observer', f"Observer.{m}", None, 'not found')
            continue
        it = Interp(P, Config(inline=near(P, E + ':Observer')))
        for o in it.run(f[1][1], selfclass=E + ':Observer'):
            if o.kind not in ('return', 'yield'):
                continue
            t = it.snap(o.value, o.st)
            u = t
            while called(u, 'iter', 'tuple', 'list', 'keys') and (
                    len(u[2]) == 1 or u[1][0] == 'attr'):
                u = u[2][0] if u[2] else u[1][1]
            ok = None
            if t == K(None):
                ok = False
            elif m == '__len__' and called(t, 'len'):
                ok = t[2] == (obs,)
            elif m == '__iter__':
                ok = True if u == obs or 'iter' in repr(t) and repr(obs) in repr(t) \
                    else None
            rep.ob('observer', f"Observer.{m}", ok, show(t)[:80], f[1][1].where)
    for cls in ('Observer', 'Stream', 'Point'):
        q = f'{E}:{cls}'
        init = initial(P, q, inline=lambda g: g.name == '__init__') \
            if q in P.classes else None
        if not init:
            continue
        for a in ('_dataview', '_observables'):
            got = init.get(a)
            if not got:
                rep.ob('observer', f"{cls}.{a}", False, 'is not kept',
                       P.classes[q].where)
                continue
            for t in got:
                rep.ob('observer', f"{cls}.{a}", t == ('sym', a[1:]) or (
                    False if t[0] in ('sym', 'k') else None), show(t)[:60],
                    P.classes[q].where)
    q = E + ':Observer'
    for p, want in (('source', ('attr', ('attr', ME, '_dataview'), 'source')),
                    ('system', ('attr', obs, 'system'))):
        f = P.lookup(q, p)
        if not f or f[1][0] != 'func':
            continue
        st = State()
        st.attrs[(ME, '_' + p)] = K(None)
        it = Interp(P, Config(inline=near(P, q)))
        for o in it.run(f[1][1], selfclass=q, state=st):
            if o.kind != 'return':
                continue
            t = mapterm(it.snap(o.value, o.st), lambda x: (
                'attr', ME, '_' + x[2]) if x in (
                    self_attr('dataview'), self_attr('observables')) else x)
            rep.ob('observer', f"Observer.{p}", t == want or (
                False if t == K(None) else None), show(t)[:80], f[1][1].where)


def called_in(t, *funcs):
    return any(called(x, *funcs) for x in subterms(t) if x and x[0] == 'call')


def extract(P, rep):
    f = P.lookup(PA + ':TextFile', 'extract')
    if f and f[1][0] == 'func':
        fn = f[1][1]
        a = params(fn)
        match, parse = ('sym', a[1]), ('sym', a[2])
        it = Interp(P, Config(inline=local(fn), binders=False))
        m = ('call', match, (('iter', self_attr('lines')),), ())
        for o in it.run(fn, selfclass=PA + ':TextFile'):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            v = o.st.facts.get(m, o.st.facts.get(('truthy', m)))
            used = ('call', parse, (m,), ()) in set(subterms(t))
            ok, why = None, show(t)[:100]
            if v is True:
                ok, why = used, 'ignores a matching line'
            elif v is False:
                ok, why = not used, 'parses a line that does not match'
            rep.ob('paths', 'extract', ok, why, fn.where)
    fn = P.funcs.get(PA + ':strip_inline_comments')
    if fn is not None:
        a = params(fn)
        s, x, y = ('sym', a[0]), ('sym', 'x'), ('sym', 'y')
        it = Interp(P, Config(inline=local(fn)))
        for o in it.run(fn, args={a[1]: ('tuple', (x, y))}):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:120]
            names = []
            u = t
            seps = []
            while True:
                if u[0] == 'call' and u[1][0] == 'attr' and u[1][2] == 'strip' and \
                        not u[2]:
                    names.append('strip')
                    u = u[1][1]
                elif u[0] == 'sub' and called(u[1], 'split', 'partition') and \
                        isk(u[2]):
                    if u[2] != K(0):
                        ok = False
                    seps.append(u[1][2][0] if u[1][2] else None)
                    u = u[1][1][1]
                else:
                    break
            if u == s and ok is None:
                ok = set(seps) == {x, y} and 'strip' in names
            rep.ob('paths', 'strip_inline_comments', ok, why, fn.where)


def run(program, rep):
    P = program
    rep.rule('files', "data and configuration files are found by EPREM's names", 12)
    rep.rule('observer', "observers are made of the file they were asked for", 4)
    rep.rule('dataset', "a dataset has the observers of its directory", 8)
    rep.rule('paths', "paths are resolved, searched and read in order", 4)
    if E + ':Observer' not in P.classes:
        raise AnalysisError('observers not found')
    patterns(P, rep)
    datapath(P, rep)
    confpath(P, rep)
    identity(P, rep)
    making(P, rep)
    entries(P, rep)
    mapping(P, rep)
    dataset(P, rep)
    paths(P, rep)
