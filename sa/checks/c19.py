"""C19: command-line options reach the operations that they name."""

import ast

from ..absint import Interp, Config, K, show, isk
from ..model import Func
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the module-level code that sets up the parsers: every "
    "add_argument call is reduced to its parser, names, destination and action, and "
    "compared with the parameters of the function that the parser is for. The functions "
    "themselves, the dispatch of subcommands and the tools for config files are compared "
    "with decision tables of the calls that they make on every path."
)
ASSUMPTIONS = ["argparse does what Python documents"]
J = 'eprempy.project'
M = 'eprempy._project_main'
X = 'eprempy.__main__'
T = 'eprempy.cli:'
N = 'eprempy.interfaces:CLI.'

BRANCHES = (('-b', '--branches'), 'many')
FORCE, VERBOSE = (('-f', '--force'), 'flag'), (('-v', '--verbose'), 'flag')
PATH, ONE = ((), 'needed'), 'one'
# command -> destination -> (flags, kind)
WANT = {
    J: {
        'create': {'path': PATH, 'branches': BRANCHES, 'config': (('-c', '--config'), ONE),
                   'inputs': (('-i', '--inputs'), ONE), 'output': (('-o', '--output'), ONE),
                   'rundir': (('-d', '--rundir'), ONE), 'logname': (('-l', '--logname'), ONE),
                   'copy': (('--copy',), ONE), 'verbose': VERBOSE},
        'reset': {'path': PATH, 'force': FORCE, 'verbose': VERBOSE},
        'rename': {'path': PATH, 'target': PATH, 'force': FORCE, 'verbose': VERBOSE},
        'remove': {'path': PATH, 'force': FORCE, 'verbose': VERBOSE},
        'show': {'path': PATH, 'runs': (('-r', '--run', '-a', '--all'), 'any')},
    },
    M: {
        'run': {'config': PATH, 'target': (('-t', '--target'), ONE), 'branches': BRANCHES,
                'nproc': (('-n', '--nproc'), 'int'), 'force': FORCE, 'verbose': VERBOSE,
                'mpirun': (('-m', '--mpirun'), ONE), 'eprem': (('-e', '--eprem'), ONE)},
        'mv': {'source': PATH, 'target': PATH, 'branches': BRANCHES, 'force': FORCE,
               'verbose': VERBOSE},
        'rm': {'target': PATH, 'branches': BRANCHES, 'force': FORCE, 'verbose': VERBOSE},
    },
    X: {
        '': {'version': (('-V', '--version'), 'flag')},
        'configfile': {'source': (('-s', '--source'), ONE),
                       'generate': (('-g', '--generate'), ONE),
                       'files': (('-c', '--compare'), 'many'),
                       'verbose': VERBOSE, 'diff': (('--diff',), 'flag'),
                       'names': (('--names',), 'flag')},
    },
}


def run(P, rep):
    rep.rule('options', "each option sets a parameter of the function of its command", 40)
    rep.rule('commands', "each command exists and its parameters can be given", 8)
    rep.rule('forward', "each command passes what it was given to the operation", 8)
    rep.rule('dispatch', "the given command is executed with the given options", 8)
    rep.rule('configfiles', "config files are generated and compared as asked", 12)
    options(P, rep)
    forward(P, rep)
    dispatch(P, rep)
    configfiles(P, rep)


class Option:
    def __init__(self, owner, group, args, kw, where):
        self.owner, self.group, self.where = owner, group, where
        self.kw = dict(kw)
        self.names = [a[2] if isk(a) else None for a in args]
        self.flags = [n for n in self.names if n and n[:1] == '-']
        self.open = None in self.names or '**' in self.kw
        dest = self.const('dest')
        if dest is None and not self.open and self.names:
            long = [f for f in self.flags if f[:2] == '--']
            first = (long or self.flags or self.names)[0]
            dest = first.lstrip('-').replace('-', '_') if self.flags else first
        self.dest = dest

    def const(self, name, default=None):
        v = self.kw.get(name)
        return default if v is None else v[2] if isk(v) else v

    @property
    def label(self):
        return '/'.join(self.flags) or str(self.dest)


def block(P, name):
    """The statements of a module as a function."""
    m = P.modules.get(name)
    if m is None:
        return None
    skip = (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Try)
    body = []
    for s in m.tree.body:
        if isinstance(s, ast.If) and any(
                isinstance(n, ast.Name) and n.id == '__name__' for n in ast.walk(s.test)):
            body += [x for x in s.body if not isinstance(x, skip[:2])] if name == X else []
        elif not isinstance(s, skip):
            body.append(s)
    node = ast.FunctionDef(
        name='<module>', args=ast.arguments([], [], None, [], [], None, []),
        body=body, decorator_list=[], lineno=1, col_offset=0)
    return Func(m, name + ':<module>', node)


def root(t):
    """(command, group) of the object that an option is added to."""
    group = None
    while True:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'add_mutually_exclusive_group', 'add_argument_group'):
            if t[1][2] == 'add_mutually_exclusive_group':
                group = t
            t = t[1][1]
            continue
        break
    if t[0] == 'sub' and isk(t[2]):
        return t[2][2], group
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'add_parser':
        if t[2] and isk(t[2][0]):
            return t[2][0][2], group
        return None, group
    if t[0] in ('call', 'new'):
        f = t[1] if t[0] == 'call' else ('class', t[1])
        if isinstance(f[1], str) and f[1].endswith(('ArgumentParser', 'CLI')):
            return '', group
    if t[0] == 'attr' and t[2] == 'parser':
        return '', group
    return None, group


def collect(P, name):
    """Every option that the code of a module adds, and whether all were understood."""
    fn = block(P, name)
    if fn is None:
        return [], False, ''
    it = Interp(P, Config(inline=lambda g: g.module is fn.module and not P.isproperty(g)))
    best, done = None, True
    for o in it.run(fn):
        got = []
        for e in o.st.trace or ():
            if e.kind != 'call':
                continue
            t = e.data
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'add_argument':
                owner, group = root(t[1][1])
                got.append(Option(owner, group, t[2], t[3], fn.where))
                done = done and owner is not None
        if best is None or len(got) > len(best):
            best = got
    done = done and not any(x.open or not isinstance(x.dest, str) for x in best or ())
    return best or [], done, fn.where


def commands(P, name):
    """The functions of a module that are commands."""
    out = {}
    for q, fn in P.funcs.items():
        if fn.module.name == name and not fn.cls:
            for d in fn.decorators():
                d = d.func if isinstance(d, ast.Call) else d
                if isinstance(d, ast.Attribute) and d.attr == 'include':
                    out[fn.name] = fn
    return out


def options(P, rep):
    for name, want in WANT.items():
        got, done, where = collect(P, name)
        rep.count('options', len(got))
        short = name.rpartition('.')[2]
        funcs = commands(P, name) if name != X else {}
        for owner, dests in want.items():
            mine = [x for x in got if x.owner == owner]
            label = f"{short} {owner}".strip()
            if name != X:
                fn = funcs.get(owner)
                rep.ob('commands', label, fn is not None or None, 'no such command')
                if fn is not None:
                    command(rep, label, fn, mine, done)
            flags = [f for x in mine for f in x.flags]
            rep.ob('options', f"{label}: flags",
                   True if len(flags) == len(set(flags)) else False,
                   'the same flag twice', where)
            for dest, (names, kind) in dests.items():
                here = [x for x in mine if x.dest == dest]
                if not here:
                    rep.ob('options', f"{label}: {dest}", False if done else None,
                           'no option sets it', where)
                    continue
                has = {f for x in here for f in x.flags}
                lost = set(names) - has
                rep.ob('options', f"{label}: {dest}: flags",
                       True if not lost else (False if done else None),
                       f"{', '.join(sorted(lost))} does not set it", where)
                for x in here:
                    ok, why = action(x, kind)
                    rep.ob('options', f"{label}: {x.label}", ok, why, where)
            for x in mine:
                if x.dest not in dests and name == X:
                    rep.ob('options', f"{label}: {x.label}", None, 'unknown option', where)
        if name == X:
            a = [x for x in got if x.owner == 'configfile' and x.dest in (
                'generate', 'files')]
            if len(a) == 2:
                same = a[0].group is not None and a[0].group == a[1].group
                need = same and dict(a[0].group[3]).get('required') == K(True)
                rep.ob('options', 'configfile: generate or compare', True if need else (
                    False if done else None), 'not exactly one of them', where)


def action(x, kind):
    """Whether an option yields the kind of value that is wanted."""
    act, nargs, tp = x.const('action', 'store'), x.const('nargs'), x.const('type')
    default = x.const('default')
    if not isinstance(act, str):
        return None, 'unknown action'
    if act == 'extend' and nargs is None:
        return False, 'splits its argument into characters'
    if kind == 'flag':
        if act == 'store_true':
            return (True if default in (None, False) else False), 'is on by default'
        return (False if act in ('store_false', 'store', 'append', 'store_const') else None,
                f"is no flag ({act})")
    if kind == 'needed':
        if x.flags:
            return (True if x.const('required') is True else False), 'is optional'
        return (True if act == 'store' and nargs is None else
                False if nargs in ('?', '*') or act != 'store' else None,
                'is optional or has other values')
    if act in ('store_true', 'store_false'):
        return False, 'has no value'
    if kind == 'many':
        good = nargs in ('*', '+') and act in ('store', 'extend') or \
            act == 'append' and nargs is None
        if x.const('required') is True:
            return False, 'is required'
        return (True if good and default is None else False), 'does not collect its values'
    if kind == 'one':
        if x.const('required') is True:
            return False, 'is required'
        return (True if act == 'store' and nargs in (None,) and tp is None
                and default is None else None if nargs is None and act == 'store'
                and default is None else False), 'is not a single optional string'
    if kind == 'int':
        return (True if act == 'store' and nargs is None and tp is not None
                and show(tp).endswith('int') and default in (None, 1) else
                False if tp is None or not isinstance(tp, tuple)
                or default not in (None, 1) else None), \
            'is no optional integer'
    if kind == 'any':
        if act == 'store_const':
            v = x.const('const')
            return (True if v == '*' else None if isinstance(v, tuple) else False,
                    'does not stand for all runs')
        good = act in ('append', 'extend') or nargs in ('*', '+')
        return (True if good and default is None else False), 'does not collect its values'
    return None, ''


def command(rep, label, fn, mine, done):
    """Options and parameters of a command agree."""
    a = fn.node.args
    params = [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
    pos = [x.arg for x in (*a.posonlyargs, *a.args)]
    needed = pos[:len(pos) - len(a.defaults)] + [
        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for x in mine:
        if isinstance(x.dest, str):
            ok = x.dest in params or a.kwarg is not None and x.dest in ('mpirun', 'eprem')
            rep.ob('options', f"{label}: {x.label}: parameter", ok,
                   f"{fn.name} has no parameter {x.dest!r}", fn.where)
    for p in params:
        here = [x for x in mine if x.dest == p]
        ok = bool(here) if done else bool(here) or None
        rep.ob('commands', f"{label}: {p}", ok, 'cannot be given', fn.where)
        if any(x.const('action') == 'store_true' for x in here):
            d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
            d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)})
            v = d.get(p)
            ok = None if not isinstance(v, ast.Constant) else not v.value
            rep.ob('commands', f"{label}: {p}: default", ok, 'is on by default', fn.where)
        if p in needed and here:
            ok = any(not x.flags or x.const('required') is True for x in here)
            rep.ob('commands', f"{label}: {p}: needed", ok, 'may be missing', fn.where)
    if label == '_project_main run' and a.kwarg is None:
        lost = [p for p in ('mpirun', 'eprem') if p not in params]
        rep.ob('commands', label + ': environment', False if lost else None,
               f"has no parameters {lost}", fn.where)


def forward(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'forward', n, *a, **k)
    I = 'Interface'
    names = ('branches', 'config', 'inputs', 'output', 'rundir', 'logname')
    new = f'{I}(path, {", ".join(names)}, copy)'
    tell = {'ignore': ['verbose', 'len(_) < _', 'len(_) > _', 'len(_) <= _'],
            'words': ['Interface', 'project', 'parent', 'DIRECTORY', 'FILEPATH']}
    t(J + ':create', 'path branches config inputs output rundir logname copy verbose', [
        Case('return None', does=[new])], **tell)
    t(J + ':reset', 'path force verbose', [
        Case('return either(None, _)', does=[
            f'{I}(path).reset(force, not verbose)'])], **tell)
    t(J + ':rename', 'path target force verbose', [
        Case('return either(None, _)', does=[
            f'{I}(path).rename(target, force, not verbose)'])], **tell)
    t(J + ':remove', 'path force verbose', [
        Case('return either(None, _)', does=[
            f'{I}(path).remove(force, not verbose)'])], **tell)
    every = 'either(runs, list(runs), tuple(runs), [*runs], (*runs,))'
    t(J + ':show', 'path runs', [
        Case('return either(None, _)', {'runs': True}, does=[f'{I}(path).show(*{every})']),
        Case('return either(None, _)', {'runs': False}, does=[
            f'either({I}(path).show(), {I}(path).show(*either([], (), list([]), tuple(()))))'],
            name='no runs')], **tell)
    here = f'{I}(either(DIRECTORY, _.parent))'
    t(M + ':run', 'config target branches nproc force verbose **environment', [
        Case('return either(None, _)', does=[
            f'{here}.run(config, target, branches, nproc, environment, not force, '
            'not verbose)'])], **tell)
    t(M + ':mv', 'source target branches force verbose', [
        Case('return either(None, _)', does=[
            f'{here}.mv(source, target, branches, not force, not verbose)'])], **tell)
    t(M + ':rm', 'target branches force verbose', [
        Case('return either(None, _)', does=[
            f'{here}.rm(target, branches, not force, not verbose)'])], **tell)
    one, all_ = 'len(runs) == 1', "runs[0] == '*'"
    show_ = lambda x: {'does': [f'self._show_run({x})'], 'never': ['self._show_project()'],
                       'choice': True}
    none = {'never': ['self._show_project()', 'self._show_run(_)'], 'choice': True}
    t(J + ':Interface.show', '*runs', [
        Case('return None', {'runs': False}, does=['self._show_project()']),
        Case('return None', {'runs': True, one: True, all_: True},
             **show_('either(each(tuple(self.runs)), each(self.runs))'), sure=True,
             name='all'),
        Case('return None', {'runs': True, one: True, all_: False},
             **show_('either(each(runs), runs[0])'), sure=True, name='one'),
        Case('return None', {'runs': True, one: False}, **show_('each(runs)'), sure=True,
             name='some'),
        Case('return None', {'runs': True}, **none, name='none')],
      impossible=[{'runs': False, one: True}, {'runs': False, "has(_) == '*'": True}],
      words=['underline', 'tuple', 'list'])
    found = 'either(self.directories, self._directories).resolve(run, self.runs[run])'
    t(J + ':Interface._show_run', 'run', [
        Case('return None', {'except': True}, does=['print(_)'], never=[
            '_.resolve(...)']),
        Case('return None', {'except': False}, does=[f'print(each({found}))'],
             choice=True),
        Case('return None', {'except': False}, does=[found], never=['print(_)'],
             choice=True, name='none')])


def dispatch(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'dispatch', n, *a, **k)
    t(N + 'run', '', [
        Case('return None', does=[
        "vars(either(self.parser, self._parser).parse_args()).pop('func')",
        "vars(either(self.parser, self._parser).parse_args()).pop('func')"
        "(**vars(either(self.parser, self._parser).parse_args()))"])])
    for m, want in (('__len__', 'len(self.subcommands)'),
                    ('__iter__', 'iter(self.subcommands)'), ('parser', 'self._parser')):
        t(N + m, '', [Case(f'return {want}')])
    t(N + '__getitem__', 'key', [
        Case('return self.subcommands[key]', {'key in self.subcommands': True}),
        Case('raise KeyError', {'key in self.subcommands': False})], ignore=[])
    t(N + 'subcommands', '', [
        Case('return self._subcommands', {'self._subcommands is None': False}),
        Case('return {}', {'self._subcommands is None': True},
             stores={'_subcommands': '{}'})])
    add = 'either(self.parser, self._parser).add_subparsers(...)'
    t(N + 'subparsers', '', [
        Case('return self._subparsers', {'self._subparsers is None': False}),
        Case(f'return {add}', {'self._subparsers is None': True},
             stores={'_subparsers': add})])
    t(N + '__init__', '*args **kwargs', [
        Case('return None', stores={
            '_parser': 'ArgumentParser(*either(args, self._args), **either(kwargs, self._kwargs))',
            '_subparsers': 'None', '_subcommands': 'None'})])
    registered(P, rep)
    t(T + 'run', 'mode options', [
        Case('return run_configfile_subparser(options)', {"mode == 'configfile'": True}),
        Case('raise CLIError', {"mode == 'configfile'": False})])
    o = lambda k: f"either(options[{k!r}], options.get({k!r}))"
    gen, files = "options.get('generate')", "options.get('files')"
    make = (f"return generate_config_file({o('generate')}, {o('source')}, {o('verbose')})")
    comp = (f"return compare_config_files({o('files')}, {o('source')}, {o('diff')}, "
            f"{o('names')})")
    t(T + 'run_configfile_subparser', 'options', [
        Case(make, {gen: True}), Case(comp, {gen: False, files: True}),
        Case('return None', {gen: False, files: False})],
      words=['options', 'generate', 'files', 'source', 'verbose', 'diff', 'names'])
    main(P, rep)


def registered(P, rep):
    """A command is registered under its name with a parser that executes it."""
    fn = P.funcs.get(N + 'include')
    label = 'CLI.include'
    if fn is None:
        rep.ob('dispatch', label, None, 'is not defined')
        return
    func = ('sym', 'func')
    it = Interp(P, Config(inline=lambda g: g.module is fn.module and g is not fn
                          and not P.isproperty(g)))
    a = fn.node.args
    pos = [x.arg for x in a.args][1:]
    if not pos:
        rep.ob('dispatch', label, None, 'other parameters')
        return
    some = False
    for o in it.run(fn, args={pos[0]: func}, facts={
            ('op', 'is', func, K(None)): False, ('op', 'is', K(None), func): False}):
        if o.kind != 'return':
            continue
        some = True
        adds = [e.data for e in o.st.trace if e.kind == 'call'
                and e.data[1][0] == 'attr' and e.data[1][2] == 'add_parser']
        name = ('attr', func, '__name__')
        ok = None
        if len(adds) == 1:
            ok = adds[0][2][:1] == (name,)
        rep.ob('dispatch', label + ': name', ok, 'is registered under another name', fn.where)
        parser = adds[0] if adds else None
        sets = [e.data for e in o.st.trace if e.kind == 'call'
                and e.data[1][0] == 'attr' and e.data[1][2] == 'set_defaults']
        good = any(s[1][1] == parser and dict(s[3]).get('func') == func for s in sets)
        rep.ob('dispatch', label + ': function', True if good else (
            False if all(s[1][1] == parser and dict(s[3]).get('func', func)[0] == 'sym'
                         and '**' not in dict(s[3]) for s in sets) else None),
            'the parser does not execute the command', fn.where)
        items = [e.data for e in o.st.trace if e.kind == 'setitem'
                 and e.data[0][0] == 'attr' and e.data[0][2] in (
                     'subcommands', '_subcommands')]
        good = any(i[1] == name and i[2] == parser for i in items)
        rep.ob('dispatch', label + ': parser', True if good else (False if all(
            i[1] == name for i in items) else None),
            'the parser cannot be found by name', fn.where)
        v = it.snap(o.value, o.st)
        rep.ob('dispatch', label + ': result', True if v == func or v[0] in (
            'fn', 'call', 'closure') else (False if v == K(None) else None),
            'the command is lost', fn.where)
    rep.ob('dispatch', label, True if some else None, 'never returns', fn.where)


def main(P, rep):
    """The package-wide program."""
    fn = block(P, X)
    if fn is None:
        rep.ob('dispatch', 'program', None, 'no such module')
        return
    it = Interp(P, Config(inline=lambda g: g.module is fn.module
                          and g.name != 'print_version'))
    for o in it.run(fn):
        calls = [e.data for e in o.st.trace if e.kind == 'call']
        version = mode = None
        start = None
        for a, v in o.st.facts.items():
            if a[0] == 'call' and a[1][0] == 'attr' and a[1][2] in ('pop', 'get') and a[2]:
                if a[2][0] == K('version'):
                    version = v
                elif a[2][0] == K('mode'):
                    mode = v
            elif a[0] == 'sub':
                version = v if a[2] == K('version') else version
                mode = v if a[2] == K('mode') else mode
            elif a[:2] == ('op', 'eq') and '__name__' in show(a):
                start = v
        if start is not True:
            continue
        ran = [c for c in calls if c[1][0] == 'func' and c[1][1] == T + 'run']
        told = [c for c in calls if c[1][0] == 'func' and c[1][1].endswith('print_version')]
        err = [c for c in calls if c[1][0] == 'attr' and c[1][2] == 'error']
        if version:
            ok, what = bool(told) and not ran, 'version'
        elif version is False and mode:
            ok, what = bool(ran) and not told and not err, 'mode'
        elif version is False and mode is False:
            ok, what = bool(err) and not ran, 'nothing'
        else:
            ok, what = None, 'other'
        rep.ob('dispatch', f"program: {what}", ok, 'does something else', fn.where)
        for c in ran:
            keys = [show(x) for x in c[2]] + [show(v) for _, v in c[3]]
            ok = len(keys) == 2 and 'mode' in keys[0] and 'parse_args' in keys[1] and \
                'mode' not in keys[1]
            rep.ob('dispatch', 'program: arguments', ok or None, 'are others', fn.where)


def configfiles(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'configfiles', T + n, *a, **k)
    obj = 'isa(arg, Object)'
    one = 'len(arg.data) == 1'
    t('_get_arg_value', 'arg', [
        Case('return arg.data[0]', {obj: True, one: True}),
        Case('return arg.data', {obj: True, one: False}),
        Case('return arg', {obj: False})])
    value = '_get_arg_value(arg)'
    inline = lambda g: False
    t('_get_config_value', 'arg realtype', [
        Case(f'return [many(float(each(either(wrap({value}), {value}))))]',
             {'realtype is list': True}),
        Case(f'return {value}', {'realtype is list': False})], inline=inline,
      missing=False, words=['str', 'int'])
    unit, none = "arg.unit == '1'", f'{value} is None'
    day = "str(arg.unit) in either({'d', 'day'}, ('d', 'day'), ['d', 'day'])"
    t('_format_arg_string', 'arg', [
        Case(f'return either(f"{{repr({value})}}", repr({value}))', {obj: True, unit: True}),
        Case(f'return either(f"{{repr({value})}}", repr({value}))', {
            obj: True, unit: False, none: True}, name='no value'),
        Case(f"""return f"{{{value}}} 'day'" """.strip(), {
            obj: True, unit: False, none: False, day: True}),
        Case(f'return f"{{{value}}} {{repr(str(arg.unit))}}"', {
            obj: True, unit: False, none: False, day: False}),
        Case('return str(arg)', {obj: False})], inline=inline)
    path = 'paths.fullpath(path)'
    ref = 'ConfigurationC(source)'
    base = 'interface({})'
    key = f'each(either(sorted({ref}), {ref}, sorted({ref}.keys())))'
    default = f'{MAKE}(srcdir=source)[{key}]'
    file = f'{path}.open("w").__enter__()'
    line = (f'f"{{{key}}}={{either(_get_config_value({default}, {ref}[{key}]["type"]), '
            f'_get_config_value({default}, {ref}.get({key})["type"]))}}\\n"')
    given = f'{default} is None'
    t('generate_config_file', 'path source verbose', [
        Case('return None', {given: False}, does=[f'{file}.writelines([many({line})])'],
             never=[f'{MAKE}()', 'ConfigurationC()']),
        Case('return None', {given: True}, name='no default',
             never=[f'has(_get_config_value({default}, ...))', f'{MAKE}()'])],
      ignore=['verbose'], inline=inline, maybe=(1,),
      words=['fullpath', 'open', 'writelines', 'write', 'len', 'sorted', 'now', 'strftime',
             'datetime', '_timestr', '__enter__', 'config', 'srcdir'])
    t('compare_config_files', 'files source diff names', [
        Case('raise UserError', {'files': False}),
        Case('return None', {'files': True}, does=[
            '_build_arg_dict(files, source, diff, names)'])],
      ignore=['has(_build_arg_dict(...))', '_build_arg_dict(...)'], inline=inline)
    name = 'each(targets)'
    given = f'key in either(configfile, configfile_factory)(targets[{name}].config)'
    value = (f'_format_arg_string(either(targets[{name}].get(key), targets[{name}][key]))')
    t('_map_parameter', 'key targets', [
        Case(f'return {{many({name}): {value}}}', {given: True}),
        Case(f"return {{many({name}): '(default)'}}", {given: False})],
      inline=inline, zero='{}', words=['config', 'configfile'])
    built(P, rep)


def built(P, rep):
    norm = '_normalize_paths(files)'
    key = 'each(either(sorted(ConfigurationC(source)), ConfigurationC(source)))'
    rows = []
    load = lambda x: f'{MAKE}({x}, srcdir=source)'
    for names in (True, False):
        label = f'{norm}[each({norm})]' if names else 'str(_)'
        files = f'{{many({label}): {load(f"each({norm})")}}}'
        head = (f'both(has({key}), has(_format_arg_string('
                f'{MAKE}(srcdir=source)[{key}])))')
        cur = f'_map_parameter({key}, {files})'
        full = f'return {{many({head}): either({cur}, {cur}.copy(), dict({cur}))}}'
        differs = 'any([many(_ != _)])'
        n = 'names' if names else 'numbers'
        no = [f'{MAKE}()', f'{MAKE}(_)', 'ConfigurationC()']
        rows += [Case(full, {'names': names, 'diff': False}, name=f'{n}, all', never=no),
                 Case(full, {'names': names, 'diff': False, differs: False},
                      name=f'{n}, all, same', never=no, sure=[differs], some=True),
                 Case(full, {'names': names, 'diff': True, differs: True},
                      name=f'{n}, different', never=no),
                 Case('return {}', {'names': names, 'diff': True, differs: False},
                      name=f'{n}, same', never=no)]
    table(P, rep, 'configfiles', T + '_build_arg_dict', 'files source diff names', rows,
          inline=lambda g: False, zero='{}', maybe=(1, 5),
          ignore=['has(_map_parameter(...)).copy()', '_ is None', '_map_parameter(...)',
                  'len(_) > _', 'dict(_map_parameter(...))'],
          words=['enumerate', 'keys', 'srcdir', 'copy', 'any', 'all', 'basename', 'path',
                 'os', 'Path', 'stem'])
    path = 'str(paths.fullpath(each(files), True))'
    full = f'{{many(str(each(files))): {path}}}'
    fine = f'either({full}, [many({path})], {{many({path})}})'
    table(P, rep, 'configfiles', T + '_normalize_paths', 'args', [
        Case(f'return {{many(str({path})): either(_.relpath(either({path}, '
             f'str({path})), _), _.relpath(either({path}, str({path})), start=_))}}')], literal={'args': ('sym', 'files')},
          inline=lambda g: False, zero='{}', words=['commonpath', 'values'])


MAKE = 'either(interface, interface_factory, parameter.interface)'
