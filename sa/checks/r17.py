"""R17: project operations overwrite nothing and stay within the project."""

import ast

from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the operations on the directories of a project. Each "
    "function is compared with a decision table that states, for every combination of "
    "its conditions, the calls that change the file system and those that must not "
    "happen. All calls in the package that could remove, rename or overwrite files are "
    "listed, and must lie in the modules whose paths are so compared."
)
ASSUMPTIONS = [
    "pathlib, shutil and os do what Python documents",
    "no other process changes the directories between a test and the operation",
]
J = 'eprempy.project:'
I = J + 'Interface.'
D = J + 'RunPaths.'
CHANGES = ['_.rename(_)', '_.replace(_)', '_.mkdir(...)', '_.unlink(...)', '_.rmdir()',
           'rmtree(...)', 'move(...)', '_.touch(...)']


def run(P, rep):
    rep.rule('guards', "an operation that would overwrite something is refused", 6)
    rep.rule('errors', "errors stop the operation unless forced", 5)
    rep.rule('scope', "only runs in the given branches of the project are affected", 12)
    rep.rule('names', "the files of a project are where its attributes say", 5)
    rep.rule('sites', "only the operations of projects and command-line tools change files", 1)
    guards(P, rep)
    errors(P, rep)
    scope(P, rep)
    names(P, rep)
    sites(P, rep)


def guards(P, rep):
    t = lambda *a, **k: table(P, rep, 'guards', *a, **k)
    this, that = 'normalize(source)', 'normalize(target)'
    exists, isdir = f'{that}.exists()', f'{that}.is_dir()'
    other = lambda *p: [f'{x}.{m}()' for x in p for m in (
        'is_file', 'is_dir', 'is_symlink', 'is_mount')] + [
        f'{x}.{m}' for x in p for m in ('suffix', 'stem', 'name')]
    t(D + '_mkdir', 'target', [
        Case('return PathOperationError(...)', {exists: True}, never=CHANGES),
        Case(f'return {that}', {exists: False},
             does=[f'either({that}.mkdir(parents=True), {that}.mkdir(parents=True, exist_ok=False))'],
             never=['_.mkdir(..., exist_ok=True)'])],
      words=['exist_ok', 'makedirs', 'mode'], wrong=other(that))
    t(D + '_mv', 'source target', [
        Case('return PathOperationError(...)', {f'{this}.exists()': False}, never=CHANGES),
        Case('return PathOperationError(...)', {
            f'{this}.is_dir()': False}, never=CHANGES, name='not a directory'),
        Case('return PathOperationError(...)', {
            f'{this}.exists()': True, f'{this}.is_dir()': True, exists: True},
            never=CHANGES, name='target exists'),
        Case(f'return ({this}, {that})', {
            f'{this}.exists()': True, f'{this}.is_dir()': True, exists: False},
            does=[f'{this}.rename({that})'])],
      impossible=[{f'{this}.exists()': False, f'{this}.is_dir()': True}],
      words=['replace', 'move', 'str'], wrong=other(this, that))
    t(D + '_rm', 'target', [
        Case('return PathOperationError(...)', {exists: False}, never=CHANGES),
        Case('return PathOperationError(...)', {isdir: False},
             never=CHANGES, name='not a directory'),
        Case(f'return {that}', {exists: True, isdir: True},
             does=[f'rmtree({that})'])],
      impossible=[{exists: False, isdir: True}], words=['ignore_errors', 'parent'],
      wrong=other(that))
    new = 'normalize(root)'
    sets = lambda b, c: {**({'_branches': 'branches'} if b else {}),
                         **({'_base': 'base'} if c else {}), '_listing': 'None'}
    rows = [Case('raise PathTypeError', {'root': True, f'{new}.exists()': True},
                 never=CHANGES)]
    for b in (True, False):
        for c in (True, False):
            rows.append(Case('return self', {
                'root': False, 'branches': b, 'base': c}, stores=sets(b, c),
                never=CHANGES, name=f'no new root, {b}, {c}'))
            rows.append(Case('return self', {
                'root': True, f'{new}.exists()': False, 'branches': b, 'base': c},
                does=['either(self.root.rename(_), self._root.rename(_))'],
                stores={**sets(b, c), '_root': f'either({new}, _.rename({new}))'},
                name=f'new root, {b}, {c}'))
    t(D + 'update', 'root branches base', rows)
    none = 'all([many(options[each(options)] is None)])'
    t(J + 'Interface._get_attrs', 'root **options', [
        Case(f'return self._create_project({new}, **options)', {f'{new}.exists()': False}),
        Case(f'return self._restore_project({new})', {
            f'{new}.exists()': True, 'options': False}, name='no options'),
        Case(f'return self._restore_project({new})', {
            f'{new}.exists()': True, 'options': True,
            none: True}),
        Case('raise ProjectExistsError', {
            f'{new}.exists()': True, 'options': True,
            none: False})],
      wrong=['all(_)', 'any(_)'],
      ignore=['options[each(options)] is None', 'each(options.values()) is None'],
      words=['any'])
    t(J + 'Interface._create_project', 'path **options', [
        Case('return Attrs(path, **options)',
             does=['either(_.mkdir(parents=True), _.mkdir(parents=True, exist_ok=False))'],
             never=['_.mkdir(..., exist_ok=True)'])])
    new = 'normalize(target)'
    t(J + 'Interface.rename', 'target force silent', [
        Case('raise', {f'{new}.exists()': True, 'force': False},
             never=CHANGES + ['_.update(...)', '_.update_directory(_)',
                              '_._update_metadata(...)']),
        Case('return None', {f'{new}.exists()': False}, does=[
            f'either(self._directories, self.directories).update(root={new})'],
            never=CHANGES),
        Case('return None', {f'{new}.exists()': True, 'force': True}, does=[
            f'either(self._directories, self.directories).update(root={new})'],
            never=CHANGES, name='forced')],
      ignore=['silent', '_.parent == _', '_.parent'])


def errors(P, rep):
    t = lambda *a, **k: table(P, rep, 'errors', *a, **k)
    O = J + '_PathOperation.'
    got = 'self.apply(each(self._paths))'
    bad = f'isa({got}, PathOperationError)'
    t(O + '__iter__', '', [
        Case(f'return [many({got})]', {bad: False}),
        Case(f'raise {got}', {bad: True, 'self._force': False}),
        Case('return []', {bad: True, 'self._force': True, 'self._silent': False},
             does=[f'print({got})'], name='forced'),
        Case('return []', {bad: True, 'self._force': True, 'self._silent': True},
             never=['print(...)'], name='forced, silent')], zero='[]')
    t(O + 'errors', 'force silent', [
        Case('return self', stores={'_force': 'force', '_silent': 'silent'})])
    t(O + '__init__', 'operator paths', [
        Case('return None', stores={'operator': 'operator', '_paths': 'paths',
                                    '_force': 'either(None, False)',
                                    '_silent': 'either(None, False)'})])
    t(O + '__bool__', '', [Case('return bool(self._paths)')],
      words=['len'])
    every = 'all([many(isa(each(this), Path))])'
    t(O + 'apply', 'this', [
        Case('return self.operator(this)', {'isa(this, Path)': True}),
        Case('return self.operator(*this)', {
            'isa(this, Path)': False, 'except': False,
            f'either({every}, all(_))': True}, name='tuple'),
        Case('return None', {'isa(this, Path)': False, 'except': False,
                             f'either({every}, all(_))': False}),
        Case('return None', {'isa(this, Path)': False, 'except': True},
             name='not iterable')],
      ignore=['isa(each(this), Path)', 'isa(this, Iterable)'])
    for m in ('mv', 'rm'):
        it, args = (('source, target', 'source target') if m == 'mv' else ('run', 'run'))
        p = f'self.directories.{m}({it}, branches=branches)'
        each = f'{p}.errors(force=not errors, silent=silent)'
        t(J + f'Interface.{m}', args + ' branches errors silent', [
            Case('return None', {p: False}, never=['_.errors(...)']),
            Case('return None', {p: True}, does=[each], name='some paths')],
          ignore=['silent', 'has(_._get_branch_name(_))', '_ in self.log', 'self.branches'],
          words=['_get_branch_name', 'log', 'mv', 'rm', 'each'])
    t(J + 'Interface.run', 'config name branches nproc environment errors silent', [
        Case('return None', does=['_.errors(force=not errors, silent=silent)'])],
      ignore=['name'], words=['mkdir', 'directories', '_create_run', 'datetime', 'now',
                              'strftime'])
    for fn, flags in ((I + 'run', 'errors silent'), (I + 'mv', 'errors silent'),
                      (I + 'rm', 'errors silent'), (I + 'reset', 'force silent'),
                      (I + 'rename', 'force silent'), (I + 'remove', 'force silent'),
                      (O + 'errors', 'force silent')):
        for flag in flags.split():
            default(P, rep, fn, flag)
    t(J + 'Interface.reset', 'force silent', [
        Case("return self.rm('*', errors=not force, silent=silent)")])


def default(P, rep, qual, flag):
    """Flags are off unless given."""
    fn = P.funcs.get(qual)
    if fn is None:
        rep.ob('errors', f"{qual}: {flag}", None, 'is not defined')
        return
    a = fn.node.args
    pos = [x.arg for x in (*a.posonlyargs, *a.args)]
    known = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    known.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)})
    d = known.get(flag)
    ok = None if not isinstance(d, ast.Constant) else not d.value
    rep.ob('errors', f"{qual.partition(':')[2]}: {flag}", ok, 'is on by default', fn.where)


def scope(P, rep):
    t = lambda *a, **k: table(P, rep, 'scope', *a, **k)
    one = 'either(self.root, self._root) / either(self.base, self._base)'
    many = ('either(self.root, self._root) / each(self._branches) / '
            'either(self.base, self._base)')
    t(D + 'listing', '', [
        Case('return self._listing', {'self._listing is None': False}),
        Case(f'return [{one}]', {'self._listing is None': True, 'self._branches': False},
             stores={'_listing': f'[{one}]'}),
        Case(f'return [many({many})]', {'self._listing is None': True,
                                        'self._branches': True},
             stores={'_listing': f'[many({many})]'})], words=['/', 'truediv', 'parent'])
    item = 'each(either(self.listing, self))'
    at = f'str({item}.parent.relative_to(self.root))'
    inside = (f'either({at}, {item}.parent.relative_to(self.root)) in '
              f'either(set(branches), branches, {{branches}})')
    t(D + '_get_rundirs', 'branches', [
        Case('return self.listing', {'branches': False}),
        Case(f'return [many({item})]', {'branches': True, inside: True}),
        Case('return []', {'branches': True, inside: False}, name='other')],
      ignore=['isa(branches, str)'], words=['name', 'parent', 'listing', 'in', 'eq'],
      zero='[]', maybe=(2,))
    dirs = 'self._get_rundirs(branches)'
    path = lambda x: f'Path({x})'
    out = {f'{path("pattern")}.is_absolute()': 0, f"'..' in {path('pattern')}.parts": 0,
           f'{path("each(names)")}.is_absolute()': 0,
           f"'..' in {path('each(names)')}.parts": 0}
    pa, pd, na, nd = out
    local = {k: False for k in out}
    fine = [{f'Path({x}).is_absolute()': True} for x in ("''", "'*'")] + [
        {f"'..' in Path({x}).parts": True} for x in ("''", "'*'")]
    t(D + 'define', '*names pattern branches', [
        Case('raise', {pa: True}, sure=True, name='absolute pattern'),
        Case('raise', {pd: True}, sure=True, name='pattern above'),
        Case('raise', {na: True}, sure=True, name='absolute name'),
        Case('raise', {nd: True}, sure=True, name='name above'),
        Case(f'return [many(each(each({dirs}).glob(pattern)))]', {**local, 'pattern': True}),
        Case(f'return [many(each({dirs}) / names[0])]', {
            **local, 'pattern': False, 'len(names) == 1': True}),
        Case(f"return either([many(each(each({dirs}).glob('*')))], "
             "self.define(pattern='*', branches=branches))", {
            **local, 'pattern': False, 'len(names) == 1': False, 'names': False}),
        Case(f'return [many((many(each({dirs}) / each(names)),))]', {
            **local, 'pattern': False, 'len(names) == 1': False, 'names': True})],
      impossible=fine + [{'names': False, na: False}, {'names': False, nd: False},
                         {'names': False, na: True}, {'names': False, nd: True}],
      ignore=["Path('').is_absolute()", "Path('*').is_absolute()", "'..' in Path('').parts",
              "'..' in Path('*').parts"],
      zero='[]', words=['iterdir', 'rglob', 'parts', 'parent'])
    for m, args, want in (
            ('mkdir', 'target branches', 'self.define(target, branches=branches)'),
            ('mv', 'source target branches', 'self.define(source, target, branches=branches)'),
            ('rm', 'target branches', 'either(self.define(pattern=target, branches=branches), '
                                      'self.define(branches=branches, pattern=target))')):
        t(D + m, args, [Case(f'return either(_PathOperation(self._{m}, {want}), '
                             f'_PathOperation(self._{m}, paths={want}))')],
          words=['_mkdir', '_mv', '_rm'])
    t(D + 'resolve', 'target branches', [
        Case('return [self.root / self.base / target]', {'branches': False}),
        Case('return [many(self.root / each(branches) / self.base / target)]',
             {'branches': True})])
    run = 'each((self.root / each(self._branches) / self.base).glob("*")).name'
    has = f'(self.root / each(self._branches) / self.base / {run}).is_dir()'
    t(D + 'runs', '', [
        Case('return {many(each((self.root / self.base).glob("*")).name): set()}',
             {'self._branches': False}),
        Case(f'return {{many({run}): {{many(each(self._branches))}}}}',
             {'self._branches': True, has: True}),
        Case(f'return {{many({run}): set()}}', {'self._branches': True, has: False},
             name='not in this branch')], maybe=(2,),
      zero='{}', words=['is_dir', 'exists', 'is_file', 'iterdir', 'parent', 'stem'])
    t(D + 'branches', '', [
        Case('return {}', {'self._branches': False}),
        Case('return {many(each(self._branches)): _}', {'self._branches': True})])
    t(D + '__init__', 'root branches base', [
        Case('return None', {'base': True}, stores={
            '_root': 'normalize(root)', '_base': 'base', '_branches': 'branches'},
            never=['rmtree(...)']),
        Case('return None', {'base': False}, stores={
            '_root': 'normalize(root)', '_base': "'runs'", '_branches': 'branches'},
            name='no base')], ignore=['_ in _'])
    for m, want in (('__iter__', 'either(iter(self.listing), each(self.listing))'),
                    ('__len__', 'len(self.listing)'), ('root', 'self._root'),
                    ('base', 'self._base')):
        t(D + m, '', [Case(f'return {want}')])
    t(D + '__contains__', 'item', [Case('return item in self.listing')],
      words=['notin', 'not'])


def names(P, rep):
    t = lambda *a, **k: table(P, rep, 'names', *a, **k)
    t('eprempy.paths:localize', 'p normalized', [
        Case('return Path(normalize(p).name)', {'normalized': True}),
        Case('return Path(Path(p).name)', {'normalized': False})],
      words=['parent', 'stem'])
    t('eprempy.paths:normalize', 'p', [
        Case('return Path(p).expanduser().resolve()')], words=['absolute', 'strict'])
    opts = ('branches', 'config', 'inputs', 'output', 'rundir', 'logname')
    default = {'config': 'eprem.cfg', 'inputs': 'inputs', 'output': 'eprem.log',
               'rundir': 'runs', 'logname': 'runs'}
    root = 'normalize(path)'
    for given in (True, False):
        v = {n: (f'kwargs.get({n!r})' if given else repr(default[n])) for n in default}
        br = "either((*kwargs.get('branches'),), tuple(kwargs.get('branches')))" \
            if given else 'either((), tuple(()), tuple())'
        item = {'root': root, 'branches': br,
                'config': f'str({v["config"]})' if given else "either(str('eprem.cfg'), 'eprem.cfg')",
                'inputs': f'{root} / localize({v["inputs"]})',
                'output': f'localize({v["output"]})',
                'rundir': f'localize({v["rundir"]})',
                'logname': f"localize({v['logname']}).with_suffix('.json')"}
        want = '{' + ', '.join(f'{k!r}: {x}' for k, x in item.items()) + '}'
        facts = {('call', ('attr', ('sym', '**kwargs'), 'get'),
                  (('k', 'str', n),), ()): given for n in opts}
        t(J + 'Attrs.__init__', 'path **kwargs', [
            Case('return None', stores={'_public': want})], facts=facts,
          name=f"Attrs.__init__, {'all' if given else 'no'} options",
          words=['normalized', 'get', 'kwargs'])
    for n in ('root',) + opts:
        t(J + 'Attrs.' + n, '', [Case(f'return self._public[{n!r}]')],
          words=list(opts))
    keys = 'each(either(self._public.items(), self._public))'
    t(J + 'Attrs.options', '', [
        Case('return self._options', {'self._options is None': False}),
        Case('return {many(each(self._public)): self._public[each(self._public)]}', {
            'self._options is None': True, "each(self._public) == 'root'": False}),
        Case('return {}', {'self._options is None': True,
                           "each(self._public) == 'root'": True}, name='root')],
      zero='{}', maybe=(2,))
    t(J + 'Attrs.serial', '', [
        Case('return self._serial', {'self._serial is None': False}),
        Case('return {many(each(self._public)): '
             'self._serialize(self._public[each(self._public)])}', {
                 'self._serial is None': True})], inline=lambda g: False)
    t(J + 'Attrs._serialize', 'this', [
        Case('return str(this)', {'isa(this, Path)': True}),
        Case('return this', {'isa(this, Path)': False})])


HARMFUL = {'rmtree', 'rename', 'unlink', 'rmdir', 'write_text', 'write_bytes', 'touch',
           'copyfile', 'copy2', 'copytree', 'copyfileobj', 'move', 'truncate', 'removedirs',
           'renames', 'mkdir', 'makedirs', 'symlink_to', 'chmod', 'Popen', 'system',
           'check_call', 'check_output', 'call', 'remove'}
EXTERNAL = {'os', 'shutil', 'subprocess'}
HOME = {'eprempy.project', 'eprempy.cli', 'eprempy._project_main', 'eprempy.__main__'}


def sites(P, rep):
    """Calls that may change the file system."""
    found = []
    for name, m in P.modules.items():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            word = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            owner = f.value.id if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) else ''
            if word in ('remove', 'rename', 'call', 'move', 'system') and owner not in EXTERNAL:
                if word != 'rename':
                    continue
            if word == 'open':
                modes = [a.value for a in list(n.args) + [k.value for k in n.keywords]
                         if isinstance(a, ast.Constant) and isinstance(a.value, str)
                         and set(a.value) <= set('rwxabt+') and len(a.value) < 4]
                if any(set(x) & set('wax+') for x in modes):
                    found.append((name, n.lineno, 'open for writing'))
                continue
            if word in HARMFUL:
                found.append((name, n.lineno, word))
    rep.count('sites', len(found))
    for name, line, word in found:
        rep.ob('sites', f"{word} in {name}", name in HOME,
               'a module other than those of projects and tools changes files',
               f"{name}:{line}")
    rep.ob('sites', 'file-changing calls', len(found) > 5 or None, 'not found')
