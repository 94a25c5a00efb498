"""R18: the log and the metadata of a project follow its runs."""

from ..absint import State, K
from ..spec import table, Case
from .r17 import names

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the log of runs, of the creation, restoration, copying "
    "and renaming of projects, and of the execution of runs. Each function is compared "
    "with a decision table that states the value written to or read from each file and "
    "the order of changes to directories, log and metadata on every path."
)
ASSUMPTIONS = [
    "json, pathlib, shutil and subprocess do what Python documents",
    "writing a file that could be opened does not fail",
]
J = 'eprempy.project:'
L = J + 'RunLog.'
I = J + 'Interface.'
SELF = ('sym', 'self')


def copied(it, f, args, kwargs, st, node, fr):
    """A copy of an unknown mapping, which can be changed."""
    return [(it.alloc('dict', ((('**', it.snap(f[1], st)), K(None)),), st), st)]


COPY = {('.', 'copy'): copied}


def run(P, rep):
    rep.rule('entries', "operations on the log change the entry they name and no other", 12)
    rep.rule('writing', "what is written to a file of a project is what is read back", 5)
    rep.rule('pairing', "the log and the metadata follow changes on disk", 5)
    rep.rule('restore', "a project has the attributes it was created with", 5)
    rep.rule('command', "a run executes EPREM in its directory with its config file", 4)
    rep.rule('names', "attributes are unchanged by writing and reading them", 5)
    names(P, rep)
    entries(P, rep)
    writing(P, rep)
    pairing(P, rep)
    restore(P, rep)
    command(P, rep)


def entries(P, rep):
    t = lambda *a, **k: table(P, rep, 'entries', *a, models=COPY, **k)
    log = 'self._asdict'
    same = f'either({{**{log}}}, {log}, dict({log}))'
    plus = lambda k, v: (f'either({{**{log}, {k}: {v}}}, '
                         f'{{**{{**{log}}}, {k}: {v}}})')
    dump = lambda x: [f'self.dump({x})']
    key = 'either(str(key), key)'
    t(L + 'create', 'key *mapping **items', [
        Case('raise TypeError', {'mapping': True, 'items': True}, never=['self.dump(_)']),
        Case('return self', {'mapping': True, 'items': False},
             does=dump(plus('str(key)', 'either(dict(*mapping), {**_}, mapping[0], _)'))),
        Case('return self', {'mapping': False}, name='items',
             does=dump(plus('str(key)', 'either({**items}, items, dict(*mapping), {}, _)')))],
      decide=None, ignore=['dict(*mapping)', 'len(mapping)'])
    t(L + 'load', 'key source filetype', [
        Case('return self', does=dump(plus('str(key)',
             'self._read_from_file(source, filetype)')))])
    got = ("self._source_loader({})(either(Path(source).open('r'), Path(source).open(), "
           "open(source), open(source, 'r')).__enter__())")
    a, b = got.format('filetype'), got.format('Path(source).suffix')
    full = lambda x: f'either({{**{x}}}, {x}, dict({x}))'
    t(L + '_read_from_file', 'source filetype', [
        Case('return ' + full(a), {'filetype': True, a: True}),
        Case('return {}', {'filetype': True, a: False}),
        Case('return ' + full(b), {'filetype': False, b: True}, name='suffix'),
        Case('return {}', {'filetype': False, b: False}, name='suffix, nothing')],
      words=['_asdict', 'copy', 'suffix', 'stem', 'name'], zero=None)
    kind = "filetype.lower().lstrip('.')"
    t(L + '_source_loader', 'filetype', [
        Case('return yaml.safe_load', {f"{kind} == 'yaml'": True, '_HAVE_YAML': True}),
        Case('raise ReadTypeError', {f"{kind} == 'yaml'": True, '_HAVE_YAML': False}),
        Case('return json.load', {f"{kind} == 'yaml'": False, f"{kind} == 'json'": True}),
        Case('raise ValueError', {f"{kind} == 'yaml'": False, f"{kind} == 'json'": False})],
      words=['loads', 'load'])
    t(L + 'append', 'target key value', [
        Case('raise LogKeyError', {'except': True}, never=['self.dump(_)']),
        Case('return self', {'except': False}, does=dump(f'either({same}, {{**{log}, str(target): _}}, {{**{{**{log}}}, str(target): _}})'))],
      words=['copy'])
    record(P, rep)
    old = 'each(self._asdict)'
    isold = f'{old} == str(source)'
    keep = f'many({old}): self._asdict[{old}]'
    moved = 'str(target): self._asdict[str(source)]'
    ok = 'str(source) in either(self, self._asdict)'
    t(L + 'mv', 'source target', [
        Case('raise LogKeyError', {ok: False}, never=['self.dump(_)']),
        Case('return self', {ok: True, isold: False}, does=dump(f'{{{keep}, {moved}}}')),
        Case('return self', {ok: True, isold: True}, does=dump(f'{{{moved}}}'),
             name='the entry itself')], maybe=(2,), words=['pop'])
    isold = f'{old} == str(target)'
    t(L + 'rm', 'target', [
        Case('return self', {isold: False}, does=dump(f'{{{keep}}}')),
        Case('return self', {isold: True}, does=dump('{}'), name='the entry itself')],
      maybe=(1,), words=['pop'])
    t(L + '__getitem__', 'key', [
        Case('return self._asdict[key]', {'key in self._asdict': True}),
        Case('raise either(LogKeyError, KeyError)', {'key in self._asdict': False})])
    t(L + '__len__', '', [Case('return len(self._asdict)')])
    t(L + '__iter__', '', [Case('return either(iter(self._asdict), each(self._asdict))')])
    new = 'normalize(path)'
    t(L + '__init__', 'path **common', [
        Case('raise TypeError', {f'{new}.exists()': True, 'common': True},
             never=['self.dump(_)']),
        Case('return None', {f'{new}.exists()': True, 'common': False},
             stores={'_path': new}, never=['self.dump(_)']),
        Case('return None', {f'{new}.exists()': False}, stores={'_path': new},
             does=['self.dump(common)'], name='new')])


def record(P, rep):
    """The entry that a value is appended to, and the key it gets."""
    from ..absint import Interp, Config, show
    fn = P.funcs.get(L + 'append')
    if fn is None:
        rep.ob('entries', 'RunLog.append', None, 'is not defined')
        return
    it = Interp(P, Config(inline=lambda g: False))
    names = fn.params[1:] if hasattr(fn, 'params') else None
    a = [x.arg for x in fn.node.args.args][1:]
    if len(a) != 3:
        rep.ob('entries', 'RunLog.append: record', None, 'other parameters')
        return
    for o in it.run(fn, selfclass=J + 'RunLog',
                    args=dict(zip(a, (('sym', 'target'), ('sym', 'key'), ('sym', 'value'))))):
        if o.kind != 'return':
            continue
        sets = [e.data for e in o.st.trace if e.kind == 'setitem']
        good = [s for s in sets if s[1] == ('sym', 'key') and s[2] == ('sym', 'value')
                and s[0][0] == 'sub' and s[0][2][0] == 'call'
                and s[0][2][2] == (('sym', 'target'),)]
        plain = all(s[0][0] == 'sub' for s in sets)
        rep.ob('entries', 'RunLog.append: record',
               True if good else (False if sets and plain else None),
               'sets ' + '; '.join(f"{show(s[0])[:60]}[{show(s[1])}] = {show(s[2])}"
                                   for s in sets), fn.where)


def writing(P, rep):
    t = lambda *a, **k: table(P, rep, 'writing', *a, **k)
    item = 'contents[each(contents)]'
    ispath = f'isa({item}, Path)'
    for v, x in ((True, f'str({item})'), (False, item)):
        pass
    text = lambda v: f'json.dumps({{many(each(contents)): {v}}}, ...)'
    into = "self.path.open('w')"
    rows = [Case('return None', {ispath: v}, name=str(v), does=[
        text(x), f'either({into}.__enter__().write({text(x)}), self.path.write_text({text(x)}))'])
        for v, x in ((True, f'str({item})'), (False, item))]
    t(L + 'dump', 'contents', rows, words=['dump', '_path'])
    read = "either(self.path.open('r'), self.path.open())"
    data = f'json.load({read}.__enter__())'
    t(L + '_asdict', '', [Case(
        f'return either({data}, dict({data}), {{**{data}}}, '
        'json.loads(self.path.read_text()), dict(json.loads(self.path.read_text())))')])
    t(L + 'path', '', [Case('return self._path')])
    t(L + 'name', '', [Case('return self.path.name')], words=['stem'])
    conf = "(path / '.eprem.conf')"
    attrs = 'Attrs(path, **options)'
    t(I + '_create_project', 'path **options', [
        Case('return Attrs(path, **options)', does=[
            f'either({attrs}.root, path).mkdir(...)',
            f"either(path, {attrs}.root) / '.eprem.conf'" if False else '_.open("w")',
            f'json.dump({attrs}.serial, {conf}.open("w").__enter__(), ...)'])],
      words=['dumps', 'options', 'write'])
    data = f'json.load(either({conf}.open("r"), {conf}.open()).__enter__())'
    whole = f'either({data}, dict({data}), {{**{data}}})'
    rest = f'either({whole}, {{**{data}}}, {{**{whole}}}, _)'
    t(I + '_restore_project', 'path', [
        Case(f"return either(Attrs({whole}['root'], **{rest}), "
             f"Attrs({whole}.pop('root'), **{rest}))")],
      words=['path'])
    data = 'json.load(either(metadata.open("r"), metadata.open()).__enter__())'
    items = f'many(each({data})): {data}[each({data})]'
    kept = f'either({{{items}, "root": target}}, {{**{data}, "root": target}})'
    t(I + '_update_metadata', 'source target metadata', [
        Case('return None', {f'each({data}) == source': False}, does=[
            'metadata.open("w")',
            f'json.dump({kept}, metadata.open("w").__enter__(), ...)'])],
      ignore=['source in path'],
      words=['dumps', 'write', 'remove', 'append', 'path', 'suppress', 'ValueError'])


def pairing(P, rep):
    t = lambda *a, **k: table(P, rep, 'pairing', *a, **k)
    dirs = 'either(self.directories, self._directories)'
    log = 'either(self.log, self._log)'
    it = f'each({dirs}.mv(source, target, branches=branches).errors(...))'
    run, new = (f'either({it}[{i}], unpack({it}, {i}))' for i in (0, 1))
    inlog = f'either(str({run}), {run}) in {log}'
    some = f'{dirs}.mv(source, target, branches=branches)'
    skip = ['silent', '_._get_branch_name(_)', 'self.branches']
    t(I + 'mv', 'source target branches errors silent', [
        Case('return None', {some: False}, never=['_.mv(_, _)']),
        Case('return None', {some: True, inlog: True}, sure=True,
             does=[f'{log}.mv({run}, {new})'], name='logged'),
        Case('return None', {some: True, inlog: False}, sure=True,
             never=[f'{log}.mv(_, _)'], name='not in the log'),
        Case('return None', {some: True}, never=[
            f'{log}.mv({new}, _)', f'{log}.mv(_, {run})', f'{log}.mv(source, _)',
            f'{log}.rm(_)'], name='renamed')], ignore=skip, words=['_get_branch_name', 'errors'])
    some = f'{dirs}.rm(run, branches=branches)'
    it = f'each({some}.errors(...))'
    t(I + 'rm', 'run branches errors silent', [
        Case('return None', {some: False}, never=['self.log.rm(_)']),
        Case('return None', {some: True}, name='removed', choice=True,
             does=[f'{log}.rm({it})']),
        Case('return None', {some: True}, name='no runs', choice=True,
             never=['_.rm(_)'])], ignore=skip,
      words=['_get_branch_name', 'errors', 'mv'])
    new = 'normalize(target)'
    t(I + 'rename', 'target force silent', [
        Case('raise', {f'{new}.exists()': True, 'force': False}),
        *[Case('return None', {f'{new}.exists()': e, **f}, name=str(e), does=[
            f'{dirs}.update(root={new})', f'{log}.update_directory({new})',
            f'self._update_metadata(either(str(self.root), _), str({new}), '
            f'{new} / ".eprem.conf")'],
            stores={'_attrs': f'self._restore_project({new})', '_name': 'None'})
          for e, f in ((False, {}), (True, {'force': True}))]],
      ignore=['silent', '_.parent == _', '_.parent'])
    old, at = 'either(self.path, self._path).parent', 'Path(each(self))'
    inside = f'{old} in {at}.parents'
    props = lambda g: g.module.name == 'eprempy.project' and g.name in ('path', 'name')
    path = 'self._path'
    t(L + 'update_directory', 'target', [
        Case('raise PathTypeError', {f'{new}.exists()': False},
             never=['self.mv(_, _)', 'self.dump(_)']),
        Case('raise PathTypeError', {f'{new}.is_dir()': False},
             never=['self.mv(_, _)', 'self.dump(_)'], name='not a directory'),
        Case('return self', {f'{new}.exists()': True, f'{new}.is_dir()': True, inside: True},
             sure=True, name='inside',
             does=[f'self.mv(each(self), {new} / {at}.relative_to({path}.parent))'],
             stores={'_path': f'{new} / {path}.name'}),
        Case('return self', {f'{new}.exists()': True, f'{new}.is_dir()': True, inside: False},
             sure=True, name='outside', never=['self.mv(_, _)'],
             stores={'_path': f'{new} / {path}.name'}),
        Case('return self', {f'{new}.exists()': True, f'{new}.is_dir()': True},
             name='all', stores={'_path': f'{new} / {path}.name'})],
      impossible=[{f'{new}.exists()': False, f'{new}.is_dir()': True}], props=props,
      words=['parent', 'name', 'replace', 'str'])
    t(I + 'remove', 'force silent', [
        Case('return None', does=['rmtree(self.root, ignore_errors=force)'],
             stores={'_isvalid': 'False'})], ignore=['silent'],
      words=['remove', 'path', 'suppress', 'ValueError', 'parent'])
    for m, want in (('log', 'self._log'), ('root', 'self.directories.root'),
                    ('runs', 'self.directories.runs'),
                    ('branches', 'self.directories.branches'),
                    ('directories', 'self._directories')):
        t(I + m, '', [Case(f'return {want}')])
    t(I + 'name', '', [
        Case('return self._name', {'self._name is None': False}),
        Case('return self.root.name', {'self._name is None': True},
             stores={'_name': 'self.root.name'})])
    t(I + '__bool__', '', [Case('return self._isvalid')])


def restore(P, rep):
    t = lambda *a, **k: table(P, rep, 'restore', *a, **k)
    file = '(attrs.root / attrs.logname)'
    t(I + '_get_log', 'attrs', [
        Case(f'return RunLog({file})', {f'{file}.exists()': True}),
        Case(f'return RunLog({file}, config=attrs.config, output=attrs.output)',
             {f'{file}.exists()': False})])
    old = 'self._restore_project(normalize(copy)).options'
    none = 'options[each(options)] is None'
    given = 'many(each(options)): options[each(options)]'
    t(I + '_init_project', 'root copy **options', [
        Case('return self._get_attrs(root, **options)', {'copy': False}),
        Case(f'return self._get_attrs(root, **either({{**{old}, {given}}}, {old}))',
             {'copy': True, none: False}),
        Case(f'return self._get_attrs(root, **either({{**{old}}}, {old}))',
             {'copy': True, none: True}, name='not given')], maybe=(2,))
    names = ('branches', 'config', 'inputs', 'output', 'rundir', 'logname')
    kws = ', '.join(f'{n}={n}' for n in names)
    attrs = f'self._init_project(root, copy, {kws})'
    dirs = f'RunPaths({attrs}.root, {attrs}.branches, {attrs}.rundir)'
    copied_ = 'self._restore_project(normalize(copy))'
    same = dict(_attrs=attrs, _log=f'self._get_log({attrs})', _directories=dirs,
                _isvalid='True', _name='None')
    t(I + '__init__', 'root branches config inputs output rundir logname copy', [
        Case('return None', {'copy': False}, stores=same,
             does=[f'self._setup_cli({attrs})', f'{attrs}.inputs.mkdir(parents=True, exist_ok=True)'],
             never=['copytree(...)']),
        Case('return None', {'copy': True}, stores=same, name='copy',
             does=[f'{attrs}.inputs.mkdir(parents=True, exist_ok=True)',
                   f'copytree({copied_}.inputs, {attrs}.inputs, dirs_exist_ok=True)'])])
    t(I + '__eq__', 'other', [
        Case('return self._attrs.serial == other._attrs.serial', {'isa(other, Interface)': True}),
        Case('return either(NotImplemented, False)', {'isa(other, Interface)': False})],
      words=['_public', 'options'])
    table(P, rep, 'restore', J + 'create',
          'path branches config inputs output rundir logname copy verbose', [
              Case('return None', does=[
                  f'Interface(path, {", ".join(names)}, copy)'])],
          ignore=['verbose', 'len(_) < _'])


def command(P, rep):
    t = lambda *a, **k: table(P, rep, 'command', *a, **k)
    run = ("either(name, datetime.datetime.now().strftime('%Y-%m-%dT%H-%M-%S.%f'))")
    paths = f'either(self.directories, self._directories).mkdir({run}, branches=branches)'
    each = f'each({paths}.errors(...))'
    t(I + 'run', 'config name branches nproc environment errors silent', [
        Case('return None', does=[
            f'self._create_run(config, {each}, nproc, environment, silent)'], choice=True, name='each path'),
        Case('return None', does=[paths], never=['self._create_run(...)'], choice=True,
             name='no path')],
      ignore=['name'], words=['strftime', 'now', 'datetime'])
    folder = 'either(self.root / self._attrs.inputs.name, self._attrs.inputs)'
    own = f'({folder} / config)'
    find = lambda n, e: f'locate({n!r}, path.parent.parent, {e})'
    rows = []
    cfg = 'either(self._attrs.config, quote(self._attrs.config))'
    for owns in (True, False):
        for ok in (True, False):
            for n, env in ((1, 1), (1, 0), (0, 1), (0, 0)):
                e = 'environment' if env else '{}'
                rows.append(Case('return None', {
                    f'{own}.is_file()': owns, '_.returncode == 0': ok, 'nproc': bool(n),
                    'environment': bool(env)},
                    name=f"{'project' if owns else 'other'} config, "
                         f"{'success' if ok else 'failure'}, {'nproc' if n else 'one'}, {e}",
                    does=[f'copy({own if owns else "fullpath(config, True)"}, '
                          'path / self._attrs.config)',
                          '(path / self._attrs.output).open("w")',
                          f'Popen(both({"has(nproc)" if n else "_"}, both(both('
                          f'has({find("mpirun", e)}), has({find("eprem", e)})), '
                          'has(self._attrs.config))), shell=True, cwd=path, '
                          'stdout=(path / self._attrs.output).open("w").__enter__(), '
                          'stderr=subprocess.STDOUT)', '_.wait()'] + (
                              ['self.log.create(str(path), either({"command": _, "time": _}, _))']
                              if ok else []),
                    never=[] if ok else ['self.log.create(...)']))
    t(I + '_create_run', 'config path nproc environment silent', rows,
      ignore=['silent', 'self.branches'],
      wrong=[f'{x}.{m}()' for m in ('is_file', 'exists')
             for x in ('Path(config)', 'fullpath(config)', 'fullpath(config, True)',
                       'fullpath(config, False)', 'normalize(config)')],
      words=['str', 'quote', 'print', 'pid', 'strftime', 'now', 'datetime', 'wait', 'repr',
             'is_file', 'Path', 'exists'])
