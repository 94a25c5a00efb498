"""Source model: parsed modules, name resolution, classes, functions.

Nothing in here imports or runs the analysed package; everything is derived
from the syntax trees of the files below ``/repo/src``.
"""

import ast
import os


class AnalysisError(Exception):
    """The analysis cannot be carried out (a vanished anchor, a parse error)."""


BUILTINS = set(dir(__import__('builtins')))


class Module:
    def __init__(self, name, path, tree, ispkg, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.ispkg = ispkg
        self.source = source
        self.bindings = {}      # name -> list of ('func'|'class'|'assign'|'import', payload, node)


class Func:
    """A function or method definition."""

    new = False                     # whether the rules do not know it

    def __init__(self, module, qual, node, cls=None, outer=None):
        self.module = module
        self.qual = qual            # 'mod:Class.name'
        self.node = node
        self.cls = cls              # qualname of the defining class or None
        self.name = node.name if hasattr(node, 'name') else '<lambda>'

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"

    def decorators(self):
        return list(getattr(self.node, 'decorator_list', []))

    def __repr__(self):
        return f"<Func {self.qual}>"


def private(n):
    return n[:1] == '_' and not (n[:2] == '__' and n[-2:] == '__')


class Class:
    def __init__(self, module, qual, node):
        self.module = module
        self.qual = qual            # 'mod:Name'
        self.node = node
        self.name = node.name
        self.members = {}           # name -> list of ('func', Func) | ('assign', expr, node, idx) | ('class', Class)
        self.bases = []

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"

    def __repr__(self):
        return f"<Class {self.qual}>"


def dotted(node):
    """'a.b.c' for a pure Name/Attribute chain, else None."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def isoverload(node):
    for d in getattr(node, 'decorator_list', []):
        name = dotted(d)
        if name and name.split('.')[-1] == 'overload':
            return True
    return False


def toplevel(body):
    """Statements executed at this level, looking through if/try/with."""
    for s in body:
        yield s
        if isinstance(s, ast.If):
            yield from toplevel(s.body)
            yield from toplevel(s.orelse)
        elif isinstance(s, ast.Try):
            yield from toplevel(s.body)
            for h in s.handlers:
                yield from toplevel(h.body)
            yield from toplevel(s.orelse)
            yield from toplevel(s.finalbody)
        elif isinstance(s, (ast.With, ast.For, ast.While)):
            yield from toplevel(s.body)


_parsed = {}


class Program:
    """All modules of one package."""

    def __init__(self, root='/repo', package='eprempy', src='src', overlay=None):
        overlay = overlay or {}
        self.root = root
        self.package = package
        base = os.path.join(root, src, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package source {base} not found")
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self._mro = {}
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, os.path.join(root, src))
                parts = rel[:-3].split(os.sep)
                ispkg = parts[-1] == '__init__'
                if ispkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                if os.path.relpath(path, root) in overlay:
                    text = overlay[os.path.relpath(path, root)]
                else:
                    with open(path, encoding='utf-8') as fp:
                        text = fp.read()
                tree = _parsed.get((path, text))
                if tree is None:
                    try:
                        tree = ast.parse(text, path)
                    except SyntaxError as err:
                        raise AnalysisError(f"cannot parse {path}: {err}")
                    if not overlay:
                        _parsed[(path, text)] = tree
                self.modules[name] = Module(
                    name, os.path.relpath(path, root), tree, ispkg, text
                )
        known = self._known()
        self._rename(known)
        for m in self.modules.values():
            self._index(m)
        for c in list(self.classes.values()):
            c.bases = [self._base(c, b) for b in c.node.bases]
        self._mark(known)

    def _known(self):
        """The functions that the rules know, by module."""
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.txt')
        known = {}
        with open(path, encoding='utf-8') as fp:
            for q in fp.read().split():
                known.setdefault(q.partition(':')[0], set()).add(q)
        return known

    def _rename(self, known):
        """Give private functions that were only renamed the names that the rules know."""
        names = {q.rpartition(':')[2].rpartition('.')[2] for qs in known.values() for q in qs}
        change = {}
        for m in self.modules.values():
            here, stack = {}, [('', m.tree.body)]
            while stack:
                pre, body = stack.pop()
                for s in toplevel(body):
                    if isinstance(s, ast.ClassDef):
                        stack.append((f"{pre}{s.name}.", s.body))
                    elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        here.setdefault(pre, {})[s.name] = [
                            x.arg for x in ast.walk(s.args) if isinstance(x, ast.arg)]
            want = {}
            for q in known.get(m.name, ()):
                pre, dot, n = q.rpartition(':')[2].rpartition('.')
                want.setdefault(pre + dot, set()).add(n.partition('@')[0])
            for pre, ns in want.items():
                if pre not in here:
                    continue
                lost = sorted(n for n in ns - set(here[pre]) if private(n))
                new = [n for n in here[pre] if n not in ns and n not in names
                       and private(n)]
                if lost and len(lost) == len(new) == 1:
                    change.setdefault(new[0], set()).add(lost[0])
        change = {k: v.pop() for k, v in change.items() if len(v) == 1}
        if not change:
            return
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for f in ('id', 'attr', 'name', 'arg'):
                    if isinstance(getattr(n, f, None), str) and not isinstance(
                            n, ast.arg) and getattr(n, f) in change:
                        setattr(n, f, change[getattr(n, f)])

    def _mark(self, known):
        """Mark functions that the rules do not know: they are part of their callers.

        A module where a known function is missing may have renamed it.
        """
        self.gone = {q.rpartition(':')[2].rpartition('.')[2].partition('@')[0]
                     for qs in known.values() for q in qs if q not in self.funcs}
        self.gone -= {f.name for f in self.funcs.values()}
        renamed = {m for m, qs in known.items() if any(q not in self.funcs for q in qs)}
        for q, f in self.funcs.items():
            f.new = q not in known.get(f.module.name, ()) and \
                f.module.name not in renamed and not (
                    f.name.startswith('__') and f.name.endswith('__'))

    # -- indexing -------------------------------------------------------

    def _index(self, m):
        def bind(name, kind, payload, node):
            m.bindings.setdefault(name, []).append((kind, payload, node))
        for s in toplevel(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if isoverload(s):
                    continue
                f = Func(m, f"{m.name}:{s.name}", s)
                self.funcs[f.qual] = f
                bind(s.name, 'func', f, s)
            elif isinstance(s, ast.ClassDef):
                c = self._index_class(m, s, f"{m.name}:{s.name}")
                bind(s.name, 'class', c, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        bind(a.asname, 'import', (a.name, None), s)
                    else:
                        bind(a.name.split('.')[0], 'import',
                             (a.name.split('.')[0], None), s)
            elif isinstance(s, ast.ImportFrom):
                base = self._absolute(m, s)
                for a in s.names:
                    bind(a.asname or a.name, 'import', (base, a.name), s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in names_in_target(t):
                        bind(n, 'assign', s, s)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                if isinstance(s.target, ast.Name):
                    if getattr(s, 'value', None) is not None:
                        bind(s.target.id, 'assign', s, s)
            elif isinstance(s, ast.For):
                for n in names_in_target(s.target):
                    bind(n, 'assign', s, s)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        for n in names_in_target(i.optional_vars):
                            bind(n, 'assign', s, s)

    def _index_class(self, m, node, qual):
        c = Class(m, qual, node)
        self.classes[qual] = c
        for s in toplevel(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if isoverload(s):
                    continue
                f = Func(m, f"{qual}.{s.name}", s, cls=qual)
                role = accessor_role(s)
                if role in ('setter', 'deleter'):
                    self.funcs[f"{qual}.{s.name}@{role}"] = f
                    f.qual = f"{qual}.{s.name}@{role}"
                    c.members.setdefault(s.name, []).append(('accessor', f))
                    continue
                self.funcs[f.qual] = f
                c.members.setdefault(s.name, []).append(('func', f))
            elif isinstance(s, ast.ClassDef):
                n = self._index_class(m, s, f"{qual}.{s.name}")
                c.members.setdefault(s.name, []).append(('class', n))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.members.setdefault(t.id, []).append(
                            ('assign', s.value, s, None))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                c.members.setdefault(e.id, []).append(
                                    ('assign', s.value, s, i))
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                if isinstance(s.target, ast.Name):
                    c.members.setdefault(s.target.id, []).append(
                        ('assign', s.value, s, None))
        return c

    def _absolute(self, m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        if not m.ispkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[:-(s.level - 1)]
        base = '.'.join(parts)
        return f"{base}.{s.module}" if s.module else base

    # -- resolution -----------------------------------------------------

    def resolve_global(self, modname, name, seen=()):
        """A reference term for a module-level name, or None.

        ('mod', name) | ('func', qual) | ('class', qual) |
        ('glob', 'mod:name') | ('ext', dotted) | None
        """
        if (modname, name) in seen:
            return None
        seen = (*seen, (modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', f"{modname}.{name}")
        b = m.bindings.get(name)
        if b:
            kind, payload, _ = b[-1]
            if kind == 'func':
                return ('func', payload.qual)
            if kind == 'class':
                return ('class', payload.qual)
            if kind == 'assign':
                return ('glob', f"{modname}:{name}")
            base, attr = payload
            if attr is None:
                if base in self.modules:
                    return ('mod', base)
                return ('ext', base)
            if base in self.modules:
                found = None
                if (base, attr) != (modname, name):
                    found = self.resolve_global(base, attr, seen)
                if found is not None:
                    return found
                if f"{base}.{attr}" in self.modules:
                    return ('mod', f"{base}.{attr}")
                return None
            if f"{base}.{attr}" in self.modules:
                return ('mod', f"{base}.{attr}")
            return ('ext', f"{base}.{attr}")
        if f"{modname}.{name}" in self.modules:
            return ('mod', f"{modname}.{name}")
        return None

    def resolve_dotted(self, modname, text):
        """Resolve 'a.b.c' from the namespace of a module."""
        parts = text.split('.')
        r = self.resolve_global(modname, parts[0])
        if r is None:
            if parts[0] in BUILTINS:
                r = ('ext', f"builtins.{parts[0]}")
            else:
                return None
        for p in parts[1:]:
            r = self.member(r, p)
            if r is None:
                return None
        return r

    def member(self, r, name):
        if r[0] == 'mod':
            return self.resolve_global(r[1], name)
        if r[0] == 'ext':
            return ('ext', f"{r[1]}.{name}")
        if r[0] == 'class':
            found = self.lookup(r[1], name)
            if found is None:
                return None
            owner, entry = found
            if entry[0] == 'func':
                return ('func', entry[1].qual)
            if entry[0] == 'class':
                return ('class', entry[1].qual)
            return ('cattr', owner, name)
        return None

    def _base(self, c, node):
        if isinstance(node, ast.Subscript):
            node = node.value
        text = dotted(node)
        if text is None:
            return ('ext', '?')
        # class-scope first (nested classes), then module.
        return self.resolve_dotted(c.module.name, text) or ('ext', text)

    def mro(self, qual):
        """Linearised repo-class ancestors (externals are skipped)."""
        if qual in self._mro:
            return self._mro[qual]
        self._mro[qual] = [qual]    # recursion guard
        c = self.classes[qual]
        bases = [b[1] for b in c.bases if b[0] == 'class' and b[1] in self.classes]
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [qual]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                head = seqs[0][0]
            out.append(head)
            seqs = [[x for x in s if x != head] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[qual] = out
        return out

    def extbases(self, qual):
        out = set()
        for q in self.mro(qual):
            for b in self.classes[q].bases:
                if b[0] != 'class':
                    out.add(b[1])
        return out

    def lookup(self, qual, name, after=None):
        """(owner qual, entry) for an attribute found along the MRO."""
        mro = self.mro(qual)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for q in mro:
            entries = self.classes[q].members.get(name)
            if entries:
                for e in reversed(entries):
                    if e[0] != 'accessor':
                        return q, e
        return None

    def stored(self, qual):
        """Attributes that methods of a class or its bases set on instances."""
        cache = self.__dict__.setdefault('_stored', {})
        if qual not in cache:
            out = set()
            for q in self.mro(qual):
                for entries in self.classes[q].members.values():
                    for e in entries:
                        if e[0] != 'func' or self.isclassmethod(e[1]):
                            continue
                        a = e[1].node.args
                        pos = [*a.posonlyargs, *a.args]
                        if not pos:
                            continue
                        out |= {x.attr for x in ast.walk(e[1].node)
                                if isinstance(x, ast.Attribute)
                                and isinstance(x.ctx, ast.Store)
                                and isinstance(x.value, ast.Name)
                                and x.value.id == pos[0].arg}
            cache[qual] = out
        return cache[qual]

    def issub(self, a, b):
        return a in self.classes and b in self.mro(a)

    def subclasses(self, qual):
        return [q for q in self.classes if qual in self.mro(q)]

    def isproperty(self, f):
        for d in f.decorators():
            text = dotted(d)
            if text in ('property', 'functools.cached_property',
                        'cached_property', 'abc.abstractproperty'):
                return True
        return False

    def isstatic(self, f):
        return any(dotted(d) == 'staticmethod' for d in f.decorators())

    def isclassmethod(self, f):
        return any(dotted(d) == 'classmethod' for d in f.decorators())

    def isabstract(self, f):
        return any(
            (dotted(d) or '').split('.')[-1] in
            ('abstractmethod', 'abstractproperty')
            for d in f.decorators()
        )

    # -- anchors --------------------------------------------------------

    def need_class(self, qual):
        r = self._public('class', qual)
        if r is None:
            raise AnalysisError(f"anchor class {qual} not found")
        return self.classes[r]

    def need_func(self, qual):
        r = self._public('func', qual)
        if r is None:
            raise AnalysisError(f"anchor function {qual} not found")
        return self.funcs[r]

    def _public(self, kind, qual):
        mod, name = qual.split(':')
        head, *rest = name.split('.')
        r = self.resolve_global(mod, head)
        if r is None:
            return None
        for p in rest:
            r = self.member(r, p)
            if r is None:
                return None
        return r[1] if r[0] == kind else None

    def need_module(self, name):
        if name not in self.modules:
            raise AnalysisError(f"anchor module {name} not found")
        return self.modules[name]


def names_in_target(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from names_in_target(e)
    elif isinstance(t, ast.Starred):
        yield from names_in_target(t.value)


def accessor_role(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
            return d.attr
    return None
