"""Program model: modules, classes, functions of /repo, with resolved imports."""
import ast
import os

REPO = os.environ.get('PA_REPO', '/repo')


class FuncInfo(object):
    def __init__(self, node, mod, cls=None, kind='func'):
        self.node, self.mod, self.cls, self.kind = node, mod, cls, kind
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = mod.name + '.' + (cls.name + '.' if cls else '') + self.name

    @property
    def site(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)


class ClassInfo(object):
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.qual = mod.name + '.' + node.name
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.statics = {}
        self.classm = {}
        self.attrs = {}
        self.bases = node.bases

    def lookup(self, prog, name, seen=None):
        for tab, kind in ((self.props, 'prop'), (self.methods, 'method'), (self.statics, 'static'),
                          (self.classm, 'class'), (self.attrs, 'attr')):
            if name in tab:
                return kind, tab[name], self
        for b in self.base_classes(prog):
            r = b.lookup(prog, name)
            if r is not None:
                return r
        return None

    def base_classes(self, prog):
        out = []
        for b in self.bases:
            v = prog.resolve_static(self.mod, b)
            if isinstance(v, ClassInfo):
                out.append(v)
        return out

    def mro(self, prog):
        out = [self]
        for b in self.base_classes(prog):
            for c in b.mro(prog):
                if c not in out:
                    out.append(c)
        return out


class Module(object):
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.names = {}     # name -> FuncInfo / ClassInfo / ('import', dotted) / ('assign', expr)


class Program(object):
    def __init__(self, repo=None, package='pympc'):
        self.repo = repo or REPO
        self.mods = {}
        self.errors = []
        root = os.path.join(self.repo, package)
        for d, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in ('test', 'tests', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path) as fh:
                    src = fh.read()
                m = Module(name, path, rel, ast.parse(src, path))
                m.src = src
                self.mods[name] = m
        for m in self.mods.values():
            self._index(m, m.tree.body)

    def _index(self, m, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                m.names[s.name] = FuncInfo(s, m)
            elif isinstance(s, ast.ClassDef):
                m.names[s.name] = self._cls(s, m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m.names[a.asname or a.name] = ('import', self.absname(m, s) + '.' + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('assign', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ('assign', s.value)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                self._index(m, s.body)
                for h in getattr(s, 'handlers', []):
                    pass
                if isinstance(s, ast.If):
                    self._index(m, [x for x in s.orelse])

    @staticmethod
    def absname(m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        is_pkg = m.path.endswith('__init__.py')
        base = parts[:len(parts) - s.level + (1 if is_pkg else 0)]
        return '.'.join(base + ([s.module] if s.module else []))

    def _cls(self, node, m):
        c = ClassInfo(node, m)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                fi = FuncInfo(s, m, c)
                if 'property' in decs or any('cached_property' in d for d in decs):
                    fi.kind = 'prop'
                    c.props[s.name] = fi
                elif any(d.endswith('.setter') for d in decs):
                    c.setters[s.name] = fi
                elif 'staticmethod' in decs:
                    fi.kind = 'static'
                    c.statics[s.name] = fi
                elif 'classmethod' in decs:
                    fi.kind = 'class'
                    c.classm[s.name] = fi
                else:
                    fi.kind = 'method'
                    c.methods[s.name] = fi
                fi.decorators = decs
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
        return c

    def resolve_dotted(self, dotted, seen=()):
        """FuncInfo / ClassInfo / Module / ('ext', dotted)."""
        if dotted in self.mods:
            return self.mods[dotted]
        if '.' in dotted:
            head, tail = dotted.rsplit('.', 1)
            h = self.resolve_dotted(head, seen)
            if isinstance(h, Module):
                return self.resolve_in(h, tail, seen)
        return ('ext', dotted)

    def resolve_in(self, mod, name, seen=()):
        if (mod.name, name) in seen:
            return None
        e = mod.names.get(name)
        if e is None:
            sub = mod.name + '.' + name
            if sub in self.mods:
                return self.mods[sub]
            return None
        if isinstance(e, tuple) and e[0] == 'import':
            return self.resolve_dotted(e[1], seen + ((mod.name, name),))
        return e

    def resolve_static(self, mod, node):
        if isinstance(node, ast.Name):
            return self.resolve_in(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_static(mod, node.value)
            if isinstance(b, Module):
                return self.resolve_in(b, node.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return None

    def all_functions(self):
        for m in self.mods.values():
            for n, e in m.names.items():
                if isinstance(e, FuncInfo) and e.mod is m:
                    yield e
                elif isinstance(e, ClassInfo) and e.mod is m:
                    for tab in (e.methods, e.props, e.statics, e.classm, e.setters):
                        for f in tab.values():
                            yield f

    def find(self, qual):
        mod, rest = None, None
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            if '.'.join(parts[:i]) in self.mods:
                mod = self.mods['.'.join(parts[:i])]
                rest = parts[i:]
                break
        if mod is None or not rest:
            return mod
        e = self.resolve_in(mod, rest[0])
        if len(rest) == 1:
            return e
        if isinstance(e, ClassInfo):
            r = e.lookup(self, rest[1])
            return r[1] if r else None
        return None

    def where(self, qual):
        """file:line of a construct, or its name."""
        e = self.find(qual)
        node = getattr(e, 'node', None)
        if node is not None:
            return '%s:%d' % (e.mod.rel, node.lineno)
        return qual

    def files(self):
        return [m.rel for m in self.mods.values() if not m.rel.startswith('<')]
