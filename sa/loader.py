"""Source loader: parses modules (never imports them), resolves names through
imports and re-exports, and builds the class model (bases, MRO, members)."""
import ast
import os

LIB_ROOTS = ['/opt/venv/lib/python3.12/site-packages']


class AnalysisBroken(Exception):
    """An anchor the analysis needs is not there (nothing can be decided)."""


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.src = src
        self.tree = ast.parse(src, path)
        self.bind = {}          # name -> list of binding nodes, in order
        self.imports = {}       # name -> ('mod', modname) | ('from', modname, attr)
        self.star = []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.FunctionDef):
                n._module = self
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.bind.setdefault(s.name, []).append(s)
                self.imports.pop(s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in self._names(t):
                        self.bind.setdefault(n, []).append(s)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                if isinstance(s.target, ast.Name) and (
                        isinstance(s, ast.AugAssign) or s.value is not None):
                    self.bind.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)
            elif isinstance(s, (ast.For, ast.With, ast.While)):
                self._scan(s.body)

    def _names(self, t):
        if isinstance(t, ast.Name):
            yield t.id
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                yield from self._names(e)
        elif isinstance(t, ast.Starred):
            yield from self._names(t.value)


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.members = {}       # name -> list of nodes
        self.annot = {}
        self._scan(node.body)
        self._mro = None

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.members.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in self.mod._names(t):
                        self.members.setdefault(n, []).append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annot[s.target.id] = s.annotation
                if s.value is not None:
                    self.members.setdefault(s.target.id, []).append(s)
            elif isinstance(s, (ast.If, ast.For, ast.With)):
                self._scan(s.body)


def empty_dict(e):
    return isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and isinstance(
        e.func, ast.Name) and e.func.id in ('dict', 'OrderedDict') and not e.args and not e.keywords


class World:
    """All parsed sources. roots: mapping of top-level package -> directory."""

    def __init__(self, roots):
        self.roots = dict(roots)
        self.mods = {}
        self.classes = {}

    def _find(self, name):
        parts = name.split('.')
        cands = []
        if parts[0] in self.roots:
            cands.append(self.roots[parts[0]])
        else:
            if parts[0] in ('bitcointx',):
                cands.extend(LIB_ROOTS)
        for r in cands:
            p = os.path.join(r, *parts)
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py'), True
            if os.path.isfile(p + '.py'):
                return p + '.py', False
        return None, False

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path, is_pkg = self._find(name)
        m = None
        if path:
            with open(path, encoding='utf-8') as f:
                m = Module(name, path, f.read(), is_pkg)
        self.mods[name] = m
        return m

    def repo_modules(self):
        if getattr(self, '_repo_modules', None) is None:
            import os
            out = []
            root = self.roots['elementstx']
            base = os.path.join(root, 'elementstx')
            for d, ds, fs in os.walk(base):
                ds[:] = [x for x in ds if x not in ('tests', '__pycache__')]
                for f in sorted(fs):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                        if rel.endswith('.__init__'):
                            rel = rel[:-9]
                        out.append(rel)
            self._repo_modules = sorted(out)
        return self._repo_modules

    def all_classes(self):
        if getattr(self, '_all_classes', None) is None:
            self._all_classes = [
                self.classinfo(m, n) for m in map(self.module, self.repo_modules())
                for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)]
        return self._all_classes

    def memos(self):
        """module-level (and default argument) dictionaries that start empty and that functions
        write into: {qualified name: functions that write}"""
        if getattr(self, '_memos', None) is None:
            self._memos = r = {}
            for mn in self.repo_modules():
                m = self.module(mn)
                names = {}
                for s in m.tree.body:
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(
                        s, ast.AnnAssign) else []
                    for t in ts:
                        if isinstance(t, ast.Name):
                            names.setdefault(t.id, []).append(s.value)
                names = {n: mn + '.' + n for n, vs in names.items()
                         if len(vs) == 1 and empty_dict(vs[0])}
                for f in ast.walk(m.tree):
                    if isinstance(f, ast.Global):
                        for n in f.names:
                            names.pop(n, None)
                for f in ast.walk(m.tree):
                    if not isinstance(f, ast.FunctionDef):
                        continue
                    a = f.args
                    ps = a.posonlyargs + a.args
                    here = dict(names)
                    for x in ps + a.kwonlyargs:
                        here.pop(x.arg, None)
                    for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
                            list(zip(a.kwonlyargs, a.kw_defaults)):
                        if d is not None and empty_dict(d):
                            here[x.arg] = '%s#%s' % (f.name, x.arg)
                    for n in ast.walk(f):
                        t = None
                        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                            t = n.value
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                                n.func.attr in ('setdefault', 'update'):
                            t = n.func.value
                        if isinstance(t, ast.Name) and t.id in here:
                            r.setdefault(here[t.id], set()).add(mn + '.' + f.name)
        return self._memos

    def state_vars(self):
        """module attributes assigned from some function: not constants"""
        if getattr(self, '_state_vars', None) is None:
            r = set()
            self._state_vars = r
            for mn in self.repo_modules():
                m = self.module(mn)
                if m is None:
                    continue
                for n in ast.walk(m.tree):
                    ts = []
                    if isinstance(n, ast.Assign):
                        ts = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        ts = [n.target]
                    elif isinstance(n, ast.Delete):
                        ts = n.targets
                    for t in ts:
                        if isinstance(t, ast.Attribute):
                            q = self._dotted_module(m, t.value)
                            if q:
                                r.add(q + '.' + t.attr)
        return self._state_vars

    def _dotted_module(self, m, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        imp = m.imports.get(e.id)
        if imp is None:
            return None
        q = imp[1] if imp[0] == 'mod' else imp[1] + '.' + imp[2]
        q = '.'.join([q] + parts[::-1])
        return q if self.module(q) is not None else None

    def is_repo(self, name):
        return name.split('.')[0] in self.roots

    def resolve(self, modname, name, _seen=None):
        """Resolve `name` in module `modname`.
        -> ('func', Module, node) | ('class', ClassInfo) | ('assign', Module, [nodes])
         | ('module', modname) | ('ext', qualname) | None"""
        seen = _seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.module(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if name in m.bind and name not in m.imports:
            nodes = m.bind[name]
            last = nodes[-1]
            if isinstance(last, ast.FunctionDef):
                return ('func', m, last)
            if isinstance(last, ast.ClassDef):
                return ('class', self.classinfo(m, last))
            return ('assign', m, nodes)
        if name in m.imports:
            imp = m.imports[name]
            if name in m.bind:      # rebound later in the module
                nodes = m.bind[name]
                if isinstance(nodes[-1], ast.FunctionDef):
                    return ('func', m, nodes[-1])
                return ('assign', m, nodes)
            if imp[0] == 'mod':
                return ('module', imp[1])
            sub = imp[1] + '.' + imp[2]
            tm = self.module(imp[1])
            if tm is None:
                if self.module(sub) is not None:
                    return ('module', sub)
                return ('ext', sub)
            r = self.resolve(imp[1], imp[2], seen)
            if r is None and self.module(sub) is not None:
                return ('module', sub)
            return r
        for st in m.star:
            r = self.resolve(st, name, seen)
            if r is not None:
                return r
        if self.module(modname + '.' + name) is not None:
            return ('module', modname + '.' + name)
        return None

    def classinfo(self, m, node):
        q = m.name + '.' + node.name
        ci = self.classes.get(q)
        if ci is None or ci.node is not node:
            ci = ClassInfo(m, node, q)
            self.classes[q] = ci
        return ci

    def resolve_expr_class(self, m, e):
        """Resolve an expression naming a class -> ClassInfo | qualname str | None"""
        r = self.resolve_dotted(m, e)
        if r is None:
            return None
        if r[0] == 'class':
            return r[1]
        if r[0] == 'ext':
            return r[1]
        if r[0] == 'assign':
            last = r[2][-1]
            if isinstance(last, ast.Assign) and isinstance(last.value, (ast.Name, ast.Attribute)):
                return self.resolve_expr_class(r[1], last.value)
            return r[1].name + '.' + (e.id if isinstance(e, ast.Name) else e.attr)
        return None

    def resolve_dotted(self, m, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            r = self.resolve(m.name, e.id)
            if r is None:
                return ('ext', 'builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_dotted(m, e.value)
            if b is None:
                return None
            if b[0] == 'module':
                r = self.resolve(b[1], e.attr)
                if r is None:
                    return ('ext', b[1] + '.' + e.attr)
                return r
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.resolve_expr_class(ci.mod, b) if not isinstance(b, ast.Call) else None
            if isinstance(b, ast.Call):
                fn = b.func
                nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', '')
                out.append('call:' + nm)
            else:
                out.append(r if r is not None else '?')
        return out

    def mro(self, ci):
        if ci._mro is not None:
            return ci._mro
        ci._mro = [ci]
        seqs = []
        direct = []
        for b in self.bases(ci):
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
                direct.append(b)
        seqs.append(list(direct))
        out = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        ci._mro = out
        return out

    def ext_bases(self, ci):
        """qualnames of unparsed (builtin/stdlib) bases anywhere in the MRO"""
        out = []
        for c in self.mro(ci):
            for b in self.bases(c):
                if isinstance(b, str):
                    out.append(b)
        return out

    def lookup(self, ci, name):
        """-> (ClassInfo owner, node) or None, through the MRO"""
        for c in self.mro(ci):
            if name in c.members:
                return c, c.members[name][-1]
        return None

    def is_subclass(self, ci, qual):
        if any(c.qual == qual for c in self.mro(ci)):
            return True
        return qual in self.ext_bases(ci)
