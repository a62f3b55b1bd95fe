"""Source model of the analysed tree: modules, imports, classes, MRO, class
attributes (including those bound at module level, ``Cls._slot = X``).

Nothing here imports or runs the analysed code; everything is read from the
files below ``<repo>/src/qnet`` with :mod:`ast`.
"""
import ast
import os
import warnings

warnings.filterwarnings('ignore', category=SyntaxWarning)


class AnalysisError(Exception):
    """The analysis cannot be performed (vanished anchor, unparsable file)."""


class Module:
    def __init__(self, name, path, tree, is_pkg, text):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.text = text
        self.imports = {}      # local name -> dotted target
        self.functions = {}    # name -> FunctionDef
        self.classes = {}      # name -> ClassInfo
        self.assigns = {}      # name -> [value expr, ...] (module level)
        self.star = []         # modules star-imported
        self.globals_written = set()

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def __repr__(self):
        return "<Module %s>" % self.name


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.qualname = module.name + '.' + name
        self.bases = []          # dotted names
        self.methods = {}        # name -> FunctionDef
        self.attrs = {}          # name -> value expr (class body)
        self.attr_mod = {}       # name -> Module in whose scope expr lives
        self.decorators = node.decorator_list
        self.metaclass = None
        self.mro = []            # ClassInfo or dotted-name strings (external)

    def __repr__(self):
        return "<Class %s>" % self.qualname


def decorator_names(node):
    res = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Attribute):
            res.append(d.attr)
        elif isinstance(d, ast.Name):
            res.append(d.id)
    return res


def params_of(fn):
    """(positional names, vararg or None, kwonly names, kwarg or None,
    defaults {name: expr})"""
    a = fn.args
    pos = [p.arg for p in getattr(a, 'posonlyargs', [])] + [
        p.arg for p in a.args]
    kwonly = [p.arg for p in a.kwonlyargs]
    defaults = {}
    if a.defaults:
        for n, d in zip(pos[-len(a.defaults):], a.defaults):
            defaults[n] = d
    for n, d in zip(kwonly, a.kw_defaults):
        if d is not None:
            defaults[n] = d
    return (pos, a.vararg.arg if a.vararg else None, kwonly,
            a.kwarg.arg if a.kwarg else None, defaults)


class Repo:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, 'src')
        self.modules = {}
        self.classes = {}     # qualname -> ClassInfo
        self.by_name = {}     # simple class name -> [ClassInfo]
        self._subs = None
        self._load()

    # -- loading -----------------------------------------------------------

    def _load(self):
        top = os.path.join(self.src, 'qnet')
        if not os.path.isdir(top):
            raise AnalysisError("no source tree at %s" % top)
        for dirpath, dirnames, filenames in os.walk(top):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.src)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                with open(path, encoding='utf8') as fh:
                    text = fh.read()
                try:
                    tree = ast.parse(text, path)
                except SyntaxError as exc:
                    raise AnalysisError("cannot parse %s: %s" % (path, exc))
                self.modules[name] = Module(name, path, tree, is_pkg, text)
        for mod in self.modules.values():
            self._index(mod)
        for cls in self.classes.values():
            for b in cls.node.bases:
                dn = self.dotted(b, cls.module)
                cls.bases.append(dn or ast.unparse(b))
            for kw in cls.node.keywords:
                if kw.arg == 'metaclass':
                    cls.metaclass = (
                        self.dotted(kw.value, cls.module)
                        or ast.unparse(kw.value))
        for cls in self.classes.values():
            cls.mro = self._mro(cls, ())
        for mod in self.modules.values():
            self._module_slots(mod)

    def _index(self, mod):
        def handle(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    mod.functions[st.name] = st
                elif isinstance(st, ast.ClassDef):
                    ci = ClassInfo(st.name, mod, st)
                    mod.classes[st.name] = ci
                    self.classes[ci.qualname] = ci
                    self.by_name.setdefault(st.name, []).append(ci)
                    self._index_class(ci)
                elif isinstance(st, ast.Import):
                    for al in st.names:
                        if al.asname:
                            mod.imports[al.asname] = al.name
                        else:
                            mod.imports[al.name.split('.')[0]] = (
                                al.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = self.abs_import(mod, st)
                    for al in st.names:
                        if al.name == '*':
                            mod.star.append(base)
                        else:
                            mod.imports[al.asname or al.name] = (
                                base + '.' + al.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            mod.assigns.setdefault(t.id, []).append(st.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            if isinstance(st.value, (ast.Tuple, ast.List)) \
                                    and len(st.value.elts) == len(t.elts):
                                for tt, vv in zip(t.elts, st.value.elts):
                                    if isinstance(tt, ast.Name):
                                        mod.assigns.setdefault(
                                            tt.id, []).append(vv)
                elif isinstance(st, ast.AnnAssign):
                    if isinstance(st.target, ast.Name) and st.value:
                        mod.assigns.setdefault(
                            st.target.id, []).append(st.value)
                elif isinstance(st, ast.AugAssign):
                    if isinstance(st.target, ast.Name):
                        mod.assigns.setdefault(
                            st.target.id, []).append(st)
                elif isinstance(st, (ast.If,)):
                    handle(st.body)
                    handle(st.orelse)
                elif isinstance(st, ast.Try):
                    handle(st.body)
                    for h in st.handlers:
                        handle(h.body)
                    handle(st.orelse)
                    handle(st.finalbody)
                elif isinstance(st, (ast.With, ast.For, ast.While)):
                    handle(st.body)
        handle(mod.tree.body)
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Global):
                mod.globals_written.update(node.names)

    def _index_class(self, ci):
        for st in ci.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = decorator_names(st)
                if 'setter' in decs or 'deleter' in decs:
                    ci.methods[st.name + '.' + decs[0]] = st
                else:
                    ci.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and isinstance(
                            st.value, ast.Name) and \
                            st.value.id in ci.methods:
                        ci.methods[t.id] = ci.methods[st.value.id]  # alias
                    elif isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
                        ci.attr_mod[t.id] = ci.module
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    ci.attrs[st.target.id] = st.value
                    ci.attr_mod[st.target.id] = ci.module

    def _module_slots(self, mod):
        for st in mod.tree.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    self._one_slot(mod, t, st.value)
            elif isinstance(st, (ast.For,)):
                # for cls in (A, B): cls.attr = X
                it = st.iter
                if isinstance(st.target, ast.Name) and isinstance(
                        it, (ast.Tuple, ast.List)):
                    for sub in st.body:
                        if isinstance(sub, ast.Assign):
                            for t in sub.targets:
                                if isinstance(t, ast.Attribute) and isinstance(
                                        t.value, ast.Name) and (
                                        t.value.id == st.target.id):
                                    for el in it.elts:
                                        ci = self.cls_of_expr(el, mod)
                                        if ci is not None:
                                            ci.attrs[t.attr] = sub.value
                                            ci.attr_mod[t.attr] = mod
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                c = st.value
                if isinstance(c.func, ast.Name) and c.func.id == 'setattr' \
                        and len(c.args) == 3 and isinstance(
                            c.args[1], ast.Constant):
                    ci = self.cls_of_expr(c.args[0], mod)
                    if ci is not None:
                        ci.attrs[c.args[1].value] = c.args[2]
                        ci.attr_mod[c.args[1].value] = mod

    def _one_slot(self, mod, t, value):
        if isinstance(t, ast.Attribute):
            ci = self.cls_of_expr(t.value, mod)
            if ci is not None:
                ci.attrs[t.attr] = value
                ci.attr_mod[t.attr] = mod
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                value, (ast.Tuple, ast.List)):
            for tt, vv in zip(t.elts, value.elts):
                self._one_slot(mod, tt, vv)

    def abs_import(self, mod, st):
        if st.level == 0:
            return st.module or ''
        pkg = mod.package.split('.')
        if st.level > 1:
            pkg = pkg[:-(st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))

    # -- name resolution ---------------------------------------------------

    def resolve(self, dotted, _seen=None):
        """Follow re-exports until the defining module; returns dotted name"""
        seen = _seen or set()
        if dotted in seen or dotted in self.modules:
            return dotted
        seen.add(dotted)
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mname = '.'.join(parts[:i])
            if mname in self.modules:
                mod = self.modules[mname]
                name, rest = parts[i], parts[i + 1:]
                if name in mod.classes or name in mod.functions:
                    return dotted
                if name in mod.imports:
                    return self.resolve(
                        '.'.join([mod.imports[name]] + rest), seen)
                if name in mod.assigns:
                    return dotted
                for base in mod.star:
                    if base in self.modules:
                        cand = self.resolve(
                            '.'.join([base, name] + rest), set(seen))
                        if self._defined(cand):
                            return cand
                return dotted
        return dotted

    def _defined(self, dotted):
        m, _, n = dotted.rpartition('.')
        if dotted in self.modules:
            return True
        mod = self.modules.get(m)
        return mod is not None and (
            n in mod.classes or n in mod.functions or n in mod.assigns)

    def name_in(self, name, mod):
        """Dotted target of a bare `name` in module `mod` (or None)"""
        if name in mod.classes or name in mod.functions:
            return mod.name + '.' + name
        if name in mod.imports:
            return self.resolve(mod.imports[name])
        if name in mod.assigns:
            return mod.name + '.' + name
        for base in mod.star:
            if base in self.modules:
                cand = self.resolve(base + '.' + name)
                if self._defined(cand):
                    return cand
        return None

    def dotted(self, expr, mod):
        if isinstance(expr, ast.Name):
            return self.name_in(expr.id, mod)
        if isinstance(expr, ast.Attribute):
            base = self.dotted(expr.value, mod)
            if base is None:
                return None
            return self.resolve(base + '.' + expr.attr)
        return None

    def cls_of_expr(self, expr, mod):
        dn = self.dotted(expr, mod)
        return self.classes.get(dn) if dn else None

    def cls(self, name):
        """Class by simple name; must be unique and present"""
        c = self.by_name.get(name, [])
        if len(c) != 1:
            raise AnalysisError(
                "anchor class %r: %d definitions found" % (name, len(c)))
        return c[0]

    def maybe_cls(self, name):
        c = self.by_name.get(name, [])
        return c[0] if len(c) == 1 else None

    def func(self, dotted):
        m, _, n = dotted.rpartition('.')
        mod = self.modules.get(m)
        if mod is None or n not in mod.functions:
            r = self.resolve(dotted)
            m, _, n = r.rpartition('.')
            mod = self.modules.get(m)
            if mod is None or n not in mod.functions:
                raise AnalysisError("anchor function %r not found" % dotted)
        return mod, mod.functions[n]

    # -- class hierarchy ---------------------------------------------------

    def _mro(self, cls, stack):
        if cls in stack:
            raise AnalysisError("cyclic inheritance at %s" % cls.qualname)
        seqs = []
        direct = []
        for b in cls.bases:
            c = self.classes.get(b)
            if c is None:
                direct.append(b)
                seqs.append([b])
            else:
                direct.append(c)
                seqs.append(list(self._mro(c, stack + (cls,))))
        seqs.append(list(direct))
        res = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(cand in o[1:] for o in seqs):
                    break
            else:
                raise AnalysisError("inconsistent MRO for %s" % cls.qualname)
            res.append(cand)
            for s in seqs:
                if s[0] == cand:
                    del s[0]

    def subclasses(self, cls, strict=False):
        res = [c for c in self.classes.values()
               if cls in c.mro and not (strict and c is cls)]
        return res

    def is_sub(self, cls, name):
        return any((b.name if isinstance(b, ClassInfo) else
                    b.rpartition('.')[2]) == name for b in cls.mro)

    def lookup(self, cls, name, after=None):
        """Find `name` along the MRO: (owner ClassInfo, 'method'|'attr', node)
        or None.  `after`: start after this class (super())."""
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for c in mro:
            if not isinstance(c, ClassInfo):
                continue
            # module-level slot or class attr assigned later wins over method
            if name in c.attrs:
                return c, 'attr', c.attrs[name]
            if name in c.methods:
                return c, 'method', c.methods[name]
        return None

    def is_abstract_method(self, fn):
        return any(d in ('abstractmethod', 'abstractproperty')
                   for d in decorator_names(fn))

    def abstract_names(self, cls):
        """names of abstract methods still unimplemented in cls"""
        res = set()
        seen = set()
        for c in cls.mro:
            if not isinstance(c, ClassInfo):
                continue
            for n in c.attrs:
                seen.add(n)
            for n, fn in c.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if self.is_abstract_method(fn):
                    res.add(n)
        return res

    def relpath(self, mod):
        return os.path.relpath(mod.path, self.root)


def kind_of(fn):
    decs = decorator_names(fn)
    if 'staticmethod' in decs:
        return 'static'
    if 'classmethod' in decs:
        return 'class'
    if any(d in ('property', 'cached_property', 'abstractproperty',
                 'lazy_property') for d in decs):
        return 'property'
    return 'method'
