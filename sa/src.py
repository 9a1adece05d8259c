"""Source index: parses the current tree of DHParser with the stdlib ``ast`` module and resolves
names, classes, MROs and methods.  Nothing of /repo is imported or executed."""
from __future__ import annotations
import ast
import hashlib
import os
import re
from typing import Dict, List, Optional, Tuple, Iterable, Iterator, Set, Union

REPO = os.environ.get('VERIF_REPO', '/repo')
from .norm import normalise, inline_tails

PKG = 'DHParser'

FuncNode = Union[ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda]
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class AnalysisError(Exception):
    """Something the analysis is anchored to has vanished, or a bound was exceeded:
    the check cannot give an answer (exit status 2, never a silent pass)."""


class Func:
    """A function or method definition."""
    __slots__ = ('node', 'module', 'cls', 'outer', 'name', 'is_static', 'is_classmethod',
                 'is_property', 'is_setter', 'locals_')

    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = node.name
        self.is_static = self.is_classmethod = self.is_property = self.is_setter = False
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                if d.id == 'staticmethod':
                    self.is_static = True
                elif d.id == 'classmethod':
                    self.is_classmethod = True
                elif d.id in ('property', 'cached_property'):
                    self.is_property = True
            elif isinstance(d, ast.Attribute):
                if d.attr == 'setter':
                    self.is_setter = True
                elif d.attr == 'cached_property':
                    self.is_property = True
        self.locals_ = None

    @property
    def qual(self) -> str:
        if self.outer is not None:
            return self.outer.qual + '.' + self.name
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self) -> str:
        return f'{self.module.rel}:{self.node.lineno} {self.qual}'

    def params(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] \
            + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])

    @property
    def is_method(self):
        return self.cls is not None and self.outer is None and not self.is_static

    def __repr__(self):
        return f'<Func {self.where}>'


class Class:
    __slots__ = ('node', 'module', 'name', 'bases', 'methods', 'setters', 'assigns', '_mro', 'slots')

    def __init__(self, node: ast.ClassDef, module):
        self.node, self.module, self.name = node, module, node.name
        self.bases: List[str] = []
        for b in node.bases:
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
        self.methods: Dict[str, Func] = {}
        self.setters: Dict[str, Func] = {}
        self.assigns: Dict[str, ast.expr] = {}
        for st in iter_stmts(node.body):
            if isinstance(st, FUNC):
                f = Func(st, module, self)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.methods[f.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
        self._mro = None

    def __repr__(self):
        return f'<Class {self.name}>'


def iter_stmts(body: Iterable[ast.stmt]) -> Iterator[ast.stmt]:
    """Statements of a body incl. those nested in if/try/with at the same scope."""
    for st in body:
        yield st
        if isinstance(st, ast.If):
            yield from iter_stmts(st.body)
            yield from iter_stmts(st.orelse)
        elif isinstance(st, ast.Try):
            yield from iter_stmts(st.body)
            for h in st.handlers:
                yield from iter_stmts(h.body)
            yield from iter_stmts(st.orelse)
            yield from iter_stmts(st.finalbody)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            yield from iter_stmts(st.body)


SIBLINGS: Dict[str, Dict[str, Set[str]]] = {}


def siblings(folder: str) -> Dict[str, Set[str]]:
    """the words of all files of a folder"""
    if folder not in SIBLINGS:
        d = SIBLINGS[folder] = {}
        for fn in sorted(os.listdir(folder)) if os.path.isdir(folder) else ():
            if fn.endswith(('.py', '.pxd', '.pyi')):
                with open(os.path.join(folder, fn), encoding='utf-8', errors='replace') as fh:
                    d[fn] = set(re.findall(r'\w+', fh.read()))
    return SIBLINGS[folder]


class Module:
    def mentioned_elsewhere(self, name: str) -> bool:
        folder, me = os.path.split(self.path)
        return any(name in words for fn, words in siblings(folder).items() if fn != me)

    def __init__(self, name: str, path: str, rel: str, text: str):
        self.name, self.path, self.rel, self.text = name, path, rel, text
        self.tree = inline_tails(normalise(ast.parse(text, filename=rel)), self.mentioned_elsewhere)
        self.functions: Dict[str, Func] = {}
        self.classes: Dict[str, Class] = {}
        self.globals: Dict[str, ast.expr] = {}
        self.imports: Dict[str, Tuple[str, Optional[str]]] = {}    # local -> (module, name|None)
        self.all_funcs: List[Func] = []
        for st in iter_stmts(self.tree.body):
            if isinstance(st, FUNC):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.globals[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.globals[st.target.id] = st.value
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = (st.module or '', a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name, None)

    def exported(self) -> List[str]:
        e = self.globals.get('__all__')
        if isinstance(e, (ast.Tuple, ast.List)):
            return [x.value for x in e.elts if isinstance(x, ast.Constant)]
        return []


class Index:
    """All modules of the package on the current tree."""

    def __init__(self, repo: str = None, only: Optional[Iterable[str]] = None):
        self.repo = repo or REPO
        base = os.path.join(self.repo, PKG)
        if not os.path.isdir(base):
            raise AnalysisError(f'package directory {base} is missing')
        self.modules: Dict[str, Module] = {}
        digest = hashlib.sha256()
        for fn in sorted(os.listdir(base)):
            if not fn.endswith('.py'):
                continue
            path = os.path.join(base, fn)
            with open(path, encoding='utf-8') as f:
                text = f.read()
            digest.update(fn.encode() + b'\0' + text.encode())
            name = fn[:-3]
            self.modules[name] = Module(name, path, f'{PKG}/{fn}', text)
        self.digest = digest.hexdigest()
        self.classes: Dict[str, List[Class]] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, []).append(c)
        self._subs: Dict[str, Set[str]] = {}
        self._methods_by_name: Optional[Dict[str, List[Func]]] = None

    # -- lookup ---------------------------------------------------------------

    def module(self, name: str) -> Module:
        try:
            return self.modules[name]
        except KeyError:
            raise AnalysisError(f'module {PKG}/{name}.py has vanished')

    def cls(self, module: str, name: str) -> Class:
        try:
            return self.module(module).classes[name]
        except KeyError:
            raise AnalysisError(f'class {name} has vanished from {PKG}/{module}.py')

    def func(self, module: str, qual: str) -> Func:
        m = self.module(module)
        if '.' in qual:
            cn, fn = qual.split('.', 1)
            c = self.cls(module, cn)
            f = self.lookup(c, fn)
            if f is None:
                raise AnalysisError(f'method {qual} has vanished from {PKG}/{module}.py')
            return f
        f = self.resolve_func(m, qual)
        if f is None:
            raise AnalysisError(f'function {qual} has vanished from {PKG}/{module}.py')
        return f

    def find_class(self, module: Module, name: str) -> Optional[Class]:
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            mod, orig = module.imports[name]
            mod = mod.split('.')[-1] if mod.startswith(PKG) else None
            if mod and orig:
                if mod in self.modules:
                    return self.find_class(self.modules[mod], orig)
        if name in module.globals:      # alias  A = B
            e = module.globals[name]
            if isinstance(e, ast.Name) and e.id != name:
                return self.find_class(module, e.id)
        for star in self._stars(module):
            if name in star.classes:
                return star.classes[name]
        return None

    def _stars(self, module):
        for local, (mod, orig) in module.imports.items():
            if orig == '*' and mod.startswith(PKG):
                m = mod.split('.')[-1]
                if m in self.modules:
                    yield self.modules[m]

    def resolve_func(self, module: Module, name: str) -> Optional[Func]:
        if name in module.functions:
            return module.functions[name]
        if name in module.imports:
            mod, orig = module.imports[name]
            if mod.startswith(PKG) and orig:
                m = mod.split('.')[-1]
                if m in self.modules:
                    return self.resolve_func(self.modules[m], orig)
        e = module.globals.get(name)
        if isinstance(e, ast.Name) and e.id != name:
            return self.resolve_func(module, e.id)
        for star in self._stars(module):
            if name in star.functions:
                return star.functions[name]
        return None

    def resolve_global(self, module: Module, name: str) -> Optional[Tuple[Module, ast.expr]]:
        if name in module.globals:
            return module, module.globals[name]
        if name in module.imports:
            mod, orig = module.imports[name]
            if mod.startswith(PKG) and orig:
                m = mod.split('.')[-1]
                if m in self.modules:
                    return self.resolve_global(self.modules[m], orig)
        for star in self._stars(module):
            if name in star.globals:
                return star, star.globals[name]
        return None

    def mro(self, c: Class) -> List[Class]:
        if c._mro is None:
            seqs = []
            bases = [b for b in (self.find_class(c.module, n) for n in c.bases) if b]
            for b in bases:
                seqs.append(list(self.mro(b)))
            seqs.append(list(bases))
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisError(f'inconsistent MRO for {c.name}')
                res.append(cand)
                for s in seqs:
                    if s and s[0] is cand:
                        del s[0]
            c._mro = res
        return c._mro

    def lookup(self, c: Class, name: str, skip_first: int = 0) -> Optional[Func]:
        for k in self.mro(c)[skip_first:]:
            if name in k.methods:
                return k.methods[name]
            e = k.assigns.get(name)
            if isinstance(e, ast.Name) and e.id in k.methods:
                return k.methods[e.id]
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                c2 = self.find_class(k.module, e.value.id)
                if c2 is not None:
                    f = self.lookup(c2, e.attr)
                    if f is not None:
                        return f
        return None

    def lookup_super(self, runtime: Class, defining: Class, name: str) -> Optional[Func]:
        mro = self.mro(runtime)
        if defining in mro:
            mro = mro[mro.index(defining) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_setter(self, c: Class, name: str) -> Optional[Func]:
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def all_classes(self) -> Iterator[Class]:
        for m in self.modules.values():
            yield from m.classes.values()

    def subclasses(self, c: Class, strict=False) -> List[Class]:
        return [k for k in self.all_classes() if c in self.mro(k) and not (strict and k is c)]

    def is_subclass(self, c: Class, name: str) -> bool:
        return any(k.name == name for k in self.mro(c))

    def all_functions(self) -> Iterator[Func]:
        """every def (methods, functions), without nested ones"""
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def methods_named(self, name: str) -> List[Func]:
        if self._methods_by_name is None:
            d: Dict[str, List[Func]] = {}
            for c in self.all_classes():
                for n, f in c.methods.items():
                    d.setdefault(n, []).append(f)
            self._methods_by_name = d
        return self._methods_by_name.get(name, [])


def nested_funcs(f: Func) -> List[Func]:
    """functions defined inside f (all levels)"""
    res = []

    def rec(fn: Func):
        stack = list(ast.iter_child_nodes(fn.node))
        while stack:
            n = stack.pop()
            if isinstance(n, FUNC):
                g = Func(n, fn.module, fn.cls, fn)
                res.append(g)
                rec(g)
            elif isinstance(n, ast.ClassDef):
                continue
            else:
                stack.extend(ast.iter_child_nodes(n))
    rec(f)
    return res


def own_nodes(fnode) -> Iterator[ast.AST]:
    """All nodes of a function body, without those of nested defs/classes (lambdas included)."""
    stack = list(reversed(fnode.body)) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC + (ast.ClassDef,)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def dotted(e: ast.AST) -> Optional[str]:
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


def unparse(n: ast.AST, limit: int = 90) -> str:
    try:
        s = ' '.join(ast.unparse(n).split())
    except Exception:
        s = type(n).__name__
    return s if len(s) <= limit else s[:limit - 3] + '...'
