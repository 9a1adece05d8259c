"""C31: calls fit the signatures of what they call; attributes that are read exist."""
from __future__ import annotations
import ast
import builtins
import importlib
import inspect
import re
import string
import sys
import warnings
from typing import Dict, FrozenSet, Iterator, List, Optional, Set, Tuple

from sa.initattr import Constructed
from sa.src import Index, Class, Func, Module, FUNC, nested_funcs, unparse, dotted, AnalysisError, iter_stmts

EXPLANATION = (
    'Resolution of calls and attribute accesses with a light-weight type inference (self, annotations, constructor '
    'calls, return annotations, imported modules): every attribute read on an object of a known class exists in the '
    'class, its bases or its subclasses (or is set from outside); every call of a known function, method (all '
    'overriding methods included) or constructor binds: number of positional arguments, names of keyword arguments, '
    'required parameters; functions of the standard library by their signatures; literal format strings fit their '
    'arguments; tuples that functions return have the length they are unpacked to; what is raised and caught is an '
    'exception; arguments and returned values are not of a type that excludes the annotated one; must-analysis of the '
    'constructors: attributes that methods read on self have been set on every path through the constructor.')
ASSUMPTIONS = ['type annotations of the package are true', 'the standard library has the signatures of the Python '
               'version that runs the check']

warnings.simplefilter('ignore')
UNKNOWN = None
B = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'bytearray': bytearray, 'list': list,
     'dict': dict, 'set': set, 'tuple': tuple, 'frozenset': frozenset, 'complex': complex,
     'List': list, 'Dict': dict, 'Set': set, 'Tuple': tuple, 'FrozenSet': frozenset, 'MutableSet': set,
     'OrderedDict': dict, 'defaultdict': dict}
TRANSPARENT = {'staticmethod', 'classmethod', 'abstractmethod', 'lru_cache', 'cache', 'deprecated', 'override',
               'final', 'no_type_check', 'wraps', 'cfunc', 'ccall', 'inline', 'locals', 'returns', 'cython'}
OPEN_BASES = {'Generic', 'Protocol', 'ABC', 'object'}


class Sig:
    """signature: positional parameters (name, has default), keyword only ones, *args, **kwargs"""

    def __init__(self, pos, kwonly, var, kw, posonly=0, label=''):
        self.pos, self.kwonly, self.var, self.kw, self.posonly, self.label = pos, kwonly, var, kw, posonly, label
        self.anno = None        # (module, parameter -> annotation)

    @staticmethod
    def of_func(f: Func, skip_first=False) -> 'Sig':
        s = Sig.of(f.node, skip_first, f.qual)
        a = f.node.args
        s.anno = (f.module, {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs})
        return s

    @staticmethod
    def of(node, skip_first=False, label='') -> 'Sig':
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        pos = [(n, i >= len(names) - nd) for i, n in enumerate(names)]
        po = len(a.posonlyargs)
        if skip_first and pos:
            pos = pos[1:]
            po = max(0, po - 1)
        kwonly = [(x.arg, d is not None) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
        return Sig(pos, kwonly, a.vararg is not None, a.kwarg is not None, po, label)

    @staticmethod
    def of_py(s: inspect.Signature, label='', skip_first=False) -> 'Sig':
        pos, kwonly, var, kw, po = [], [], False, False, 0
        for p in s.parameters.values():
            d = p.default is not p.empty
            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                pos.append((p.name, d))
                po += p.kind == p.POSITIONAL_ONLY
            elif p.kind == p.KEYWORD_ONLY:
                kwonly.append((p.name, d))
            elif p.kind == p.VAR_POSITIONAL:
                var = True
            else:
                kw = True
        if skip_first and pos:
            pos, po = pos[1:], max(0, po - 1)
        return Sig(pos, kwonly, var, kw, po, label)

    def problem(self, call: ast.Call, args=None, keywords=None, partial=False) -> Optional[str]:
        args = call.args if args is None else args
        keywords = call.keywords if keywords is None else keywords
        star = any(isinstance(a, ast.Starred) for a in args)
        dstar = any(k.arg is None for k in keywords)
        n = sum(1 for a in args if not isinstance(a, ast.Starred))
        if n > len(self.pos) and not self.var:
            return f'takes at most {len(self.pos)} positional arguments, {n} are passed'
        names = [p for p, _ in self.pos]
        kws = [k.arg for k in keywords if k.arg is not None]
        for k in kws:
            if k in names[self.posonly:]:
                i = names.index(k)
                if i < n and not star:
                    return f'parameter {k} is passed twice'
            elif k not in [x for x, _ in self.kwonly] and not self.kw:
                return f'has no parameter {k}'
        if not partial and not dstar:
            for i, (p, d) in enumerate(self.pos):
                if not d and i >= n and not star and p not in kws:
                    return f'parameter {p} is missing'
            for p, d in self.kwonly:
                if not d and p not in kws:
                    return f'keyword parameter {p} is missing'
        return None


_std: Dict[str, object] = {}


def std(path: str):
    """object of the standard library with that dotted path, None if there is none (or it is not known)"""
    if path not in _std:
        _std[path] = None
        parts = path.split('.')
        if parts[0] in sys.stdlib_module_names and parts[0] not in ('antigravity', 'this'):
            for n in range(len(parts), 0, -1):
                try:
                    o = importlib.import_module('.'.join(parts[:n]))
                except ImportError:
                    continue
                try:
                    for p in parts[n:]:
                        o = getattr(o, p)
                    _std[path] = o
                except AttributeError:
                    pass
                break
    return _std[path]


def py_sig(o, label) -> Optional[Sig]:
    try:
        return Sig.of_py(inspect.signature(o), label)
    except (TypeError, ValueError):
        return None


# numbers of arguments of builtin functions and methods that have no signature
ARITY = {'len': (1, 1), 'callable': (1, 1), 'id': (1, 1), 'hash': (1, 1), 'ord': (1, 1), 'chr': (1, 1), 'repr': (1, 1),
         'isinstance': (2, 2), 'issubclass': (2, 2), 'hasattr': (2, 2), 'setattr': (3, 3), 'getattr': (2, 3), 'delattr': (2, 2),
         'min': (1, 99), 'max': (1, 99), 'all': (1, 1), 'any': (1, 1), 'sum': (1, 2), 'range': (1, 3), 'enumerate': (1, 2),
         'str': (0, 3), 'int': (0, 2), 'float': (0, 1), 'bool': (0, 1), 'list': (0, 1), 'tuple': (0, 1), 'set': (0, 1),
         'frozenset': (0, 1), 'dict': (0, 1), 'iter': (1, 2), 'next': (1, 2), 'reversed': (1, 1), 'sorted': (1, 1),
         'filter': (2, 2), 'map': (2, 99), 'abs': (1, 1), 'vars': (0, 1), 'bytes': (0, 3), 'eval': (1, 3), 'open': (1, 8)}
METHODS = {'append': (1, 1), 'extend': (1, 1), 'insert': (2, 2), 'endswith': (1, 3), 'startswith': (1, 3), 'find': (1, 3),
           'rfind': (1, 3), 'join': (1, 99), 'splitlines': (0, 1), 'strip': (0, 1), 'lstrip': (0, 1), 'rstrip': (0, 1),
           'lower': (0, 0), 'upper': (0, 0), 'isdigit': (0, 0), 'isidentifier': (0, 0), 'setdefault': (1, 2),
           'add': (1, 1), 'discard': (1, 1), 'remove': (1, 1), 'pop': (0, 2), 'copy': (0, 0), 'clear': (0, 0), 'replace': (2, 3),
           'index': (1, 3), 'count': (1, 3), 'partition': (1, 1), 'isalpha': (0, 0), 'isspace': (0, 0), 'encode': (0, 2),
           'decode': (0, 2), 'items': (0, 0), 'keys': (0, 0), 'values': (0, 0), 'rsplit': (0, 2), 'rindex': (1, 3), 'capitalize': (0, 0)}
NOELEM = ('E', (None, None, None))
CONTAINERS = (list, dict, set, tuple, frozenset)
STR_METHODS = {'int': ('find', 'rfind', 'index', 'rindex', 'count', '__len__'),
               'bool': ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier'),
               'str': ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'join', 'format', 'capitalize', 'title',
                       'expandtabs', 'zfill', 'ljust', 'rjust', 'center', 'casefold', 'swapcase', 'translate'),
               'list': ('split', 'rsplit', 'splitlines'), 'bytes': ('encode',)}
STR_RESULT = {n: t for t, ns in STR_METHODS.items() for n in ns}
STR_ONLY = {'int': 'int'}


def basic(t: type):
    s = {('B', t)}
    if t in CONTAINERS:
        s.add(NOELEM)
    if t is str:
        s.add(STR_ELEM)
    return frozenset(s)


STR_ELEM = ('E', ('str', 'str', None))


def elements(ts, which: int):
    """types of the items (0), of the values that subscription yields (1)"""
    if not ts or not any(k == 'E' for k, x in ts):
        return UNKNOWN
    res = set()
    for k, x in ts:
        if k == 'E':
            r = x[which]
            if r == 'str':
                r = basic(str)
            if r is None:
                return UNKNOWN
            res |= r
        elif k == 'B' and x not in CONTAINERS and x is not str or k not in ('B', 'X', 'E'):
            return UNKNOWN
    return frozenset(res) or UNKNOWN


def component(ts, i: int):
    """type of the i-th component of a tuple"""
    es = [x for k, x in ts or () if k == 'E']
    if len(es) == 1 and isinstance(es[0][2], tuple) and es[0][2][:1] != ('kv',):
        f = es[0][2]
        return f[i] if -len(f) <= i < len(f) else UNKNOWN
    return elements(ts, 1)


Ty = Tuple[str, object]     # ('C', Class) ('T', Class) ('F', Func) ('M', Module) ('S', dotted) ('B', type) ('O', stdlib class)


class World:
    def __init__(self, ix: Index):
        self.ix = ix
        self.funcs: List[Func] = []
        for f in ix.all_functions():
            self.funcs.append(f)
            self.funcs.extend(nested_funcs(f))
        self._attrs: Dict[int, Set[str]] = {}
        self._ext: Dict[int, Optional[List[type]]] = {}
        self._atypes: Dict[Tuple[int, str], Optional[FrozenSet[Ty]]] = {}
        self._open: Dict[int, bool] = {}
        self._conv: Optional[Dict] = None
        self.anno: Dict[int, Dict[str, ast.expr]] = {}
        self.selfstores: Dict[int, Dict[str, List[Tuple[Func, ast.AST]]]] = {}
        self.foreign: Set[str] = set()
        self.foreign_stores: Dict[str, List] = {}
        self._scan()

    # -- attributes of classes --------------------------------------------------------

    def _scan(self):
        for c in self.ix.all_classes():
            d = {}
            for st in iter_stmts(c.node.body):
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    d[st.target.id] = st.annotation
            self.anno[id(c)] = d
            self.selfstores[id(c)] = {}
        inside = {id(n) for f in self.funcs for n in ast.walk(f.node)}
        for f in self.funcs:
            s = f.params()[0] if f.cls is not None and f.outer is None and not f.is_static and f.params() else None
            if f.cls is not None and f.outer is not None:
                o = f
                while o.outer is not None:
                    o = o.outer
                s = o.params()[0] if o.params() and not o.is_static else None
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n
                    if isinstance(n.value, ast.Name) and n.value.id == s and f.cls is not None:
                        self.selfstores[id(f.cls)].setdefault(n.attr, []).append((f, n))
                    else:
                        self.foreign.add(n.attr)
                        self.foreign_stores.setdefault(n.attr, []).append((f, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                        and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.foreign.add(str(n.args[1].value))
                        self.foreign_stores.setdefault(str(n.args[1].value), []).append((None, n))
        for m in self.ix.modules.values():
            for st in ast.walk(m.tree):
                if isinstance(st, ast.Attribute) and isinstance(st.ctx, ast.Store) \
                        and not (isinstance(st.value, ast.Name) and st.value.id == 'self'):
                    self.foreign.add(st.attr)
                    if id(st) not in inside:
                        self.foreign_stores.setdefault(st.attr, []).append((None, st))

    def ext_bases(self, c: Class) -> Optional[List[type]]:
        """classes of the standard library among the bases (None: an unknown base)"""
        if id(c) in self._ext:
            return self._ext[id(c)]
        res: Optional[List[type]] = []
        for b in c.node.bases:
            while isinstance(b, ast.Subscript):
                b = b.value
            d = dotted(b)
            if d is None:
                res = None
                break
            name = d.split('.')[-1]
            if '.' not in d and self.ix.find_class(c.module, d) is not None:
                continue
            if name in OPEN_BASES:
                continue
            o = self.external(c.module, d)
            if isinstance(o, type):
                res.append(o)
            elif name == 'NamedTuple':
                res.append(tuple)
            else:
                res = None
                break
        if c.node.keywords:
            res = None if any(k.arg == 'metaclass' and unparse(k.value).split('.')[-1] not in ('ABCMeta',)
                              for k in c.node.keywords) else res
        self._ext[id(c)] = res
        return res

    def external(self, m: Module, d: str):
        """what a dotted name refers to in the standard library or the builtins"""
        head, _, rest = d.partition('.')
        if head in m.imports:
            mod, name = m.imports[head]
            if mod.startswith('DHParser'):
                return None
            if name is None:
                full = (mod if '.' not in mod or head == mod else head) + ('.' + rest if rest else '')
            elif name == '*':
                return None
            else:
                full = mod + '.' + name + ('.' + rest if rest else '')
            return std(full)
        if not rest and head not in m.globals and head not in m.functions and head not in m.classes:
            return getattr(builtins, head, None)
        return None

    def ext_of_family(self, c: Class, t: type) -> bool:
        """instances of the class (or of its subclasses) can be instances of the builtin type"""
        for k in self.family(c):
            ext = self.ext_bases(k)
            if ext is None or any(issubclass(b, t) or issubclass(t, b) for b in ext):
                return True
        return False

    def open_class(self, c: Class) -> bool:
        """attributes cannot be enumerated"""
        if id(c) not in self._open:
            self._open[id(c)] = False
            r = False
            for k in self.family(c):
                if self.ext_bases(k) is None or '__getattr__' in k.methods or '__getattribute__' in k.methods \
                        or k.node.decorator_list:
                    r = True
                for b in self.ext_bases(k) or []:
                    if issubclass(b, (dict,)) and 'TypedDict' in unparse(k.node.bases[0]):
                        r = True
            self._open[id(c)] = r
        return self._open[id(c)]

    def family(self, c: Class) -> List[Class]:
        res = list(self.ix.mro(c))
        for s in self.ix.subclasses(c):
            for k in self.ix.mro(s):
                if k not in res:
                    res.append(k)
        return res

    def attrs(self, c: Class) -> Set[str]:
        if id(c) not in self._attrs:
            a: Set[str] = set(dir(object)) | {'__dict__', '__name__', '__slots__', '__qualname__', '__annotations__', '__mro__', '__bases__'}
            for k in self.family(c):
                a |= set(k.methods) | set(k.setters) | set(k.assigns) | set(self.anno[id(k)]) | set(self.selfstores[id(k)])
                for st in iter_stmts(k.node.body):
                    if isinstance(st, ast.ClassDef):
                        a.add(st.name)
                    elif isinstance(st, (ast.Import, ast.ImportFrom)):
                        a |= {x.asname or x.name for x in st.names}
                    elif isinstance(st, (ast.Assign, ast.For)):
                        for n in ast.walk(st):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                a.add(n.id)
                for b in self.ext_bases(k) or []:
                    a |= set(dir(b))
                    if any(unparse(x).endswith('NamedTuple') for x in k.node.bases):
                        a |= {'_fields', '_replace', '_asdict', '_make', '_field_defaults'}
                    if issubclass(b, BaseException):
                        a |= {'__notes__'}
            self._attrs[id(c)] = a
        return self._attrs[id(c)]

    # -- types --------------------------------------------------------------------------

    def annotation(self, m: Module, e: Optional[ast.expr], depth=0) -> Optional[FrozenSet[Ty]]:
        if e is None or depth > 6:
            return UNKNOWN
        if isinstance(e, ast.Constant):
            if e.value is None:
                return frozenset()
            if isinstance(e.value, str):
                try:
                    return self.annotation(m, ast.parse(e.value, mode='eval').body, depth + 1)
                except SyntaxError:
                    return UNKNOWN
            return UNKNOWN
        if isinstance(e, ast.Subscript):
            h = (dotted(e.value) or '').split('.')[-1]
            if h == 'Optional':
                return self.annotation(m, e.slice, depth + 1)
            if h == 'Union':
                xs = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                res: Set[Ty] = set()
                for x in xs:
                    r = self.annotation(m, x, depth + 1)
                    if r is None:
                        return UNKNOWN
                    res |= r
                return frozenset(res)
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if h in B and B[h] is dict and len(args) == 2:
                k, v = self.annotation(m, args[0], depth + 1), self.annotation(m, args[1], depth + 1)
                return frozenset({('B', dict), ('E', (k, v, ('kv', k, v)))})
            if h in ('Mapping', 'MutableMapping') and len(args) == 2:
                k, v = self.annotation(m, args[0], depth + 1), self.annotation(m, args[1], depth + 1)
                return frozenset({('X', None), ('E', (k, v, ('kv', k, v)))})
            if h in ('tuple', 'Tuple') and args and not any(isinstance(a, ast.Constant) and a.value is Ellipsis for a in args):
                ts = tuple(self.annotation(m, a, depth + 1) for a in args)
                u = None if any(t is None for t in ts) else frozenset().union(*ts)
                return frozenset({('B', tuple), ('E', (u, u, ts))})
            if h in B and B[h] in (list, tuple, set, frozenset):
                t = self.annotation(m, args[0], depth + 1)
                return frozenset({('B', B[h]), ('E', (t, t, None))})
            if h in ('Iterator', 'Iterable', 'Sequence', 'MutableSequence', 'Collection', 'AbstractSet', 'Generator', 'Deque'):
                t = self.annotation(m, args[0], depth + 1)
                return frozenset({('X', None), ('E', (t, t, None))})
            if h in B:
                return frozenset({('B', B[h]), NOELEM})
            return UNKNOWN
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.annotation(m, e.left, depth + 1), self.annotation(m, e.right, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Name):
            c = self.ix.find_class(m, e.id)
            if c is not None:
                return frozenset({('C', c)})
            if e.id in ('str', 'int', 'float', 'bool', 'bytes', 'bytearray', 'list', 'dict', 'set', 'tuple', 'frozenset',
                        'List', 'Dict', 'Set', 'Tuple', 'FrozenSet', 'MutableSet'):
                return basic(B[e.id])
            g = self.ix.resolve_global(m, e.id)
            if g is not None and isinstance(g[1], (ast.Name, ast.Subscript, ast.BinOp)) and e.id[:1].isupper():
                return self.annotation(g[0], g[1], depth + 1)
            return UNKNOWN
        if isinstance(e, ast.Attribute):
            t = self.infer_global(m, e)
            if t is not None and len(t) == 1:
                k, x = next(iter(t))
                if k == 'T':
                    return frozenset({('C', x)})
        return UNKNOWN

    def infer_global(self, m: Module, e: ast.expr, depth=0) -> Optional[FrozenSet[Ty]]:
        if depth > 5:
            return UNKNOWN
        if isinstance(e, ast.Name):
            n = e.id
            c = self.ix.find_class(m, n)
            if c is not None:
                return frozenset({('T', c)})
            f = self.ix.resolve_func(m, n)
            if f is not None:
                return frozenset({('F', f)}) if not conditional(f) else UNKNOWN
            if n in m.imports:
                mod, name = m.imports[n]
                if mod == 'DHParser' and name is None:
                    return frozenset({('P', None)})
                if mod.startswith('DHParser.') and name is None:
                    if n == 'DHParser':
                        return frozenset({('P', None)})
                    last = mod.split('.')[-1]
                    return frozenset({('M', self.ix.modules[last])}) if last in self.ix.modules else UNKNOWN
                if mod == 'DHParser' and name in self.ix.modules:
                    return frozenset({('M', self.ix.modules[name])})
                if not mod.startswith('DHParser') and multiple_import(m, n):
                    return frozenset({('S', re)}) if n == 're' else UNKNOWN
                if name is None and not mod.startswith('DHParser'):
                    o = std(mod if n == mod or '.' not in mod else n)
                    return frozenset({('S', o)}) if inspect.ismodule(o) else UNKNOWN
                if name and not mod.startswith('DHParser'):
                    o = std(mod + '.' + name)
                    if o is not None and (inspect.isclass(o) or inspect.isroutine(o) or inspect.ismodule(o)) \
                            and not getattr(o, '__module__', '') == 'typing':
                        return frozenset({('S', o)})
                    return UNKNOWN
            if n == 're':
                return frozenset({('S', re)})       # regex, if it is installed, has the same interface
            g = self.ix.resolve_global(m, n)
            if g is not None:
                gm = g[0]
                if stores(gm, n) == 1:
                    ann = gm_annotation(gm, n)
                    if ann is not None:
                        r = self.annotation(gm, ann)
                        if r:
                            return r
                    return self.value(gm, None, g[1], {}, depth + 1)
                return UNKNOWN
            if hasattr(builtins, n) and n not in m.globals:
                return frozenset({('S', getattr(builtins, n))})
            return UNKNOWN
        if isinstance(e, ast.Attribute):
            return self.value(m, None, e, {}, depth + 1)
        return UNKNOWN

    def attr_type(self, c: Class, a: str) -> Optional[FrozenSet[Ty]]:
        key = (id(c), a)
        if key in self._atypes:
            return self._atypes[key]
        self._atypes[key] = UNKNOWN
        res: Optional[Set[Ty]] = set()
        found = False
        for k in self.family(c):
            if a in k.methods:
                f = k.methods[a]
                if f.is_property:
                    r = self.annotation(f.module, f.node.returns)
                    found = True
                    res = None if r is None else res | r
                else:
                    return UNKNOWN
            if res is None:
                break
            if a in self.anno[id(k)] and self.annotation(k.module, self.anno[id(k)][a]) is not None:
                r = self.annotation(k.module, self.anno[id(k)][a])
                found = True
                res = None if r is None else res | r
            elif a in self.anno[id(k)] and not self.selfstores[id(k)].get(a):
                return UNKNOWN
            elif a in k.assigns or a in self.selfstores[id(k)]:
                found = True
                vals = []
                if a in k.assigns:
                    vals.append((None, k.assigns[a]))
                for f, n in self.selfstores[id(k)].get(a, []):
                    v, ann = stored_value(f, n)
                    if ann is not None:
                        r = self.annotation(f.module, ann)
                        if r is not None:
                            res |= r
                            continue
                    vals.append((f, v))
                if res is None:
                    break
                for f, v in vals:
                    if v is None:
                        res = None
                        break
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    r = self.value(k.module, f, v, self.env(f) if f else {}, 2)
                    if r is None:
                        res = None
                        break
                    res |= r
            if res is None:
                break
        if found and res and a in self.foreign and not any(a in self.anno[id(k)] for k in self.family(c)):
            fam = self.family(c)
            for f, n in self.foreign_stores.get(a, []):
                if f is None:
                    res = None
                    break
                ts = self.value(f.module, f, n.value, self.env(f), 2)
                if ts and all(k == 'E' or k == 'B' or k in ('C', 'T') and x not in fam for k, x in ts):
                    continue
                v, ann = stored_value(f, n)
                r = self.annotation(f.module, ann) if ann is not None else None if v is None else \
                    frozenset() if isinstance(v, ast.Constant) and v.value is None else self.value(f.module, f, v, self.env(f), 2)
                if r is None:
                    res = None
                    break
                res |= r
        r2 = frozenset(res) if found and res else UNKNOWN
        self._atypes[key] = r2
        return r2

    def env(self, f: Optional[Func]) -> Dict[str, Optional[FrozenSet[Ty]]]:
        """types of the local variables of a function (flow insensitive)"""
        if f is None:
            return {}
        e = getattr(self, '_envs', None)
        if e is None:
            e = self._envs = {}
        k = id(f.node)
        if k in e:
            return e[k]
        env: Dict[str, Optional[FrozenSet[Ty]]] = dict(self.env(f.outer)) if f.outer is not None else {}
        e[k] = env
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = self.annotation(f.module, x.annotation) if x.annotation is not None else self.convention(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                t = self.annotation(f.module, x.annotation) or UNKNOWN
                env[x.arg] = frozenset({('B', tuple), ('E', (t, t, None))}) if x is a.vararg else \
                    frozenset({('B', dict), ('E', (basic(str), t, ('kv', basic(str), t)))})
        if f.cls is not None and f.outer is None and not f.is_static and f.params():
            env[f.params()[0]] = frozenset({('T' if f.is_classmethod or f.name in ('__new__', '__init_subclass__', '__class_getitem__') else 'C', f.cls)})
        assigned: Dict[str, List] = {}
        nested: Dict[str, List[Func]] = {}
        for g in nested_funcs(f):
            if g.outer is not None and g.outer.node is f.node:
                nested.setdefault(g.name, []).append(g)
        ann: Dict[str, Optional[FrozenSet[Ty]]] = {}
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign):
                tc = type_comment(f.module, n)
                for t in n.targets:
                    if isinstance(t, ast.Name) and tc is not None:
                        ann[t.id] = self.annotation(f.module, tc)
                    elif isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
                    else:
                        targets(t, 'unpack', n.value, (), assigned)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ann[n.target.id] = self.annotation(f.module, n.annotation)
            elif isinstance(n, ast.NamedExpr):
                assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    nm = x.asname or x.name.split('.')[0]
                    r = UNKNOWN
                    if isinstance(n, ast.Import) and not x.name.startswith('DHParser'):
                        o = std(x.name if x.asname else x.name.split('.')[0])
                        if o is not None:
                            r = frozenset({('S', o)})
                    elif isinstance(n, ast.ImportFrom) and n.module and n.module.startswith('DHParser.') \
                            and n.module.split('.')[-1] in self.ix.modules:
                        r = self.infer_global(self.ix.modules[n.module.split('.')[-1]], ast.Name(x.name, ast.Load()))
                    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                        o = std(n.module + '.' + x.name)
                        if inspect.isclass(o) or inspect.isroutine(o) or inspect.ismodule(o):
                            r = frozenset({('S', o)})
                    if isinstance(n, ast.Import) and x.name.startswith('DHParser'):
                        r = frozenset({('P', None)}) if not x.asname else UNKNOWN
                    ann[nm] = r if nm not in ann else UNKNOWN
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.setdefault(n.id, [])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                assigned.setdefault(n.name, []).append(('exc', n.type, ()) if n.type is not None else None)
            elif isinstance(n, (ast.For, ast.comprehension)) and not getattr(n, 'is_async', 0):
                targets(n.target, 'iter', n.iter, (), assigned)
            elif isinstance(n, (ast.AsyncFor, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in ast.walk(i.optional_vars):
                            if isinstance(x, ast.Name):
                                assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                assigned.setdefault(n.target.id, []).append(None)
            elif isinstance(n, ast.ClassDef):
                ann[n.name] = UNKNOWN
            elif isinstance(n, ast.Lambda):
                for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
                    assigned.setdefault(x.arg, []).append(None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    ann[x] = UNKNOWN
        for g in nested_funcs(f):       # variables that inner functions assign
            for n in ast.walk(g.node):
                if isinstance(n, ast.Nonlocal):
                    for x in n.names:
                        if x not in f.all_params() or True:
                            ann[x] = UNKNOWN
        for n, gs in nested.items():
            env[n] = frozenset({('F', gs[0])}) if len(gs) == 1 and n not in assigned and n not in ann else UNKNOWN
        for n, r in ann.items():
            env[n] = r
        params = set(f.all_params())
        for n in assigned:
            if n in ann:
                continue
            if n in params:
                if assigned[n]:
                    self._join(env, n, f, assigned[n])
                continue
            env[n] = UNKNOWN
        for n, vals in assigned.items():     # values that refer to other locals: in a second step
            if n in ann or n in params or not vals or n in nested:
                continue
            env[n] = frozenset()
            self._join(env, n, f, vals)
        return env

    def convention(self, name: str):
        """type of a parameter without annotation: what all the annotated parameters of that name have (ten at least)"""
        if self._conv is None:
            self._conv = {}
            seen: Dict[str, List] = {}
            for f in self.funcs:
                a = f.node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    if x.annotation is not None:
                        seen.setdefault(x.arg, []).append(self.annotation(f.module, x.annotation))
            for k, v in seen.items():
                if len(v) >= 10 and all(v) and all(t[0] == 'C' for ts in v for t in ts):
                    self._conv[k] = frozenset().union(*v)
        return self._conv.get(name)

    def _join(self, env, n, f, vals):
        cur = env.get(n)
        if cur is None:
            return
        res = set(cur)
        env[n] = UNKNOWN
        for v in vals:
            if v is None:
                return
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            r = self.marked(f, v, env) if isinstance(v, tuple) else self.value(f.module, f, v, env, 1)
            if r is None:
                return
            res |= r
        env[n] = frozenset(res) if res else UNKNOWN

    def value(self, m: Module, f: Optional[Func], e: ast.expr, env, depth=0) -> Optional[FrozenSet[Ty]]:
        """the types of an expression, None: not known"""
        if depth > 8 or e is None:
            return UNKNOWN
        if isinstance(e, ast.Constant):
            if e.value is None:
                return frozenset()
            return basic(type(e.value)) if e.value is not Ellipsis else UNKNOWN
        if isinstance(e, ast.JoinedStr):
            return basic(str)
        for k, t in ((ast.List, list), (ast.ListComp, list), (ast.Dict, dict), (ast.DictComp, dict), (ast.Set, set),
                     (ast.SetComp, set), (ast.Tuple, tuple)):
            if isinstance(e, k):
                if t is tuple and not any(isinstance(x, ast.Starred) for x in e.elts):
                    xs = tuple(self.value(m, f, x, env, depth + 1) for x in e.elts)
                    u = None if any(x is None for x in xs) or not xs else frozenset().union(*xs)
                    return frozenset({('B', tuple), ('E', (u, u, xs))})
                return basic(t)
        if isinstance(e, ast.Subscript):
            ts = self.value(m, f, e.value, env, depth + 1)
            if not ts or any(k not in ('B', 'E', 'X') for k, x in ts):
                return UNKNOWN
            if isinstance(e.slice, ast.Slice):
                es = [x for k, x in ts if k == 'E']
                if any(k == 'B' and x not in (list, tuple, str) or k == 'X' for k, x in ts):
                    return UNKNOWN
                return frozenset({t for t in ts if t[0] != 'E'} | {('E', (x[0], x[1], None)) for x in es})
            i = e.slice
            if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant) \
                    and isinstance(i.operand.value, int):
                return component(ts, -i.operand.value)
            if isinstance(i, ast.Constant) and isinstance(i.value, int):
                return component(ts, i.value)
            return elements(ts, 1)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.infer_global(m, e, depth + 1)
        if isinstance(e, ast.Lambda):
            return frozenset({('L', e)})
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return basic(bool) if not isinstance(e, ast.Compare) or len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) else UNKNOWN
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Mod, ast.FloorDiv)):
            a, b = self.value(m, f, e.left, env, depth + 1), self.value(m, f, e.right, env, depth + 1)
            if a and a == basic(str) and isinstance(e.op, ast.Mod):
                return a
            if a and a == b and (a == basic(int) or a == basic(str) and isinstance(e.op, ast.Add)):
                return a
            return UNKNOWN
        if isinstance(e, ast.NamedExpr):
            return self.value(m, f, e.value, env, depth + 1)
        if isinstance(e, ast.IfExp):
            a, b = self.value(m, f, e.body, env, depth + 1), self.value(m, f, e.orelse, env, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BoolOp):
            res: Set[Ty] = set()
            for x in e.values:
                r = self.value(m, f, x, env, depth + 1)
                if r is None:
                    return UNKNOWN
                res |= r
            return frozenset(res)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'cast' and len(e.args) == 2:
                return self.annotation(m, e.args[0])
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and f is not None and f.cls is not None:
                return UNKNOWN
            ts = self.value(m, f, e.func, env, depth + 1)
            if ts is None:
                return UNKNOWN
            res = set()
            for k, x in ts:
                if k == 'K':
                    res.add(('C', x))
                elif k == 'T':
                    if '__new__' in {n for c in self.ix.mro(x) for n in c.methods}:
                        return UNKNOWN
                    res.add(('C', x))
                elif k == 'F':
                    if decorated(x) or x.node.returns is None or isinstance(x.node, ast.AsyncFunctionDef):
                        return UNKNOWN
                    if isinstance(x.node.returns, ast.Constant) and x.node.returns.value in ('Self',):
                        return UNKNOWN
                    r = self.annotation(x.module, x.node.returns)
                    if r is None:
                        return UNKNOWN
                    res |= r
                elif k == 'S' and x in (list, tuple, set, frozenset, sorted) and len(e.args) == 1:
                    el = elements(self.value(m, f, e.args[0], env, depth + 1), 0)
                    res |= {('B', list if x is sorted else x), ('E', (el, el, None))}
                elif k == 'S' and x in (str, list, dict, set, tuple, int, float, bytes, frozenset, bytearray):
                    res |= basic(x)
                elif k == 'S' and x in (reversed, iter) and len(e.args) == 1:
                    el = elements(self.value(m, f, e.args[0], env, depth + 1), 0)
                    res |= {('X', None), ('E', (el, el, None))}
                elif k == 'S' and x is next and len(e.args) == 1:
                    el = elements(self.value(m, f, e.args[0], env, depth + 1), 0)
                    if el is None:
                        return UNKNOWN
                    res |= el
                elif k == 'S' and x is enumerate and e.args:
                    el = elements(self.value(m, f, e.args[0], env, depth + 1), 0)
                    t = frozenset({('B', tuple), ('E', (None, None, (basic(int), el)))})
                    res |= {('X', None), ('E', (t, t, None))}
                elif k == 'S' and x is zip and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
                    els = tuple(elements(self.value(m, f, a, env, depth + 1), 0) for a in e.args)
                    t = frozenset({('B', tuple), ('E', (None, None, els))})
                    res |= {('X', None), ('E', (t, t, None))}
                elif k == 'S' and x in (len, ord, hash, id):
                    res |= basic(int)
                elif k == 'S' and x in (repr, chr):
                    res |= basic(str)
                elif k == 'S' and x in (isinstance, issubclass, callable, any, all, hasattr):
                    res |= basic(bool)
                elif k == 'S' and x is re.compile:
                    res.add(('O', re.Pattern))
                elif k == 'S' and x in (re.match, re.search, re.fullmatch):
                    res.add(('O', re.Match))
                elif k == 'PM' and x[0] is re.Pattern and x[1] in ('match', 'search', 'fullmatch'):
                    res.add(('O', re.Match))
                elif k == 'PM' and x[0] is str and x[1] in STR_RESULT:
                    t = STR_RESULT[x[1]]
                    res |= {('B', list), ('E', (basic(str), basic(str), None))} if t == 'list' else basic(B[t])
                elif k == 'PM' and x[0] in CONTAINERS and isinstance(e.func, ast.Attribute):
                    r = self.container_method(x[0], x[1], self.value(m, f, e.func.value, env, depth + 1))
                    if r is None:
                        return UNKNOWN
                    res |= r
                elif k in ('BM', 'SM', 'C'):
                    if k == 'C':
                        if self.open_class(x) or self.ix.lookup(x, '__call__') is None:
                            return UNKNOWN
                        x = (x, '__call__')
                    for s in self.ix.subclasses(x[0]):
                        g = self.ix.lookup(s, x[1])
                        if g is None or decorated(g) or g.node.returns is None or isinstance(g.node, ast.AsyncFunctionDef) \
                                or 'Self' in unparse(g.node.returns):
                            return UNKNOWN
                        r = self.annotation(g.module, g.node.returns)
                        if r is None:
                            return UNKNOWN
                        res |= r
                elif k == 'S' and inspect.isclass(x) and x is not type and x is not super \
                        and not issubclass(x, type) and x.__module__ not in ('typing',) and plain(x):
                    res.add(('O', x))
                else:
                    return UNKNOWN
            return frozenset(res)
        if isinstance(e, ast.Attribute):
            ts = self.value(m, f, e.value, env, depth + 1)
            if ts is None or not ts:
                return UNKNOWN
            res = set()
            for k, x in ts:
                if k == 'E':
                    continue
                r: Optional[FrozenSet[Ty]] = UNKNOWN
                if k == 'C':
                    g = self.ix.lookup(x, e.attr)
                    if e.attr == '__class__':
                        r = frozenset({('K', x)})
                    elif g is not None and not g.is_property:
                        r = frozenset({('BM', (x, e.attr))})
                    else:
                        r = self.attr_type(x, e.attr)
                elif k == 'T':
                    g = self.ix.lookup(x, e.attr)
                    if g is not None and (g.is_static or g.is_classmethod):
                        r = frozenset({('SM', (x, e.attr))})
                    elif g is not None and not g.is_property:
                        r = frozenset({('UM', (x, e.attr))})
                elif k == 'M':
                    r = self.infer_global(x, ast.Name(e.attr, ast.Load()), depth + 1)
                elif k == 'P':
                    if e.attr in self.ix.modules:
                        r = frozenset({('M', self.ix.modules[e.attr])})
                elif k == 'S' and inspect.ismodule(x):
                    o = getattr(x, e.attr, None)
                    if inspect.isclass(o) or inspect.isroutine(o) or inspect.ismodule(o):
                        r = frozenset({('S', o)})
                elif k == 'B':
                    o = getattr(x, e.attr, None)
                    if callable(o):
                        r = frozenset({('PM', (x, e.attr))})
                elif k == 'O':
                    o = getattr(x, e.attr, None)
                    if inspect.isroutine(o):
                        r = frozenset({('PM', (x, e.attr))})
                if r is None:
                    return UNKNOWN
                res |= r
            return frozenset(res)
        return UNKNOWN

    def container_method(self, t: type, name: str, ts):
        es = [x for k, x in ts or () if k == 'E']
        if t is dict and len(es) == 1:
            kv = es[0][2]
            if not (isinstance(kv, tuple) and kv[:1] == ('kv',)):
                return UNKNOWN
            _, k, v = kv
            if name == 'keys':
                return frozenset({('X', None), ('E', (k, None, None))})
            if name == 'values':
                return frozenset({('X', None), ('E', (v, None, None))})
            if name == 'items':
                tt = frozenset({('B', tuple), ('E', (None, None, (k, v)))})
                return frozenset({('X', None), ('E', (tt, None, None))})
            if name == 'copy':
                return ts
        elif t in (list, set) and len(es) == 1:
            if name == 'pop':
                return es[0][0]
            if name == 'copy':
                return ts
        return UNKNOWN

    def marked(self, f: Func, v, env):
        """type of what a loop, an unpacking or an except-clause assigns"""
        kind, e, i = v
        m = f.module
        if kind == 'iter':
            t = elements(self.value(m, f, e, env, 1), 0)
        elif kind == 'exc':
            res = set()
            for x in e.elts if isinstance(e, ast.Tuple) else [e]:
                r = self.value(m, f, x, env, 1)
                if r is None or len(r) != 1:
                    return UNKNOWN
                k, c = next(iter(r))
                if k == 'T':
                    res.add(('C', c))
                else:
                    return UNKNOWN
            return frozenset(res)
        else:
            t = self.value(m, f, e, env, 1)
        for j in i:
            t = component(t, j) if t else UNKNOWN
        return t

    def constructor(self, c: Class) -> Optional[List[Sig]]:
        """signatures a call of the class must fit (None: not known)"""
        for k in self.ix.mro(c):
            if k.node.decorator_list:
                return dataclass_sig(self, c)
            if any(unparse(b).split('[')[0].split('.')[-1] == 'NamedTuple' for b in k.node.bases):
                if '__new__' in k.methods:
                    return None
                fields = [(st.target.id, st.value is not None) for st in k.node.body
                          if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
                return [Sig(fields, [], False, False, 0, k.name)]
            if any(kw.arg == 'metaclass' for kw in k.node.keywords):
                return None
            r = []
            if '__init__' in k.methods:
                f = k.methods['__init__']
                if decorated(f):
                    return None
                r.append(Sig.of_func(f, True))
            if '__new__' in k.methods:
                f = k.methods['__new__']
                if decorated(f):
                    return None
                r.append(Sig.of_func(f, True))
            if r:
                return r
            if '__init__' in k.assigns or '__new__' in k.assigns:
                return None
            ext = self.ext_bases(k)
            if ext is None:
                return None
            for b in ext:
                if b is not object:
                    if '__init__' in vars(b) or '__new__' in vars(b) or issubclass(b, BaseException) or True:
                        return None
        return [Sig([], [], False, False, 0, c.name)]


def targets(t, kind, e, path, assigned):
    if isinstance(t, ast.Name):
        assigned.setdefault(t.id, []).append((kind, e, path))
    elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
        for i, x in enumerate(t.elts):
            targets(x, kind, e, path + (i,), assigned)
    else:
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned.setdefault(x.id, []).append(None)


def dataclass_sig(w, c):
    return None


def plain(x: type) -> bool:
    """a class of the standard library whose instances have no other attributes than the class and what it sets itself"""
    return x.__module__.split('.')[0] in ('re', 'collections', 'io', 'pathlib', 'threading', 'queue') and \
        not hasattr(x, '__getattr__')


def is_gen(f: Func) -> bool:
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(f.node))


def conditional(f: Func) -> bool:
    """defined more than once in its module"""
    k = getattr(f.module, '_defcount', None)
    if k is None:
        k = {}
        for st in ast.walk(f.module.tree):
            if isinstance(st, FUNC):
                pass
        for st in iter_stmts(f.module.tree.body):
            if isinstance(st, FUNC):
                k[st.name] = k.get(st.name, 0) + 1
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        k[t.id] = k.get(t.id, 0) + 1
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    k[a.asname or a.name] = k.get(a.asname or a.name, 0) + 1
        f.module._defcount = k
    return k.get(f.name, 0) > 1


def multiple_import(m: Module, n: str) -> bool:
    c = 0
    for st in iter_stmts(m.tree.body):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            c += sum(1 for a in st.names if (a.asname or a.name.split('.')[0]) == n)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == n:
            c += 1
        elif isinstance(st, ast.Assign):
            c += sum(1 for t in st.targets if isinstance(t, ast.Name) and t.id == n)
    return c > 1 and not n == 'concurrent'


def stores(m: Module, n: str) -> int:
    k = getattr(m, '_stores', None)
    if k is None:
        k = {}
        for fn in ast.walk(m.tree):
            if isinstance(fn, FUNC):
                gl = {g for x in ast.walk(fn) if isinstance(x, ast.Global) for g in x.names}
                if gl:
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in gl:
                            k[x.id] = k.get(x.id, 0) + 2
        for st in iter_stmts(m.tree.body):
            if isinstance(st, FUNC + (ast.ClassDef,)):
                k[st.name] = k.get(st.name, 0) + 1
                continue
            if isinstance(st, (ast.If, ast.Try, ast.With)):
                continue
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    k[x.id] = k.get(x.id, 0) + 1
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    k[a.asname or a.name] = k.get(a.asname or a.name, 0) + 1
        m._stores = k
    return k.get(n, 0)


def gm_annotation(m: Module, n: str):
    for st in m.tree.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == n:
            return st.annotation
    return None


def stored_value(f: Func, n: ast.Attribute):
    """(value, annotation) of a store to an attribute"""
    for st in ast.walk(f.node):
        if isinstance(st, ast.Assign) and any(t is n for t in st.targets):
            return st.value, type_comment(f.module, st)
        if isinstance(st, ast.AnnAssign) and st.target is n:
            return st.value, st.annotation
    return None, None


def type_comment(m: Module, st: ast.Assign):
    lines = getattr(m, '_lines', None)
    if lines is None:
        lines = m._lines = m.text.split('\n')
    line = lines[st.end_lineno - 1]
    i = line.find('# type:', 0)
    if i < 0 or len(st.targets) != 1 or i < len(line.encode()[:st.end_col_offset].decode()):
        return None
    t = line[i + 7:].split('#')[0].strip()
    if t.startswith('ignore'):
        return None
    try:
        return ast.parse(t, mode='eval').body
    except SyntaxError:
        return None


def decorated(f: Func) -> bool:
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        s = unparse(d)
        if s.split('.')[-1] not in TRANSPARENT and s.split('.')[0] not in ('cython',):
            return True
    return False


def walk_scope(node) -> Iterator[ast.AST]:
    """nodes of a function without those of functions and classes inside (lambdas, comprehensions included)"""
    stack = list(reversed(node.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, ast.ClassDef):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


# -----------------------------------------------------------------------------------------------

class Checker:
    def __init__(self, ix, rep):
        self.ix, self.rep = ix, rep
        self.w = World(ix)
        self.universe()

    def universe(self):
        """all attribute names there are: of the package, of builtin types, of imported modules of the standard library"""
        u: Set[str] = set(self.w.foreign)
        for c in self.ix.all_classes():
            u |= self.w.attrs(c)
            for x in ast.walk(c.node):
                if isinstance(x, FUNC):
                    u.add(x.name)
            for n in ast.walk(c.module.tree):
                if isinstance(n, ast.ImportFrom) and (n.module or '').split('.')[0] == 'cython':
                    u |= {a.name for a in n.names}
        u |= set(self.ix.modules)
        std_methods: Set[str] = set()
        for t in (str, bytes, list, dict, set, tuple, int, float, frozenset, object, type, bytearray, BaseException, OSError,
                  UnicodeDecodeError, StopIteration, SyntaxError, ImportError, SystemExit, property, memoryview, range):
            std_methods |= set(dir(t))
        std_methods |= {'args', 'errno', 'strerror', 'filename', '__name__', '__qualname__', '__wrapped__', '__func__', '__self__'}

        def f(): yield
        async def g(): pass
        co = g()
        std_methods |= set(dir(f)) | set(dir(f())) | set(dir(co)) | set(dir(f.__code__)) | set(dir(classmethod))
        co.close()
        mods: Set[str] = set()
        for m in self.ix.modules.values():
            u |= set(m.functions) | set(m.classes) | set(m.globals) | set(m.imports)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    mods |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    mods.add(n.module)
        unknown_modules = False
        mods |= {'asyncio', 'asyncio.streams', 'asyncio.subprocess', 'inspect', 'types', 're', 'threading', 'concurrent.futures',
                 'argparse', 'configparser', 'platform', 'subprocess', 'cProfile', 'pstats', 'traceback', 'xml.etree.ElementTree',
                 'multiprocessing', 'multiprocessing.managers', 'multiprocessing.synchronize', 'socket', 'time', 'urllib.parse', 'os.path', 'annotationlib'}
        for mod in sorted(mods):
            o = std(mod)
            if inspect.ismodule(o):
                std_methods |= set(dir(o))
                for k in list(vars(o).values()):
                    if inspect.isclass(k):
                        std_methods |= set(dir(k)) | set(getattr(k, '__slots__', ()) or ())
        self.std_methods = std_methods
        self.u = u | std_methods

    def guarded(self, f: Func, attr: str) -> bool:
        """the function asks whether there is such an attribute, or is prepared that there is none"""
        g = f
        while g is not None:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Constant) and n.value == attr:
                    return True     # hasattr(x, 'a'), 'a' in dir(x), ...
            g = g.outer
        return False

    def handlers(self, f: Func) -> Set[int]:
        """nodes in try-blocks that catch attribute- or type-errors"""
        res: Set[int] = set()
        for n in walk_scope(f.node):
            if isinstance(n, ast.Try):
                names = {x.id for h in n.handlers if h.type is not None for x in ast.walk(h.type) if isinstance(x, ast.Name)}
                if names & {'AttributeError', 'TypeError'}:
                    for b in n.body:
                        for x in ast.walk(b):
                            res.add(id(x))
        return res

    def run(self):
        for f in self.w.funcs:
            self.function(f)
        self.module_level()
        self.initialised()

    def initialised(self):
        """attributes of self that methods read are there once the constructor has returned"""
        done = set()
        for c in self.ix.all_classes():
            if any(self.w.ext_bases(k) is None for k in self.ix.mro(c)):
                continue
            mro = self.ix.mro(c)
            con = Constructed(self.ix, c)
            have = con.attributes()
            if con.unknown:
                self.rep.count('classes with computed attribute names')
                continue
            have = have | set(dir(object)) | {'__dict__', '__name__', '__slots__', '__annotations__'}
            for k in mro:
                have |= set(k.methods) | set(k.assigns) | set(k.setters)
                if any(unparse(b).split('.')[-1] in ('NamedTuple', 'TypedDict') for b in k.node.bases) or k.node.decorator_list:
                    have |= set(self.w.anno[id(k)])
                for st in iter_stmts(k.node.body):
                    if isinstance(st, (ast.ClassDef, ast.For, ast.Assign, ast.AnnAssign)):
                        have |= {st.name} if isinstance(st, ast.ClassDef) else {
                            x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                            and not (isinstance(st, ast.AnnAssign) and st.value is None)}
                for b in self.w.ext_bases(k) or []:
                    have |= set(dir(b))
            funcs = [f for k in mro for f in list(k.methods.values()) + list(k.setters.values()) if not f.is_static and f.params()
                     and not f.is_classmethod and f.name not in ('__init__', '__new__', '__init_subclass__', '__class_getitem__')]
            lazy = set()
            for f in funcs:
                h = self.handlers(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and id(n) in h:
                        lazy.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 \
                            and isinstance(n.args[1], ast.Constant):
                        lazy.add(n.args[1].value)
            self.rep.count('classes with a constructor analysed')
            for f in funcs:
                s = f.params()[0]
                other = set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 \
                            and isinstance(n.args[0], ast.Name) and n.args[0].id == s:
                        for x in ast.walk(n.args[1]):
                            k = self.ix.find_class(f.module, x.id) if isinstance(x, ast.Name) else None
                            if k is not None:
                                other |= self.w.attrs(k)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == s:
                        if n.attr in have:
                            self.rep.ok()
                        elif n.attr in lazy or n.attr in other or self.stored_before(f, n, s):
                            self.rep.count('attributes created on demand')
                        else:
                            key = f'{f.module.name}.{f.qual}:{s}.{n.attr}'
                            if (key, f.cls.name) not in done:
                                done.add((key, f.cls.name))
                                self.rep.violation('uninitialised', key, f'{f.module.rel}:{n.lineno} {f.qual}',
                                                   f'the constructor of {c.name} does not set {n.attr} on every path')

    def stored_before(self, f: Func, n, s) -> bool:
        """the method has assigned the attribute itself, before it reads it"""
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr and isinstance(x.value, ast.Name)
                   and x.value.id == s and x.lineno < n.lineno for x in ast.walk(f.node))

    def module_level(self):
        for m in self.ix.modules.values():
            for st in iter_stmts(m.tree.body):
                if isinstance(st, FUNC + (ast.ClassDef, ast.If, ast.Try, ast.With, ast.Import, ast.ImportFrom)):
                    continue
                for n in ast.walk(st):
                    if isinstance(n, ast.Call):
                        self.call(m, None, n, {}, set())

    def function(self, f: Func):
        env = self.w.env(f)
        prepared = self.handlers(f)
        called = set()
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                self.call(f.module, f, n, env, prepared)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(f, n, env, prepared)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.percent(f, n)
            elif isinstance(n, ast.Raise) and n.exc is not None:
                self.raise_(f, n, env)
            elif isinstance(n, ast.Assign):
                self.unpack(f, n, env)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.unpack_items(f, n.target, n.iter, env)
            elif isinstance(n, ast.Return) and n.value is not None:
                self.returns(f, n, env)

    # -- attributes -----------------------------------------------------------------------

    def attribute(self, f: Func, n: ast.Attribute, env, prepared):
        m = f.module
        a = n.attr
        self.rep.count('attribute accesses')
        if a not in self.u and not self.guarded(f, a) and id(n) not in prepared \
                and (dotted(n.value) or '').split('.')[0] != 'cython' and not version_guard(f, n):
            self.rep.violation('attribute', f'{f.module.name}.{f.qual}:{unparse(n)}', f'{m.rel}:{n.lineno} {f.qual}',
                               f'no class or module of the package, no builtin type and no imported module has an attribute {a}')
            return
        ts = self.w.value(m, f, n.value, env)
        if not ts:
            self.rep.count('attribute accesses on objects of unknown type')
            return
        ok = False
        names = []
        for k, x in ts:
            if k == 'E':
                continue
            if k in ('C', 'T', 'K'):
                if self.w.open_class(x) or a in self.w.attrs(x) or k in ('T', 'K') and a in dir(type):
                    ok = True
                names.append(x.name)
            elif k == 'M':
                names.append(x.name)
                if a in self.ix.modules or a in mod_names(self.ix, x) or a.startswith('__'):
                    ok = True
            elif k in ('B', 'O'):
                names.append(x.__name__)
                if hasattr(x, a) or k == 'O' and x not in (re.Pattern, re.Match):
                    ok = True
            elif k == 'S':
                names.append(getattr(x, '__name__', '?'))
                if not inspect.ismodule(x) or hasattr(x, a) or std(x.__name__ + '.' + a) is not None:
                    ok = True
            else:
                ok = True
        if ok:
            self.rep.ok()
            return
        if a in self.w.foreign and any(k in ('C', 'T') for k, x in ts):
            return
        if self.guarded(f, a) or id(n) in prepared:
            return
        # narrowed by a test of the type?
        root = n.value
        if isinstance(root, ast.Name) and self.narrowed(f, root.id):
            return
        if version_guard(f, n):
            return
        self.rep.violation('attribute', f'{f.module.name}.{f.qual}:{unparse(n)}', f'{m.rel}:{n.lineno} {f.qual}',
                           f'{unparse(n.value)} is of type {" or ".join(sorted(names))}, which has no attribute {a}')

    def narrowed(self, f: Func, name: str) -> bool:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass', 'hasattr', 'callable', 'type') \
                    and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
                return True
        return False

    # -- calls ----------------------------------------------------------------------------

    def call(self, m: Module, f: Optional[Func], n: ast.Call, env, prepared):
        rep = self.rep
        rep.count('calls')
        where = f'{m.rel}:{n.lineno} {f.qual if f else "<module>"}'
        who = f'{m.name}.{f.qual if f else "<module>"}'
        sigs: List[Sig] = []
        fn = n.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == 'super' and f is not None and f.cls is not None:
            found = []
            for s in self.ix.subclasses(f.cls):
                g = self.ix.lookup_super(s, f.cls, fn.attr)
                if g is not None and g not in found:
                    found.append(g)
            for g in found:
                if not decorated(g):
                    sigs.append(Sig.of_func(g, not g.is_static and fn.attr != '__new__'))
        else:
            ts = self.w.value(m, f, fn, env)
            ts = ts and frozenset(t for t in ts if t[0] != 'E')
            for k, x in ts or ():
                if k == 'L':
                    sigs.append(Sig.of(x, False, 'the lambda-function'))
                elif k == 'F':
                    if factory(x):
                        # with the path (applied at once) or without it (partially applied)
                        ps = [Sig.of(x.node, skip, x.qual).problem(n) for skip in (False, True)]
                        rep.count('calls of transformation-functions')
                        txt = ' '.join(unparse(d) for d in x.node.decorator_list) + ' ' + ' '.join(
                            unparse(a.annotation) for a in x.node.args.args[1:2] if a.annotation is not None)
                        if re.search(r'Set|Sequence|Collection|Tuple|List|Container|set|tuple|list', txt):
                            continue        # further arguments are collected
                        if all(ps) and id(n) not in prepared:
                            rep.violation('call', f'{who}:{unparse(fn)}->{x.qual}', where, f'{unparse(n)}: {x.qual} {ps[0]}')
                        else:
                            rep.ok()
                    elif not decorated(x):
                        sigs.append(Sig.of_func(x, False))
                elif k == 'T':
                    r = self.w.constructor(x)
                    sigs += r or []
                elif k in ('BM', 'SM', 'UM', 'C'):
                    if k == 'C':
                        if self.w.open_class(x):
                            continue
                        if '__call__' not in self.w.attrs(x):
                            rep.violation('call', f'{who}:{unparse(fn)}', where, f'{unparse(n)}: objects of class {x.name} cannot be called')
                            continue
                        x = (x, '__call__')
                        k = 'BM'
                    c, name = x
                    seen = []
                    for s in self.ix.subclasses(c) if k != 'UM' else [c]:
                        g = self.ix.lookup(s, name)
                        if g is not None and g not in seen:
                            seen.append(g)
                    for g in seen:
                        if not decorated(g) and not g.is_property:
                            sigs.append(Sig.of_func(g, k in ('BM', 'SM') and not g.is_static))
                elif k == 'B' and len(ts) == 1 and id(n) not in prepared and not callable_type(x):
                    rep.violation('call', f'{who}:{unparse(fn)}', where, f'{unparse(n)}: a {x.__name__} cannot be called')
                elif k == 'S':
                    nm = getattr(x, '__name__', '')
                    if nm in ARITY and getattr(builtins, nm, None) is x and (inspect.isclass(x) or py_sig(x, nm) is None):
                        self.arity(n, ARITY, nm, where, who, nm)
                        continue
                    if inspect.isclass(x) and (x.__module__ in ('typing', 'builtins') or issubclass(x, type)):
                        continue
                    if inspect.isroutine(x) or inspect.isclass(x):
                        s = py_sig(x, getattr(x, '__qualname__', '?'))
                        if s is not None:
                            sigs.append(s)
                elif k == 'PM':
                    t, name = x
                    o = getattr(t, name, None)
                    if name in METHODS and t in (str, list, dict, set):
                        self.arity(n, METHODS, name, where, who, f'{t.__name__}.{name}')
                        continue
                    try:
                        s = Sig.of_py(inspect.signature(o), f'{t.__name__}.{name}', skip_first=inspect.ismethoddescriptor(o) or inspect.isfunction(o))
                        sigs.append(s)
                    except (TypeError, ValueError):
                        pass
            if ts is None and isinstance(fn, ast.Attribute):
                self.by_name(f, m, n, where, who, prepared)
            if ts and len(ts) > 1:
                # alternatives: at least one must fit
                ps = [s.problem(n) for s in sigs]
                if sigs and all(p is not None for p in ps) and id(n) not in prepared:
                    rep.violation('call', f'{who}:{unparse(fn)}', where, f'{unparse(n)}: {sigs[0].label} {ps[0]}')
                return
        if not sigs:
            rep.count('calls of unknown functions')
            self.passed_on(f, m, n, env, where, who)
            return
        for s in sigs:
            p = s.problem(n)
            if p is None:
                rep.ok()
                if id(n) not in prepared:
                    self.arguments(s, n, m, f, env, where, who)
            elif id(n) in prepared:
                rep.count('calls prepared for a type error')
            else:
                rep.violation('call', f'{who}:{unparse(fn)}->{s.label}', where, f'{unparse(n)}: {s.label} {p}')
        self.passed_on(f, m, n, env, where, who)

    def arity(self, n: ast.Call, table, name, where, who, label):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        lo, hi = table[name]
        k = len(n.args)
        self.rep.count('calls of builtin functions')
        if k > hi or k + len(n.keywords) < lo:
            self.rep.violation('call', f'{who}:{unparse(n.func)}', where,
                               f'{unparse(n)}: {label} takes {lo} to {hi} arguments, {k} are passed')
        else:
            self.rep.ok()

    def by_name(self, f, m, n: ast.Call, where, who, prepared):
        """calls of methods of objects of unknown type: the name decides, if only the package has such methods"""
        name = n.func.attr
        if name in METHODS and f is not None and id(n) not in prepared:
            own = self.ix.methods_named(name)
            fits = [g for g in own if Sig.of(g.node, not g.is_static).problem(n) is None or decorated(g)]
            if not fits:
                self.arity(n, METHODS, name, where, who, name)
            return
        if name in self.std_methods or name.startswith('__') or f is None:
            return
        cands = self.ix.methods_named(name)
        if not cands or name in self.w.foreign or any(name in k.assigns or name in self.w.selfstores[id(k)] or name in self.w.anno[id(k)]
                                                      for k in self.ix.all_classes()):
            return
        for mod in self.ix.modules.values():
            if name in mod.functions or name in mod.globals or name in mod.imports:
                return
        if any(g.is_property or decorated(g) for g in cands):
            return
        sigs = [Sig.of_func(g, not g.is_static) for g in cands]
        ps = [s.problem(n) for s in sigs] + [Sig.of_func(g, False).problem(n) for g in cands]
        self.rep.count('calls resolved by name')
        if all(p is not None for p in ps) and id(n) not in prepared:
            self.rep.violation('call', f'{who}:{unparse(n.func)}', where,
                               f'{unparse(n)}: {sigs[0].label} {ps[0]}' + (' (nor do the others)' if len(sigs) > 1 else ''))
        else:
            self.rep.ok()

    def passed_on(self, f, m, n: ast.Call, env, where, who):
        """partial(g, ...)"""
        d = unparse(n.func).split('.')[-1]
        passing = {'partial': 0, 'submit': 0, 'run_in_executor': 1, 'run_in_thread': 0, 'to_thread': 0, 'call_soon_threadsafe': 0,
                   'call_soon': 0}
        if d in passing and len(n.args) > passing[d]:
            i = passing[d]
            ts = self.w.value(m, f, n.args[i], env)
            for k, x in ts or ():
                s = None
                if k == 'F' and not decorated(x):
                    s = Sig.of_func(x, False)
                elif k in ('BM', 'SM'):
                    g = self.ix.lookup(*x)
                    if g is not None and not decorated(g):
                        s = Sig.of_func(g, not g.is_static)
                if s is not None:
                    p = s.problem(n, n.args[i + 1:], n.keywords, partial=d == 'partial')
                    if p:
                        self.rep.violation('call', f'{who}:{d}({unparse(n.args[i])})', where, f'{unparse(n)}: {s.label} {p}')
                    else:
                        self.rep.ok()

    # -- format strings -----------------------------------------------------------------------

    def literal(self, f: Func, e: ast.expr) -> Optional[str]:
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.literal(f, e.left), self.literal(f, e.right)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Name):
            vals = []
            g = f
            while g is not None:
                hit = False
                for n in walk_scope(g.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == e.id:
                        hit = True
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        vals.append(n.value)
                if hit or e.id in g.all_params():
                    if len(vals) == 1 and isinstance(vals[0], ast.Constant) and isinstance(vals[0].value, str) \
                            and e.id not in g.all_params():
                        return vals[0].value
                    return None
                g = g.outer
            r = self.ix.resolve_global(f.module, e.id)
            if r is not None and stores(r[0], e.id) == 1 and isinstance(r[1], ast.Constant) and isinstance(r[1].value, str):
                return r[1].value
        return None

    def percent(self, f: Func, n: ast.BinOp):
        t = self.literal(f, n.left)
        if t is None:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, bytes):
                t = n.left.value.decode('latin1')
            else:
                return
        self.rep.count('format strings')
        specs = re.findall(r'%(\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])', t)
        bad = re.search(r'%(?!(\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa%])', t)
        where = f'{f.module.rel}:{n.lineno} {f.qual}'
        key = f'{f.module.name}.{f.qual}:{unparse(n.left)[:40]}'
        if bad:
            self.rep.violation('format', key, where, f'{t[max(0, bad.start() - 10):bad.start() + 10]!r}: not a conversion')
            return
        named = [s[0] for s in specs if s[0]]
        need = sum(1 + (s[1] == '*') + (s[2] == '*') for s in specs if s[3] != '%' or s[0])
        r = n.right
        if named:
            if isinstance(r, ast.Dict) and all(isinstance(k, ast.Constant) for k in r.keys):
                miss = {x[1:-1] for x in named} - {k.value for k in r.keys}
                if miss:
                    self.rep.violation('format', key, where, f'no value for {sorted(miss)}')
                    return
            self.rep.ok()
            return
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            if len(r.elts) != need:
                self.rep.violation('format', key, where, f'{need} conversions, but {len(r.elts)} values')
                return
            todo = [s for s in specs if s[3] != '%']
            if len(todo) == len(r.elts):
                env = self.w.env(f)
                for sp, x in zip(todo, r.elts):
                    ts = [t for t in self.w.value(f.module, f, x, env) or () if t[0] != 'E']
                    if sp[3] in 'diouxXeEfFgG' and ts and all(k == 'B' and t not in (int, float, bool) or k in ('F', 'BM', 'L') for k, t in ts):
                        self.rep.violation('format', key, where, f'%{sp[3]} is for numbers, {unparse(x)} is a {describe(ts)}')
                        return
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict, ast.ListComp, ast.Compare)) \
                or isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ('str', 'len', 'repr', 'int') \
                or isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr in ('join', 'strip', 'replace', 'lower'):
            if need != 1:
                self.rep.violation('format', key, where, f'{need} conversions, but one value')
                return
        elif need == 0:
            self.rep.violation('format', key, where, 'no conversion, but a value')
            return
        elif need > 1:
            ts = self.w.value(f.module, f, r, self.w.env(f))
            k = self.fixed_length(ts)
            if k and k != need:
                self.rep.violation('format', key, where, f'{need} conversions, but {k} values')
                return
            if ts and all(k == 'B' and x is not tuple or k == 'E' for k, x in ts):
                self.rep.violation('format', key, where, f'{need} conversions, but one value')
                return
        self.rep.ok()

    def format_call(self, f: Func, n: ast.Call):
        t = self.literal(f, n.func.value)
        if t is None:
            return
        self.rep.count('format strings')
        where = f'{f.module.rel}:{n.lineno} {f.qual}'
        key = f'{f.module.name}.{f.qual}:{unparse(n.func)[:40]}'
        try:
            fields = []
            for _, name, spec, conv in string.Formatter().parse(t):
                if name is not None:
                    fields.append(name)
                    if spec:
                        fields += [x[1] for x in string.Formatter().parse(spec) if x[1] is not None]
        except ValueError as e:
            self.rep.violation('format', key, where, f'{e}')
            return
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        auto = 0
        for x in fields:
            head = re.split(r'[.\[]', x)[0]
            if head == '':
                i, auto = auto, auto + 1
            elif head.isdigit():
                i = int(head)
            else:
                if not dstar and head not in {k.arg for k in n.keywords}:
                    self.rep.violation('format', key, where, f'no value for {{{head}}}')
                    return
                continue
            if not star and i >= len(n.args):
                self.rep.violation('format', key, where, f'no value for field no. {i}')
                return
        self.rep.ok()

    # -- types of values ----------------------------------------------------------------------

    def compatible(self, a, d) -> bool:
        """False: no value of the types a can be one of the types d"""
        if not a or not d:
            return True
        ae = [x for k, x in a if k == 'E']
        de = [x for k, x in d if k == 'E']
        ok = False
        for ka, xa in a:
            if ka == 'E':
                continue
            for kd, xd in d:
                if kd == 'E':
                    continue
                if self.match(ka, xa, kd, xd):
                    ok = True
        if not ok:
            return False
        if len(ae) == 1 and len(de) == 1 and len(a) == 2 and len(d) == 2:
            fa, fd = ae[0][2], de[0][2]
            if isinstance(fa, tuple) and isinstance(fd, tuple) and fa[:1] != ('kv',) and fd[:1] != ('kv',):
                if len(fa) != len(fd):
                    return False
                return all(self.compatible(x, y) for x, y in zip(fa, fd))
        return True

    def match(self, ka, xa, kd, xd) -> bool:
        if ka in ('M', 'P', 'S', 'X', 'UM', 'PM', 'O') or kd not in ('B', 'C'):
            return True
        if ka in ('F', 'L', 'BM', 'SM', 'T'):
            if kd == 'B':
                return False
            return self.w.open_class(xd) or '__call__' in self.w.attrs(xd) or any(c.name == 'type' for c in self.ix.mro(xd))
        if ka == 'B' and kd == 'B':
            return xa is xd or issubclass(xa, xd) or issubclass(xd, xa) or xa is int and xd is float or xd is bytes and xa is bytearray
        if ka == 'C' and kd == 'C':
            if self.w.open_class(xa) or self.w.open_class(xd):
                return True
            return any(c in self.ix.subclasses(xd) for c in self.ix.subclasses(xa))
        if ka == 'C':
            return self.w.ext_of_family(xa, xd)
        if ka == 'B':
            return self.w.ext_of_family(xd, xa)
        return True

    def arguments(self, s: 'Sig', n: ast.Call, m: Module, f: Optional[Func], env, where, who):
        if s.anno is None or any(isinstance(a, ast.Starred) for a in n.args):
            return
        pairs = [(s.pos[i][0], a) for i, a in enumerate(n.args) if i < len(s.pos)]
        pairs += [(k.arg, k.value) for k in n.keywords if k.arg is not None]
        mod, ann = s.anno
        for p, e in pairs:
            if ann.get(p) is None:
                continue
            d = self.w.annotation(mod, ann[p])
            a = self.w.value(m, f, e, env)
            if not d or not a:
                continue
            self.rep.count('arguments of known type')
            if self.compatible(a, d):
                self.rep.ok()
            elif not (f is not None and isinstance(e, ast.Name) and self.narrowed(f, e.id)):
                self.rep.violation('type', f'{who}:{unparse(n.func)}({p})', where,
                                   f'{unparse(n)[:80]}: {unparse(e)} is {describe(a)}, parameter {p} of {s.label} is {unparse(ann[p])}')

    # -- exceptions, tuples -------------------------------------------------------------------

    def raise_(self, f: Func, n: ast.Raise, env):
        e = n.exc
        ts = self.w.value(f.module, f, e, env)
        if not ts:
            return
        self.rep.count('raised objects')
        for k, x in ts:
            if k in ('B',) or k == 'F' or k == 'M':
                bad = True
            elif k in ('C', 'T'):
                bad = self.w.ext_bases(x) is not None and not self.is_exception(x)
            elif k == 'S':
                bad = inspect.isclass(x) and not issubclass(x, BaseException)
            else:
                bad = False
            if bad:
                self.rep.violation('raise', f'{f.module.name}.{f.qual}:{unparse(e)}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                   f'{unparse(e)} is not an exception')
                return
        self.rep.ok()

    def is_exception(self, c: Class) -> bool:
        for k in self.ix.mro(c):
            ext = self.w.ext_bases(k)
            if ext is None or any(issubclass(b, BaseException) for b in ext):
                return True
        return False

    def tuple_lengths(self, g: Func) -> Optional[Set[int]]:
        if decorated(g) or isinstance(g.node, ast.AsyncFunctionDef) or is_gen(g):
            return None
        ann = g.node.returns
        k = self.declared_length(g)
        if k is not None:
            return {k}
        res: Set[int] = set()
        env = self.w.env(g)
        for n in walk_scope(g.node):
            if isinstance(n, ast.Return):
                if n.value is None or isinstance(n.value, ast.Constant):
                    res.add(0)
                elif isinstance(n.value, ast.Tuple):
                    if not any(isinstance(x, ast.Starred) for x in n.value.elts):
                        res.add(len(n.value.elts))
                else:
                    ts = self.w.value(g.module, g, n.value, env)
                    k = self.fixed_length(ts)
                    if k is not None:
                        res.add(k)
        return res if res - {0} else None

    def fixed_length(self, ts) -> Optional[int]:
        """length of the tuples of these types, 0: they cannot be unpacked, None: not known"""
        es = [x for k, x in ts or () if k == 'E']
        ks = [(k, x) for k, x in ts or () if k != 'E']
        if len(ks) != 1:
            return None
        k, x = ks[0]
        if k == 'C':
            for c in self.ix.mro(x):
                if any(unparse(b).split('.')[-1] == 'NamedTuple' for b in c.node.bases) and '__iter__' not in c.methods:
                    return sum(1 for st in c.node.body if isinstance(st, ast.AnnAssign))
            return None
        if k == 'B' and x is tuple and len(es) == 1 and isinstance(es[0][2], tuple) and es[0][2][:1] != ('kv',):
            return len(es[0][2])
        if k == 'B' and x in (int, float, bool) or k in ('L', 'F', 'BM'):
            return 0
        return None

    def nullable(self, m: Module, ann, depth=0) -> bool:
        """the annotation allows None (or is not understood)"""
        if ann is None or depth > 5:
            return True
        if isinstance(ann, ast.Constant):
            return True
        if isinstance(ann, ast.Subscript):
            h = (dotted(ann.value) or '').split('.')[-1]
            if h == 'Union':
                return any(self.nullable(m, x, depth + 1) for x in (ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]))
            return h not in ('Tuple', 'tuple', 'List', 'list', 'Dict', 'dict', 'Set', 'set', 'FrozenSet')
        if isinstance(ann, ast.BinOp):
            return self.nullable(m, ann.left, depth + 1) or self.nullable(m, ann.right, depth + 1)
        if isinstance(ann, ast.Name):
            g = self.ix.resolve_global(m, ann.id)
            if g is not None:
                return self.nullable(g[0], g[1], depth + 1)
            return ann.id not in ('str', 'int', 'bool', 'float', 'tuple', 'list', 'dict', 'set')
        return True

    def declared_length(self, g: Func) -> Optional[int]:
        lits = {len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts)
                else 0 for n in walk_scope(g.node) if isinstance(n, ast.Return) and n.value is not None}
        k = self.annotated(g)
        if k is not None and len(lits) == 1 and not lits & {0, k}:
            return min(lits)        # all return-statements agree with each other, but not with the annotation
        return k

    def annotated(self, g: Func) -> Optional[int]:
        k = annotated_length(g.node.returns)
        if k is None and g.node.returns is not None and not is_gen(g):
            ts = self.w.annotation(g.module, g.node.returns)
            es = [x for j, x in ts or () if j == 'E']
            if ts and len(es) == 1 and len(ts) == 2 and isinstance(es[0][2], tuple) and es[0][2][:1] != ('kv',) and ('B', tuple) in ts:
                k = len(es[0][2])
        return k

    def unpack_items(self, f: Func, t, it, env):
        if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
            return
        k = self.fixed_length(elements(self.w.value(f.module, f, it, env), 0))
        if k is not None:
            self.rep.count('tuples unpacked')
            if k != len(t.elts):
                self.rep.violation('unpack', f'{f.module.name}.{f.qual}:for {unparse(t)}', f'{f.module.rel}:{t.lineno} {f.qual}',
                                   f'the items of {unparse(it)} are {k} values, {len(t.elts)} are expected')
            else:
                self.rep.ok()

    def unpack(self, f: Func, n: ast.Assign, env):
        for t in n.targets:
            if not isinstance(t, (ast.Tuple, ast.List)):
                continue
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            L = None
            label = 'the value'
            if isinstance(n.value, ast.Call):
                ts = self.w.value(f.module, f, n.value.func, env)
                ts = ts and [t for t in ts if t[0] != 'E']
                if ts and len(ts) == 1:
                    k, x = ts[0]
                    g = x if k == 'F' else self.ix.lookup(*x) if k in ('BM', 'SM') else None
                    if g is not None:
                        L = self.tuple_lengths(g)
                        label = g.qual
            if L is None:
                k = self.fixed_length(self.w.value(f.module, f, n.value, env))
                L = {k} if k is not None else None
            if L is None:
                continue
            self.rep.count('tuples unpacked')
            want = len(t.elts)
            if (not star and want not in L) or (star and all(x < want - 1 for x in L)) or (not star and len(L) > 1):
                self.rep.violation('unpack', f'{f.module.name}.{f.qual}:{unparse(t)}={label}', f'{f.module.rel}:{n.lineno} {f.qual}',
                                   f'{label} yields {sorted(L)} values, {want} are expected')
            else:
                self.rep.ok()

    def returns(self, f: Func, n: ast.Return, env):
        if is_gen(f) or f.node.returns is None:
            return
        k = self.declared_length(f)
        where = f'{f.module.rel}:{n.lineno} {f.qual}'
        if not isinstance(f.node, ast.AsyncFunctionDef):
            d = self.w.annotation(f.module, f.node.returns)
            a = self.w.value(f.module, f, n.value, env)
            if d and a:
                self.rep.count('returned values of known type')
                if not self.compatible(a, d) and k == self.annotated(f):
                    self.rep.violation('type', f'{f.module.name}.{f.qual}:return {unparse(n.value)[:60]}', where,
                                       f'returns {describe(a)}, {unparse(f.node.returns)} is declared')
                else:
                    self.rep.ok()
        if k is None:
            return
        if isinstance(n.value, ast.Constant) and n.value.value is None and not self.nullable(f.module, f.node.returns):
            self.rep.violation('unpack', f'{f.module.name}.{f.qual}:return None', where,
                               f'returns None, {unparse(f.node.returns)} is declared')
            return
        if isinstance(n.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
            self.rep.count('tuples returned')
            if len(n.value.elts) != k:
                self.rep.violation('unpack', f'{f.module.name}.{f.qual}:return', f'{f.module.rel}:{n.lineno} {f.qual}',
                                   f'returns {len(n.value.elts)} values, {k} are declared')
            else:
                self.rep.ok()


def describe(ts) -> str:
    return ' or '.join(sorted(getattr(x, 'name', None) or getattr(x, '__name__', None) or {'L': 'a function'}.get(k, k)
                              for k, x in ts if k != 'E'))


def annotated_length(ann) -> Optional[int]:
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode='eval').body
        except SyntaxError:
            return None
    if isinstance(ann, ast.Subscript) and (dotted(ann.value) or '').split('.')[-1] in ('Tuple', 'tuple') \
            and isinstance(ann.slice, ast.Tuple) \
            and not any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in ann.slice.elts):
        return len(ann.slice.elts)
    return None


def factory(f: Func) -> bool:
    return any('transformation_factory' in unparse(d) for d in f.node.decorator_list)


_mn: Dict[int, Set[str]] = {}


def mod_names(ix, m: Module) -> Set[str]:
    if id(m) not in _mn:
        s = set(m.functions) | set(m.classes) | set(m.globals) | set(m.imports)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                s |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
        _mn[id(m)] = s
    return _mn[id(m)]


def callable_type(t: type) -> bool:
    return '__call__' in dir(t)


def version_guard(f: Func, n) -> bool:
    for x in ast.walk(f.node):
        if isinstance(x, ast.If) and 'version' in unparse(x.test):
            for b in x.body + x.orelse:
                if any(y is n for y in ast.walk(b)):
                    return True
    return False


def check(ix, rep, tier):
    c = Checker(ix, rep)
    c.run()
    for f in c.w.funcs:
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
                c.format_call(f, n)
    rep.floor('calls', 6500)
    rep.floor('attribute accesses', 6500)
    rep.floor('arguments of known type', 1100)
    rep.floor('returned values of known type', 650)
    rep.floor('format strings', 180)
    rep.floor('tuples unpacked', 150)
    rep.floor('classes with a constructor analysed', 100)
