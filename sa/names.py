"""Binding analysis: which names are bound where, and is every local variable assigned on every
path that reads it?  (Path-sensitive definite assignment: per variable, the states in which the
variable is still unbound carry the truth values of the conditions that led there.)"""
from __future__ import annotations
import ast
import builtins
from typing import Dict, FrozenSet, Iterable, Iterator, List, Optional, Set, Tuple

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__',
                                 '__builtins__', '__loader__', '__class__', '__annotations__', '__debug__'}
B = 'bound'
CAP = 300
PURE = {'isinstance', 'len', 'hasattr', 'callable', 'issubclass', 'bool', 'startswith', 'endswith', 'is_anonymous',
        'has_errors', 'get', 'lower', 'upper', 'strip', 'isfile', 'isdir', 'exists', 'all', 'any', 'min', 'max'}
SHRINK = {'pop', 'clear', 'remove', 'popleft', 'discard', 'popitem', 'difference_update', 'intersection_update'}
GROW = {'append', 'add', 'insert', 'appendleft', 'setdefault'}
NORETURN = {'sys.exit', 'exit', 'quit', 'os._exit', 'os.abort'}


def bound_by(target: ast.AST) -> Iterator[str]:
    for n in ast.walk(target):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def params_of(node) -> List[str]:
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] \
        + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def scope_nodes(node, decorators=False) -> Iterator[ast.AST]:
    """the nodes evaluated in the scope of a function, class or module body (not in those of functions,
    classes and lambdas inside, but their decorators, defaults, bases); comprehensions are included"""
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    else:
        stack = list(reversed(node.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
        elif isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
        elif isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
            stack.extend(k.value for k in n.keywords)
        else:
            stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Scope:
    def __init__(self, node, parent: Optional['Scope'], kind: str, name: str):
        self.node, self.parent, self.kind, self.name = node, parent, kind, name
        self.bound: Set[str] = set()
        self.globals: Set[str] = set()
        self.nonlocals: Set[str] = set()
        self.children: List['Scope'] = []
        self.loads: List[ast.Name] = []          # loads in this very scope
        self.annots: List[ast.Name] = []         # loads within annotations
        if parent is not None:
            parent.children.append(self)

    @property
    def qual(self) -> str:
        if self.parent is None or self.parent.kind == 'module':
            return self.name
        return self.parent.qual + '.' + self.name

    def walk(self) -> Iterator['Scope']:
        yield self
        for c in self.children:
            yield from c.walk()

    def resolves(self, name: str) -> Optional['Scope']:
        """the scope in which a name read here is looked up (None: nowhere but builtins)"""
        s: Optional[Scope] = self
        first = True
        while s is not None:
            if s.kind == 'module':
                return s if name in s.bound else None
            if name in s.globals:
                while s.parent is not None:
                    s = s.parent
                return s if name in s.bound else None
            if name in s.bound and name not in s.nonlocals and (first or s.kind != 'class'):
                return s
            first = False
            s = s.parent
        return None


class Scopes:
    """scope tree of a module"""

    def __init__(self, tree: ast.Module):
        self.module = Scope(tree, None, 'module', '<module>')
        self.by_node: Dict[int, Scope] = {id(tree): self.module}
        for st in tree.body:
            self.visit(st, self.module)
        for s in self.module.walk():
            for g in s.globals:
                if g in s.bound:
                    self.module.bound.add(g)
            s.bound -= s.globals

    def sub(self, node, parent, kind, name):
        s = Scope(node, parent, kind, name)
        self.by_node[id(node)] = s
        return s

    def annot(self, e, scope):
        if e is None:
            return
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Name):
                scope.annots.append(n)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                try:
                    x = ast.parse(n.value, mode='eval').body
                except SyntaxError:
                    continue
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        y.lineno = n.lineno
                        scope.annots.append(y)
            elif isinstance(n, ast.Subscript) and ast.unparse(n.value).split('.')[-1] in ('Literal', 'Annotated'):
                stack.append(n.value)
            else:
                stack.extend(ast.iter_child_nodes(n))

    def args(self, a: ast.arguments, scope, inner):
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]:
            self.visit(d, scope)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            inner.bound.add(x.arg)
            self.annot(x.annotation, scope)

    def visit(self, n, scope: Scope):
        if n is None:
            return
        if isinstance(n, FUNC):
            scope.bound.add(n.name)
            for d in n.decorator_list:
                self.visit(d, scope)
            inner = self.sub(n, scope, 'func', n.name)
            self.args(n.args, scope, inner)
            self.annot(n.returns, scope)
            for st in n.body:
                self.visit(st, inner)
        elif isinstance(n, ast.Lambda):
            inner = self.sub(n, scope, 'func', '<lambda>')
            self.args(n.args, scope, inner)
            self.visit(n.body, inner)
        elif isinstance(n, ast.ClassDef):
            scope.bound.add(n.name)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scope)
            inner = self.sub(n, scope, 'class', n.name)
            inner.bound |= {'__qualname__', '__module__'}
            for st in n.body:
                self.visit(st, inner)
        elif isinstance(n, COMPS):
            self.visit(n.generators[0].iter, scope)
            inner = self.sub(n, scope, 'comp', '<comp>')
            for k, g in enumerate(n.generators):
                self.visit(g.target, inner)
                if k:
                    self.visit(g.iter, inner)
                for c in g.ifs:
                    self.visit(c, inner)
            if isinstance(n, ast.DictComp):
                self.visit(n.key, inner)
                self.visit(n.value, inner)
            else:
                self.visit(n.elt, inner)
        elif isinstance(n, ast.NamedExpr):
            self.visit(n.value, scope)
            s = scope
            while s.kind == 'comp':
                s = s.parent
            s.bound.add(n.target.id)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                scope.loads.append(n)
            else:
                scope.bound.add(n.id)
        elif isinstance(n, ast.AnnAssign):
            self.annot(n.annotation, scope)
            self.visit(n.value, scope)
            self.visit(n.target, scope)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    scope.bound.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.Global):
            scope.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            scope.nonlocals.update(n.names)
        elif isinstance(n, ast.ExceptHandler):
            self.visit(n.type, scope)
            if n.name:
                scope.bound.add(n.name)
            for st in n.body:
                self.visit(st, scope)
        else:
            name = getattr(n, 'name', None)
            if isinstance(n, (getattr(ast, 'MatchAs', ()), getattr(ast, 'MatchStar', ()))) and name:
                scope.bound.add(name)
            if isinstance(n, getattr(ast, 'MatchMapping', ())) and n.rest:
                scope.bound.add(n.rest)
            for c in ast.iter_child_nodes(n):
                self.visit(c, scope)


# ---------------------------------------------------------------------------------------------
#  conditions
# ---------------------------------------------------------------------------------------------

def roots(e: ast.AST) -> Set[str]:
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def pure(e: ast.AST) -> bool:
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm not in PURE:
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda) + COMPS):
            return False
    return True


FLIP = {ast.IsNot: (ast.Is, False), ast.NotEq: (ast.Eq, False), ast.NotIn: (ast.In, False),
        ast.GtE: (ast.Lt, False), ast.Gt: (ast.LtE, False)}
OPS = {ast.Is: 'is', ast.Eq: '==', ast.In: 'in', ast.Lt: '<', ast.LtE: '<='}


def unlen(e) -> Optional[ast.expr]:
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
        return e.args[0]
    return None


def atom(e: ast.expr) -> Tuple[str, bool]:
    """(text, polarity) of an atomic condition"""
    pol = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pol = e.operand, not pol
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
        t, p = atom(e.args[0])
        return t, p == pol
    x = unlen(e)
    if x is not None:
        return ast.unparse(x), pol
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, a, b = type(e.ops[0]), e.left, e.comparators[0]
        x = unlen(a)
        if x is not None and isinstance(b, ast.Constant) and isinstance(b.value, int):
            n = b.value
            if (op is ast.Gt and n == 0) or (op is ast.GtE and n == 1) or (op is ast.NotEq and n == 0):
                return ast.unparse(x), pol
            if (op is ast.Eq and n == 0) or (op is ast.Lt and n == 1) or (op is ast.LtE and n == 0):
                return ast.unparse(x), not pol
        if op in FLIP:
            op, p = FLIP[op]
            pol = pol == p
        if op in OPS:
            return f'{ast.unparse(a)} {OPS[op]} {ast.unparse(b)}', pol
    return ast.unparse(e), pol


def atoms_of(e: ast.expr) -> Iterator[ast.expr]:
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from atoms_of(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from atoms_of(e.operand)
    elif isinstance(e, ast.NamedExpr):
        yield e.target
    else:
        yield e


MISSING = object()


class DefiniteAssignment:
    """reads of local variables that some path reaches without an assignment"""

    def __init__(self, fnode, scopes: Scopes, variables: Optional[Iterable[str]] = None,
                 noreturn=NORETURN):
        self.fnode, self.scopes, self.noreturn = fnode, scopes, noreturn
        self.scope = scopes.by_node[id(fnode)]
        params = set(params_of(fnode)) if not isinstance(fnode, (ast.Module, ast.ClassDef)) else set()
        local = {n for n in self.scope.bound if n not in params and n not in self.scope.nonlocals
                 and n not in self.scope.globals and n not in ('__qualname__', '__module__')}
        self.vars = sorted(local if variables is None else local & set(variables))
        self.reads: Dict[str, List[ast.Name]] = {}
        self.found: List[Tuple[str, ast.AST]] = []
        self.checked = 0
        self.paths = 0
        self._prepare()

    def _prepare(self):
        # names read in this scope (comprehensions included), functions defined here and what they read
        def collect(s: Scope, shadow: Set[str]):
            for n in s.loads:
                if n.id not in shadow:
                    self.reads.setdefault(n.id, []).append(n)
            for c in s.children:
                if c.kind == 'comp':
                    collect(c, shadow | c.bound)
                elif c.kind == 'class':
                    collect(c, shadow | c.bound)
        collect(self.scope, set())
        self.free: Dict[str, Set[str]] = {}      # nested function -> free names it reads (of this scope)
        self.sets: Dict[str, Set[str]] = {}
        for c in self.scope.children:
            if c.kind == 'func' and isinstance(c.node, FUNC):
                r, w = set(), set()
                for s in c.walk():
                    if s.kind == 'func' and s is not c:
                        continue
                    if any(p.kind == 'func' for p in self._between(s, c)):
                        continue
                    for n in s.loads:
                        if s.resolves(n.id) is self.scope:
                            r.add(n.id)
                    w |= s.nonlocals
                self.free.setdefault(c.name, set()).update(r)
                self.sets.setdefault(c.name, set()).update(w)
        for _ in range(4):
            for f, r in self.free.items():
                for g in list(r):
                    if g in self.free:
                        r |= self.free[g]
                        self.sets[f] |= self.sets[g]
        tests: Dict[str, int] = {}
        assigned: Set[str] = set()
        for n in scope_nodes(self.fnode):
            t = getattr(n, 'test', None)
            if isinstance(n, ast.BoolOp):
                t = n
            if t is not None and isinstance(t, ast.expr):
                for a in atoms_of(t):
                    k = atom(a)[0]
                    tests[k] = tests.get(k, 0) + 1
            if isinstance(n, (ast.For, ast.AsyncFor)):
                k = self.base_text(n.iter)
                if k:
                    tests[k] = tests.get(k, 0) + 1
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
        self.every = {k for k, c in tests.items() if c >= 2 or k in assigned or ' is None' in k
                            or any(k.startswith(a + ' ') for a in assigned)}
        self.interesting: Set[str] = set()
        self.condnames: Set[str] = set()
        self.keyroots: Dict[str, Set[str]] = {}

    def _between(self, s: Scope, top: Scope):
        p = s.parent
        while p is not None and p is not top:
            yield p
            p = p.parent

    @staticmethod
    def base_text(it: ast.expr) -> Optional[str]:
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) \
                and it.func.id in ('enumerate', 'reversed', 'sorted', 'list', 'tuple', 'iter', 'set') and it.args:
            it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            y = unlen(it.args[0]) if len(it.args) == 1 else None
            if len(it.args) == 3 and isinstance(it.args[0], ast.BinOp) and isinstance(it.args[0].op, ast.Sub) \
                    and [ast.unparse(a) for a in (it.args[0].right, it.args[1], it.args[2])] == ['1', '-1', '-1']:
                y = unlen(it.args[0].left)
            if y is None:
                return None
            it = y
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr in ('items', 'keys', 'values', 'copy') and not it.args:
            it = it.func.value
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and it.slice.lower is None \
                and it.slice.upper is None:
            it = it.value
        if pure(it) and not isinstance(it, ast.Constant):
            return ast.unparse(it)
        return None

    # -- driver ---------------------------------------------------------------------

    def run(self) -> List[Tuple[str, ast.AST]]:
        for v in self.vars:
            used = v in self.reads or any(v in r for r in self.free.values())
            if not used:
                continue
            self.checked += 1
            self.v = v
            for keys in (set(), self.relevant(v), self.every):
                self.interesting = keys
                self.condnames = set()
                for k in keys:
                    self.condnames |= self.key_roots(k)
                self.start()
                self.block(self.fnode.body, {frozenset()})
                if self.hit is None:
                    break
            if self.hit is not None:
                self.found.append((v, self.hit))
        return self.found

    def start(self):
        self.exc: List[Set] = []
        self.brk: List[Set] = [set()]
        self.cont: List[Set] = [set()]
        self.ret: Set = set()
        self.hit: Optional[ast.AST] = None

    def relevant(self, v: str) -> Set[str]:
        """the conditions of the statements around the places that bind or read the variable, those of guards
        on the same level, and the conditions the names in them have been assigned from"""
        keys: Set[str] = set()
        calls = {f for f, r in self.free.items() if v in r}

        def touches(n) -> bool:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and (x.id == v or x.id in calls):
                    return True
                if isinstance(x, (ast.Import, ast.ImportFrom, ast.ExceptHandler) + FUNC + (ast.ClassDef,)):
                    nm = [a.asname or a.name for a in x.names] if isinstance(x, (ast.Import, ast.ImportFrom)) \
                        else [x.name]
                    if v in nm:
                        return True
            return False

        def jump(body) -> bool:
            return any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                       for b in body for x in ast.walk(b))

        for n in scope_nodes(self.fnode):
            t = getattr(n, 'test', None)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and touches(n):
                keys |= {atom(a)[0] for a in atoms_of(t)}
            elif isinstance(n, (ast.For, ast.AsyncFor)) and touches(n):
                k = self.base_text(n.iter)
                if k:
                    keys.add(k)
            elif isinstance(n, ast.BoolOp) and touches(n):
                keys |= {atom(a)[0] for a in atoms_of(n)}
            elif isinstance(n, ast.If) and len(n.body) <= 3 and (jump(n.body) or jump(n.orelse)):
                keys |= {atom(a)[0] for a in atoms_of(t)} & self.every
        names = {k for k in keys if k.isidentifier()}
        for n in scope_nodes(self.fnode):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and n.targets[0].id in names and not isinstance(n.value, ast.Constant):
                keys |= {atom(a)[0] for a in atoms_of(n.value) if pure(a) and not isinstance(a, ast.Constant)}
        return keys

    def unbound_at_end(self) -> List[str]:
        """(for module bodies) names that some way through the body leaves unbound"""
        res = []
        for v in self.vars:
            self.v = v
            self.interesting = self.every | self.relevant(v)
            self.condnames = set()
            for k in self.interesting:
                self.condnames |= self.key_roots(k)
            self.start()
            end = self.block(self.fnode.body, {frozenset()})
            if any(s != B for s in end):
                res.append(v)
        return res

    # -- facts ----------------------------------------------------------------------

    def key_roots(self, k: str) -> Set[str]:
        r = self.keyroots.get(k)
        if r is None:
            try:
                r = roots(ast.parse(k, mode='eval'))
            except SyntaxError:
                r = set()
            self.keyroots[k] = r
        return r

    def forget(self, S: Set, name: str, sizes_only=False) -> Set:
        if name not in self.condnames:
            return S
        res = set()
        for s in S:
            if s != B:
                s = frozenset(f for f in s if name not in self.key_roots(f[0] if f[0] != '=' else f[1])
                              or (sizes_only and (f[0] == '=' and f[2] is None or ' is ' in f[0]
                                                  or 'isinstance' in f[0])))
            res.add(s)
        return res

    def forget_attr(self, S: Set, attr: str) -> Set:
        res = set()
        for s in S:
            if s != B:
                s = frozenset(f for f in s if ('.' + attr) not in f[0])
            res.add(s)
        return res

    @staticmethod
    def const(s, name):
        for f in s:
            if f[0] == '=' and f[1] == name:
                return f[2]
        return MISSING

    def decide(self, e: ast.expr, s) -> Optional[bool]:
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if not any(isinstance(x, ast.Starred) for x in e.elts):
                return bool(e.elts)
            return None
        if isinstance(e, ast.Dict):
            return bool(e.keys) if None not in e.keys else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.decide(e.operand, s)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [self.decide(x, s) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(e, ast.NamedExpr):
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('split', 'rsplit') and e.args:
            return True
        if isinstance(e, ast.Name):
            c = self.const(s, e.id)
            if c is not MISSING:
                return bool(c)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name):
            c = self.const(s, e.left.id)
            op, rhs = e.ops[0], e.comparators[0]
            if c is not MISSING:
                if isinstance(rhs, ast.Constant):
                    d = rhs.value
                    try:
                        if isinstance(op, (ast.Is, ast.Eq)):
                            if d is None or c is None:
                                return c is d
                            return c == d
                        if isinstance(op, (ast.IsNot, ast.NotEq)):
                            if d is None or c is None:
                                return c is not d
                            return c != d
                        if isinstance(op, ast.Lt):
                            return c < d
                        if isinstance(op, ast.LtE):
                            return c <= d
                        if isinstance(op, ast.Gt):
                            return c > d
                        if isinstance(op, ast.GtE):
                            return c >= d
                    except TypeError:
                        return None
                if isinstance(rhs, (ast.Tuple, ast.List, ast.Set)) and isinstance(op, (ast.In, ast.NotIn)) \
                        and all(isinstance(x, ast.Constant) for x in rhs.elts):
                    r = any(x.value == c for x in rhs.elts)
                    return r if isinstance(op, ast.In) else not r
            if isinstance(rhs, ast.Constant) and rhs.value is None and isinstance(op, (ast.Is, ast.IsNot)):
                if (e.left.id, True) in s:
                    return isinstance(op, ast.IsNot)
        k, pol = atom(e)
        for f in s:
            if f[0] == k:
                return f[1] == pol
        return None

    def learn(self, e: ast.expr, truth: bool, s):
        """s with the fact that atomic e has this truth value"""
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, truth = e.operand, not truth
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') \
                and truth == (e.func.id == 'any') and len(e.args) == 1 and isinstance(e.args[0], COMPS):
            return self.nonempty_fact(e.args[0].generators[0].iter, s)
        if not pure(e):
            return s
        k, pol = atom(e)
        if truth == pol and k in self.interesting:
            s = self.nonempty_fact(e, s)
        if k not in self.interesting:
            return s
        s = s | {(k, truth == pol)}
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) \
                and isinstance(e.comparators[0], ast.Constant) \
                and (isinstance(e.ops[0], (ast.Eq, ast.Is)) and truth
                     or isinstance(e.ops[0], (ast.NotEq, ast.IsNot)) and not truth) \
                and self.const(s, e.left.id) is MISSING:
            s = s | {('=', e.left.id, e.comparators[0].value)}
        return s

    def nonempty_fact(self, it: ast.expr, s):
        while True:
            k = self.base_text(it)
            if k is not None and k in self.interesting:
                s = s | {(k, True)}
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
                it = it.value
            else:
                return s

    def cap(self, S: Set) -> Set:
        if len(S) > CAP:
            r: Set = {frozenset()}
            if B in S:
                r.add(B)
            return r
        return S

    # -- expressions ----------------------------------------------------------------

    def raises(self, S: Set):
        if self.exc:
            self.exc[-1] |= S

    def bind(self, names: Iterable[str], S: Set) -> Set:
        for n in names:
            if n == self.v:
                S = {B} if S else S
            else:
                S = self.forget(S, n)
        return S

    def unbind(self, S: Set) -> Set:
        return {frozenset() if s == B else s for s in S}

    def read(self, n: ast.AST, S: Set) -> Set:
        if any(s != B for s in S):
            if self.hit is None:
                self.hit = n
            return {B}
        return S

    def ev(self, e: Optional[ast.AST], S: Set) -> Set:
        if e is None or not S:
            return S
        if isinstance(e, ast.Constant):
            return S
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id == self.v:
                return self.read(e, S)
            return S
        if isinstance(e, ast.BoolOp):
            t = self.assume(e, True, S)
            f = self.assume(e, False, S)
            return self.cap(t | f)
        if isinstance(e, ast.IfExp):
            t = self.ev(e.body, self.assume(e.test, True, S))
            f = self.ev(e.orelse, self.assume(e.test, False, S))
            return self.cap(t | f)
        if isinstance(e, ast.NamedExpr):
            S = self.ev(e.value, S)
            return self.bind([e.target.id], S)
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [d for d in e.args.kw_defaults if d is not None]:
                S = self.ev(d, S)
            return S
        if isinstance(e, COMPS):
            S = self.ev(e.generators[0].iter, S)
            self.raises(S)
            shadow: Set[str] = set()
            inner = S
            for k, g in enumerate(e.generators):
                if k and self.v not in shadow:
                    inner = self.ev(g.iter, inner)
                shadow |= set(bound_by(g.target))
                for c in g.ifs:
                    if self.v not in shadow:
                        inner = self.assume(c, True, inner)
            if self.v not in shadow:
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    inner = self.ev(x, inner)
            if self.hit is not None:
                return {B} if S else S
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr):
                    if n.target.id == self.v and B in inner:
                        return S | {B}
            return S
        if isinstance(e, ast.Call):
            S = self.ev(e.func, S)
            for a in e.args:
                S = self.ev(a, S)
            for k in e.keywords:
                S = self.ev(k.value, S)
            self.raises(S)
            if isinstance(e.func, ast.Name) and e.func.id in self.free:
                if self.v in self.sets[e.func.id]:
                    return {B} if S else S
                if self.v in self.free[e.func.id] and self.v != e.func.id:
                    S = self.read(e, S)
                for w in self.sets[e.func.id]:
                    S = self.forget(S, w)
            elif any(isinstance(a, ast.Name) and a.id in self.free for a in e.args):
                for a in e.args:
                    if isinstance(a, ast.Name) and a.id in self.free:
                        if self.v in self.sets[a.id]:
                            return {B} if S else S
                        for w in self.sets[a.id]:
                            S = self.forget(S, w)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                x = e.func.value.id
                if e.func.attr in SHRINK or e.func.attr == 'extend':
                    S = self.forget(S, x, sizes_only=True)
                elif e.func.attr in GROW and x in self.condnames:
                    S = self.forget(S, x, sizes_only=True)
                    if x in self.interesting:
                        S = {s if s == B else s | {(x, True)} for s in S}
            return S
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Await,
                          ast.Yield, ast.YieldFrom, ast.FormattedValue, ast.Starred, ast.JoinedStr)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    S = self.ev(c, S)
            self.raises(S)
            return S
        for c in ast.iter_child_nodes(e):
            S = self.ev(c, S)
        return S

    def assume(self, e: ast.expr, truth: bool, S: Set) -> Set:
        if not S:
            return S
        if isinstance(e, ast.Constant):
            return S if bool(e.value) == truth else set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not truth, S)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            if conj == truth:
                for x in e.values:
                    S = self.assume(x, truth, S)
                return S
            res: Set = set()
            for x in e.values:
                res |= self.assume(x, truth, S)
                S = self.assume(x, not truth, S)
            return self.cap(res)
        if isinstance(e, ast.NamedExpr):
            S = self.ev(e, S)
            return self.filter(e.target, truth, S) if e.target.id != self.v else S
        if isinstance(e, ast.IfExp):
            return self.cap(self.assume(e.body, truth, self.assume(e.test, True, S))
                            | self.assume(e.orelse, truth, self.assume(e.test, False, S)))
        S = self.ev(e, S)
        return self.filter(e, truth, S)

    def filter(self, e, truth, S):
        res = set()
        for s in S:
            if s == B:
                res.add(s)
                continue
            d = self.decide(e, s)
            if d is None:
                res.add(self.learn(e, truth, s))
            elif d == truth:
                res.add(s)
        return res

    # -- statements -----------------------------------------------------------------

    def block(self, stmts, S: Set) -> Set:
        for st in stmts:
            if not S:
                break
            S = self.cap(self.stmt(st, S))
        return S

    def store(self, t: ast.AST, S: Set) -> Set:
        if isinstance(t, ast.Name):
            return self.bind([t.id], S)
        if isinstance(t, (ast.Tuple, ast.List)):
            self.raises(S)
            for x in t.elts:
                S = self.store(x, S)
            return S
        if isinstance(t, ast.Starred):
            return self.store(t.value, S)
        if isinstance(t, ast.Attribute):
            S = self.ev(t.value, S)
            self.raises(S)
            return self.forget_attr(S, t.attr)
        if isinstance(t, ast.Subscript):
            S = self.ev(t.value, S)
            S = self.ev(t.slice, S)
            self.raises(S)
            if isinstance(t.value, ast.Name):
                x = t.value.id
                if isinstance(t.ctx, ast.Store) and not isinstance(t.slice, ast.Slice):
                    keep = {f for s in S if s != B for f in s if f == (x, True) or f[1] is True and f[0].endswith(' in ' + x)}
                    S = {s if s == B else next(iter(self.forget({s}, x, sizes_only=True))) | (s & keep) for s in S}
                else:
                    S = self.forget(S, x, sizes_only=True)
            return S
        return S

    def assigned(self, name: str, value: ast.expr, before: Set, S: Set) -> Set:
        """S after `name = value` with what is known about the value (before: the states before the store)"""
        if name == self.v or name not in self.condnames:
            return self.store(ast.Name(name, ast.Store()), S)
        res = set()
        for s in S:
            if s == B:
                res.add(s)
                continue
            new = None
            extra: Set = set()
            if isinstance(value, ast.Constant):
                extra = {('=', name, value.value)}
            else:
                if isinstance(value, ast.Name):
                    c = self.const(s, value.id)
                    if c is not MISSING:
                        extra.add(('=', name, c))
                if not extra:
                    d = self.decide(value, s) if not isinstance(value, ast.NamedExpr) else None
                    if d is not None and not (isinstance(value, ast.BoolOp)):
                        extra.add((name, d))
                    elif d is not None and d is False and isinstance(value, ast.BoolOp):
                        extra.add((name, d))
                    elif d:
                        extra.add((name, d))
            one = self.forget({s}, name)
            s2 = next(iter(one))
            res.add(s2 | extra)
        return res

    def jumps(self):
        return self.brk[-1], self.cont[-1], self.ret

    def stmt(self, st: ast.stmt, S: Set) -> Set:
        self.paths += len(S)
        if isinstance(st, ast.Expr):
            S = self.ev(st.value, S)
            if isinstance(st.value, ast.Call):
                f = st.value.func
                d = ast.unparse(f)
                if d in self.noreturn:
                    return set()
            return S
        if isinstance(st, ast.Assign):
            S = self.ev(st.value, S)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    S = self.assigned(t.id, st.value, S, S)
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts) \
                        and all(isinstance(x, ast.Name) for x in t.elts):
                    for x, y in zip(t.elts, st.value.elts):
                        S = self.assigned(x.id, y, S, S) if isinstance(y, ast.Constant) else self.store(x, S)
                else:
                    S = self.store(t, S)
            return S
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return S
            S = self.ev(st.value, S)
            if isinstance(st.target, ast.Name):
                return self.assigned(st.target.id, st.value, S, S)
            return self.store(st.target, S)
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                if st.target.id == self.v:
                    S = self.read(st.target, S)
                S = self.ev(st.value, S)
                self.raises(S)
                x = st.target.id
                if x != self.v and isinstance(st.value, ast.Constant) and isinstance(st.value.value, int) \
                        and isinstance(st.op, (ast.Add, ast.Sub)):
                    res = set()
                    for s in S:
                        c = MISSING if s == B else self.const(s, x)
                        for s2 in self.bind([x], {s}):
                            if isinstance(c, int) and abs(c) < 40:
                                d = st.value.value
                                s2 = s2 | {('=', x, c + d if isinstance(st.op, ast.Add) else c - d)}
                            res.add(s2)
                    return res
                return self.bind([x], S)
            S = self.ev(st.target.value, S)
            S = self.ev(st.value, S)
            return self.store(st.target, S)
        if isinstance(st, ast.If):
            t = self.block(st.body, self.assume(st.test, True, S))
            f = self.block(st.orelse, self.assume(st.test, False, S))
            return t | f
        if isinstance(st, (ast.For, ast.AsyncFor)):
            return self.for_(st, S)
        if isinstance(st, ast.While):
            self.brk.append(set())
            self.cont.append(set())
            head, done = set(S), set()
            out: Set = set()
            work = set(S)
            n = 0
            while work:
                n += 1
                out |= self.assume(st.test, False, work)
                b = self.block(st.body, self.assume(st.test, True, work)) | self.cont[-1]
                work = b - head
                head |= b
                if n > 60 or len(head) > CAP:
                    head = self.cap(head)
                    work = head - done if n < 70 else set()
                    done |= head
            out = self.block(st.orelse, self.cap(out))
            out |= self.brk.pop()
            self.cont.pop()
            return out
        if isinstance(st, ast.Try) or isinstance(st, getattr(ast, 'TryStar', ())):
            return self.try_(st, S)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            swallow = False
            for i in st.items:
                S = self.ev(i.context_expr, S)
                self.raises(S)
                if i.optional_vars is not None:
                    S = self.store(i.optional_vars, S)
                if isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).endswith('suppress'):
                    swallow = True
            if swallow:
                self.exc.append(set())
                out = self.block(st.body, S)
                x = self.exc.pop()
                self.raises(x)
                return out | x
            return self.block(st.body, S)
        if isinstance(st, ast.Return):
            S = self.ev(st.value, S)
            self.ret |= S
            return set()
        if isinstance(st, ast.Raise):
            S = self.ev(st.exc, S)
            S = self.ev(st.cause, S)
            self.raises(S)
            return set()
        if isinstance(st, ast.Break):
            self.brk[-1] |= S
            return set()
        if isinstance(st, ast.Continue):
            self.cont[-1] |= S
            return set()
        if isinstance(st, ast.Assert):
            t = self.assume(st.test, True, S)
            f = self.assume(st.test, False, S)
            f = self.ev(st.msg, f)
            self.raises(f)
            return t
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if t.id == self.v:
                        S = self.unbind(self.read(t, S))
                else:
                    S = self.store(t, S)
            return S
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.raises(S)
            return self.bind([a.asname or a.name.split('.')[0] for a in st.names], S)
        if isinstance(st, FUNC):
            for d in st.decorator_list + st.args.defaults + [d for d in st.args.kw_defaults if d is not None]:
                S = self.ev(d, S)
            return self.bind([st.name], S)
        if isinstance(st, ast.ClassDef):
            for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
                S = self.ev(d, S)
            inner = self.scopes.by_node[id(st)]
            if self.v not in inner.bound:
                for n in inner.loads:
                    if n.id == self.v:
                        S = self.read(n, S)
            return self.bind([st.name], S)
        if isinstance(st, getattr(ast, 'Match', ())):
            S = self.ev(st.subject, S)
            out = set(S)
            for c in st.cases:
                names = [getattr(n, 'name', None) or getattr(n, 'rest', None) for n in ast.walk(c.pattern)]
                X = self.bind([n for n in names if n], S)
                if c.guard is not None:
                    X = self.assume(c.guard, True, X)
                out |= self.block(c.body, X)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    out -= S - {B}
            return out
        return S

    def nonempty(self, it: ast.expr, s) -> Optional[bool]:
        x = it
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                and x.func.id in ('enumerate', 'reversed', 'sorted', 'list', 'tuple', 'iter', 'set') and x.args:
            x = x.args[0]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'range':
            if len(x.args) == 1 and isinstance(x.args[0], ast.Constant):
                return x.args[0].value > 0
            y = unlen(x.args[0]) if len(x.args) == 1 else None
            if len(x.args) == 3 and isinstance(x.args[0], ast.BinOp) and isinstance(x.args[0].op, ast.Sub) \
                    and [ast.unparse(a) for a in (x.args[0].right, x.args[1], x.args[2])] == ['1', '-1', '-1']:
                y = unlen(x.args[0].left)
            return self.decide(y, s) if y is not None and s != B else None
        if isinstance(x, ast.Call):
            x2 = self.base_text(it)
            if x2 is not None and s != B:
                for f in s:
                    if f[0] == x2 and len(f) == 2:
                        return f[1]
            return None
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return bool(x.value)
        if s == B:
            return None
        return self.decide(x, s)

    def for_(self, st, S: Set) -> Set:
        S = self.ev(st.iter, S)
        self.raises(S)
        self.brk.append(set())
        self.cont.append(set())
        base = self.base_text(st.iter)
        enter, out = set(), set()
        for s in S:
            ne = self.nonempty(st.iter, s)
            keep = s != B and base is not None and base in self.interesting
            if ne is not True:
                out.add(s | {(base, False)} if keep and ne is None else s)
            if ne is not False:
                enter.add(s | {(base, True)} if keep and ne is None else s)
        head, work = set(enter), set(enter)
        n = 0
        while work:
            n += 1
            b = self.store(st.target, work)
            b = self.block(st.body, b) | self.cont[-1]
            out |= b
            work = b - head
            head |= b
            if len(head) > CAP:
                work = self.cap(head) if n < 60 else set()
                head = head | work
        out = self.block(st.orelse, self.cap(out))
        out |= self.brk.pop()
        self.cont.pop()
        return out

    def try_(self, st, S: Set) -> Set:
        fin = bool(st.finalbody)
        if fin:
            saved = self.brk[-1], self.cont[-1], self.ret
            self.brk[-1], self.cont[-1], self.ret = set(), set(), set()
            self.exc.append(set())
        self.exc.append(set())
        N = self.block(st.body, S)
        X = self.cap(self.exc.pop())
        catch_all = False
        H: Set = set()
        for h in st.handlers:
            Y = set(X)
            if h.type is None:
                catch_all = True
            else:
                Y = self.ev(h.type, Y)
                names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in names):
                    catch_all = True
            if h.name:
                Y = self.bind([h.name], Y)
            Y = self.block(h.body, Y)
            if h.name == self.v:
                Y = self.unbind(Y)
            H |= Y
        if not catch_all:
            self.raises(X)
        N = self.block(st.orelse, N)
        out = N | H
        if fin:
            X2 = self.exc.pop()
            b, c, r = self.brk[-1], self.cont[-1], self.ret
            self.brk[-1], self.cont[-1], self.ret = saved
            out = self.block(st.finalbody, self.cap(out))
            x = self.block(st.finalbody, self.cap(X2))
            self.raises(x)
            self.brk[-1] |= self.block(st.finalbody, self.cap(b))
            self.cont[-1] |= self.block(st.finalbody, self.cap(c))
            self.ret |= self.block(st.finalbody, self.cap(r))
        return out
