"""Side-effect and alias summaries: which objects a function may modify, expressed as access paths from
its parameters (or from globals), computed for the whole package by a fixpoint over function summaries.

Values are sets of *origins*.  An origin is
    ('p', i, steps...)      reachable from parameter i (of the function analysed)
    ('g', name, steps...)   reachable from a module- or class-level object
    ('x', tag, steps...)    result of an opaque call a check wants to follow
    ('copy', origin)        a fresh container whose elements are those of origin
    ('box', {origins}, ty)  a fresh object/container holding the origins
Assignments to local names are strong updates, joins are unions, loops run to a fixpoint."""
from __future__ import annotations
import ast
from typing import Dict, FrozenSet, List, Optional, Set, Tuple

from .src import Index, Func, Class, FUNC, dotted, unparse, own_nodes, AnalysisError

K = 3
EMPTY = frozenset()
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update',
            'add', 'discard', 'setdefault', 'appendleft', 'popleft', 'extendleft', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'move_to_end',
            '__setattr__', '__delattr__', '__iadd__', 'write', 'put', 'rotate'}
EXT_MUTATORS = {'shuffle', 'heapify', 'heappush', 'heappop', 'heapreplace', 'insort', 'insort_left', 'insort_right'}
COPIERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'dict', 'iter', 'OrderedDict', 'deque',
           'copy', 'defaultdict', 'islice', 'chain', 'cycle', 'filter', 'uniq'}
GETTERS = {'get', 'pop', 'setdefault', 'popitem', 'popleft', '__getitem__', 'index_of'}
BUILTIN_METHODS = set()
for _t in (str, bytes, list, dict, set, tuple, frozenset, int, float, bytearray):
    BUILTIN_METHODS.update(n for n in dir(_t))
BUILTIN_METHODS -= {'__init__', '__new__', '__call__'}


def step(o, s):
    if o[0] == 'copy':
        return step(o[1], s)
    if o[0] in ('p', 'g', 'x'):
        # a step that already occurs in the path is absorbed (recursive structures), paths are cut at K
        if s in o[2:] or len(o) >= 2 + K:
            return o
        return o + (s,)
    return None


def depth_of(o) -> int:
    if o[0] == 'copy':
        return 1 + depth_of(o[1])
    if o[0] == 'box':
        return 1 + max((depth_of(q) for q in o[1]), default=0)
    return 0


def box(vals, ty=None) -> FrozenSet:
    vals = frozenset(v for v in vals if depth_of(v) < 4)
    if not vals and ty is None:
        return EMPTY
    return frozenset([('box', vals, ty)])


def steps(vals, s) -> FrozenSet:
    res = set()
    for o in vals:
        if o[0] == 'box':
            res |= o[1]
        else:
            q = step(o, s)
            if q is not None:
                res.add(q)
    return frozenset(res)


def copies(vals) -> FrozenSet:
    res = set()
    for o in vals:
        if o[0] in ('p', 'g', 'x'):
            res.add(('copy', o))
        else:
            res.add(o)
    return frozenset(res)


IMMUTABLE = {'str', 'int', 'bool', 'float', 'bytes', 'cint', 'bint', 'StringView'}


def immutable(ann) -> bool:
    """annotated as a value that cannot be modified"""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode='eval').body
        except SyntaxError:
            return False
    if isinstance(ann, (ast.Name, ast.Attribute)):
        return (dotted(ann) or '').split('.')[-1] in IMMUTABLE
    if isinstance(ann, ast.Subscript):
        h = (dotted(ann.value) or '').split('.')[-1]
        if h == 'Optional':
            return immutable(ann.slice)
        if h == 'Union' and isinstance(ann.slice, ast.Tuple):
            return all(immutable(x) for x in ann.slice.elts)
    return False


class Event:
    __slots__ = ('func', 'origin', 'attr', 'node', 'via')

    def __init__(self, func, origin, attr, node, via=()):
        self.func, self.origin, self.attr, self.node, self.via = func, origin, attr, node, via

    @property
    def where(self):
        return f'{self.func.module.rel}:{getattr(self.node, "lineno", 0)} {self.func.qual}'

    def __repr__(self):
        return f'{self.where}: {self.origin} .{self.attr} via {self.via}'


class Summary:
    def __init__(self):
        self.mut: Dict[Tuple, Tuple] = {}       # (origin, attr) -> via chain
        self.ret: FrozenSet = EMPTY
        self.stores: Dict[str, FrozenSet] = {}      # attribute of the first parameter -> what is stored there
        self.pcalls: Dict[Tuple[int, int], FrozenSet] = {}      # (parameter called, argument) -> origins

    def size(self):
        return len(self.mut), len(self.ret), sum(len(v) + 1 for v in self.pcalls.values())


class Effects:
    """attr_types: last step -> class name; opaque: callback(func, call node, base value, name) -> tag or None"""

    def __init__(self, ix: Index, modules=None, attr_types: Dict[str, str] = None, opaque=None,
                 var_types: Dict[str, str] = None, fresh=(), pure=(), escapes=None, pardon=None, values=(), tuple_like=('Node', 'RootNode', 'FrozenNode')):
        self.ix = ix
        self.modules = modules
        self.attr_types = attr_types or {}
        self.var_types = var_types or {}
        self.opaque = opaque
        self.fresh_names = set(fresh)
        self.pure = set(pure)
        self.tuple_like = set(tuple_like)   # constructors keep no reference to a list or dictionary given to them
        self.values = set(values)   # attributes that hold strings or numbers
        self.pardon = pardon        # (walker, origin, attr, node, env) -> True: not a modification
        self.sum: Dict[int, Summary] = {}
        self.funcs: Dict[int, Func] = {}
        self.events: Dict[int, List[Event]] = {}
        self.callers: Dict[int, Set[int]] = {}
        for f in ix.all_functions():
            if modules is None or f.module.name in modules:
                self.funcs[id(f.node)] = f
                self.sum[id(f.node)] = Summary()
        self._subs_cache: Dict[Tuple[str, str], List[Func]] = {}
        self.calls_resolved = 0
        self.run()

    def run(self):
        work = list(self.funcs)
        rounds = 0
        count: Dict[int, int] = {}
        inq = set(work)
        while work:
            k = work.pop(0)
            inq.discard(k)
            rounds += 1
            count[k] = count.get(k, 0) + 1
            if count[k] > 25:
                continue
            s = self.sum[k]
            before = s.size()
            ev = Walker(self, self.funcs[k])
            ev.go()
            self.events[k] = ev.events
            for e in ev.events:
                if e.origin[0] in ('p', 'g', 'x'):
                    s.mut.setdefault((e.origin, e.attr), ((e.where,) + tuple(e.via))[:4])
            s.ret = s.ret | ev.ret
            for kk, vv in ev.stores.items():
                s.stores[kk] = s.stores.get(kk, EMPTY) | vv
            for kk, vv in ev.pcalls.items():
                s.pcalls[kk] = s.pcalls.get(kk, EMPTY) | vv
            if s.size() != before:
                for c in self.callers.get(k, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self.rounds = rounds

    def summary(self, f: Func, caller: Func) -> Optional[Summary]:
        k = id(f.node)
        if k not in self.sum:
            return None
        self.callers.setdefault(k, set()).add(id(caller.node))
        return self.sum[k]

    def virtual(self, cls: Class, name: str) -> List[Func]:
        k = (cls.module.name + '.' + cls.name, name)
        if k not in self._subs_cache:
            res = []
            f = self.ix.lookup(cls, name)
            if f is not None:
                res.append(f)
            for c in self.ix.subclasses(cls, strict=True):
                if name in c.methods and c.methods[name] not in res:
                    res.append(c.methods[name])
            self._subs_cache[k] = res
        return self._subs_cache[k]

    def prop(self, cls: Optional[Class], name: str) -> List[Func]:
        if cls is not None:
            return [f for f in self.virtual(cls, name) if f.is_property]
        return []


class Walker:
    def __init__(self, eff: Effects, func: Func):
        self.eff, self.ix, self.func = eff, eff.ix, func
        self.events: List[Event] = []
        self._ev_seen = set()
        self.ret: FrozenSet = EMPTY
        self.types: Dict[str, Class] = {}
        self.nested: Dict[str, ast.AST] = {}
        self.nested_args: Dict[int, Dict[str, FrozenSet]] = {}
        self.nested_ret: Dict[int, FrozenSet] = {}
        self.analysing: List[int] = []
        self.pcalls: Dict[Tuple[int, int], FrozenSet] = {}
        self.local_fns: Dict[int, ast.AST] = {}
        self.stores: Dict[str, FrozenSet] = {}

    def go(self):
        env = {}
        a = self.func.node.args
        ps = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, p in enumerate(ps):
            env[p.arg] = EMPTY if immutable(p.annotation) else frozenset([('p', i)])
            t = self.ann_class(p.annotation)
            if t is None and p.arg in self.eff.var_types:
                t = self.find(self.eff.var_types[p.arg])
            if t is not None:
                self.types[p.arg] = t
        if self.func.cls is not None and ps and not self.func.is_static and not self.func.is_classmethod:
            self.types[ps[0].arg] = self.func.cls
        n = len(ps)
        if a.vararg:
            env[a.vararg.arg] = frozenset([('box', frozenset([('p', n)]), None)])
        if a.kwarg:
            env[a.kwarg.arg] = frozenset([('box', frozenset([('p', n + 1)]), None)])
        for d in ast.walk(self.func.node):
            if isinstance(d, FUNC) and d is not self.func.node:
                self.nested[d.name] = d
            if isinstance(d, FUNC + (ast.Lambda,)) and d is not self.func.node:
                self.local_fns[id(d)] = d
        for _ in range(4):
            before = (len(self.events), {k: dict(v) for k, v in self.nested_args.items()}, dict(self.nested_ret))
            self.block(self.func.node.body, dict(env))
            if before == (len(self.events), self.nested_args, self.nested_ret):
                break

    def find(self, name: str) -> Optional[Class]:
        c = self.ix.find_class(self.func.module, name)
        if c is None:
            cs = self.ix.classes.get(name)
            c = cs[0] if cs else None
        return c

    def ann_class(self, ann) -> Optional[Class]:
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript) and (dotted(ann.value) or '').split('.')[-1] == 'Optional':
            return self.ann_class(ann.slice)
        if isinstance(ann, (ast.Name, ast.Attribute)):
            n = (dotted(ann) or '').split('.')[-1]
            if n in self.eff.ix.classes:
                return self.find(n)
        return None

    # -- statements ----------------------------------------------------------------

    def block(self, stmts, env) -> Optional[Dict]:
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        res = dict(a)
        for k, v in b.items():
            if '.' in k and k not in a:
                # attribute assigned on one of the joined paths only
                n, _, attr = k.partition('.')
                res[k] = v | steps(a.get(n, EMPTY), attr)
            else:
                res[k] = res.get(k, EMPTY) | v
        for k, v in a.items():
            if '.' in k and k not in b:
                n, _, attr = k.partition('.')
                res[k] = v | steps(b.get(n, EMPTY), attr)
        return res

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, env)
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.ev(e, env)
        return env

    def s_Return(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            if self.analysing:
                k = self.analysing[-1]
                self.nested_ret[k] = self.nested_ret.get(k, EMPTY) | v
            else:
                self.ret = self.ret | v
        return None

    def s_Raise(self, s, env):
        for e in (s.exc, s.cause):
            if e is not None:
                self.ev(e, env)
        return None

    def s_Break(self, s, env):
        if self._loops:
            self._loops[-1].append(dict(env))
        return None

    s_Continue = s_Break
    _loops: List[List] = []

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        t = self.expr_type(s.value, env)
        for tg in s.targets:
            self.assign(tg, v, env, s, t)
        return env

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            t = self.ann_class(s.annotation) or self.expr_type(s.value, env)
            self.assign(s.target, v, env, s, t)
        return env

    def s_AugAssign(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        if isinstance(t, ast.Name):
            old = env.get(t.id, EMPTY)
            if isinstance(s.op, ast.Add) and self.is_listy(s.value):
                for o in old:
                    self.mutate(o, '[]', s)
                env[t.id] = old | copies(v)
            elif isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(s.value, (ast.Set, ast.Dict)):
                for o in old:
                    self.mutate(o, '[]', s)
            else:
                env[t.id] = copies(old | v)
        else:
            self.assign(t, v, env, s, None)
        return env

    def is_listy(self, e):
        return isinstance(e, (ast.List, ast.ListComp)) or \
            isinstance(e, ast.Call) and dotted(e.func) == 'list'

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                for o in self.ev(t.value, env):
                    self.mutate(o, t.attr, s)
            elif isinstance(t, ast.Subscript):
                for o in self.ev(t.value, env):
                    self.mutate(o, '[]', s)
        return env

    def s_If(self, s, env):
        self.ev(s.test, env)
        a = self.block(s.body, dict(env))
        b = self.block(s.orelse, dict(env)) if s.orelse else env
        return self.join(a, b)

    def loop(self, s, env, bind):
        out = dict(env)
        for _ in range(4):
            e = dict(out)
            self._loops = self._loops + [[]]
            bind(e)
            r = self.block(s.body, e)
            exits = self._loops[-1]
            self._loops = self._loops[:-1]
            new = self.join(out, r)
            for x in exits:
                new = self.join(new, x)
            if new == out:
                break
            out = new
        if s.orelse:
            out = self.join(out, self.block(s.orelse, dict(out)))
        return out

    def s_While(self, s, env):
        return self.loop(s, env, lambda e: self.ev(s.test, e))

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        ty = self.elem_type(s.iter, env)
        return self.loop(s, env, lambda e: self.assign(s.target, steps(it, '[]'), e, s, ty))

    s_AsyncFor = s_For

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s, None)
        return self.block(s.body, env)

    s_AsyncWith = s_With

    def s_Try(self, s, env):
        start = dict(env)
        b = self.block(s.body, dict(env))
        mid = self.join(dict(start), b)
        # names assigned in the body may have either value in handlers
        res = b
        if s.orelse and b is not None:
            res = self.block(s.orelse, b)
        for h in s.handlers:
            e = dict(mid)
            if h.name:
                e[h.name] = frozenset([('x', 'exc')])
            res = self.join(res, self.block(h.body, e))
        if s.finalbody:
            f = self.block(s.finalbody, dict(res if res is not None else mid))
            return f if res is not None else None
        return res

    s_TryStar = s_Try

    def s_FunctionDef(self, s, env):
        # analysed in place: with the arguments seen at its call sites (and unknown ones otherwise)
        if id(s) in self.analysing:
            return env
        e = dict(env)
        a = s.args
        given = self.nested_args.get(id(s), {})
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + \
                ([a.kwarg] if a.kwarg else []):
            e[p.arg] = given.get(p.arg, EMPTY)
            t = self.ann_class(p.annotation)
            if t is None and p.arg in self.eff.var_types:
                t = self.find(self.eff.var_types[p.arg])
            if t is not None:
                self.types[p.arg] = t
        self.analysing.append(id(s))
        loops, self._loops = self._loops, []
        r = self.block(s.body, e)
        self._loops = loops
        self.analysing.pop()
        nl = {n for q in own_nodes(s) if isinstance(q, ast.Nonlocal) for n in q.names}
        if nl and r:
            for n in nl:
                if n in r:
                    env[n] = env.get(n, EMPTY) | r[n]
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env):
        return env

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        out = dict(env)
        for c in s.cases:
            e = dict(env)
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    e[n.name] = v | steps(v, '[]')
            out = self.join(out, self.block(c.body, e))
        return out

    # -- assignment -------------------------------------------------------------------

    def assign(self, t, v, env, node, ty=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
            for k in [k for k in env if k.startswith(t.id + '.')]:
                del env[k]
            if ty is not None:
                self.types[t.id] = ty
        elif isinstance(t, (ast.Tuple, ast.List)):
            val = getattr(node, 'value', None)
            if isinstance(node, ast.Assign) and isinstance(val, (ast.Tuple, ast.List)) \
                    and len(val.elts) == len(t.elts) and t in node.targets:
                vals = [self.ev(x, env) for x in val.elts]
                for x, w in zip(t.elts, vals):
                    self.assign(x, w, env, node, None)
                return
            e = steps(v, '[]')
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, copies(v), env, node, None)
                else:
                    self.assign(x, e, env, node, ty)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            cls = self.expr_type(t.value, env)
            setters = []
            if cls is not None:
                f = self.ix.lookup_setter(cls, t.attr)
                if f is not None:
                    setters.append(f)
            for f in setters:
                self.apply(f, node, [base, v], {}, t.attr)
            if isinstance(t.value, ast.Name) and t.value.id in env and not setters and not any(
                    o[0] == 'box' for o in base):
                env[t.value.id + '.' + t.attr] = v
            for o in base:
                self.mutate(o, t.attr, node)
                if o == ('p', 0):
                    self.stores[t.attr] = self.stores.get(t.attr, EMPTY) | v
                if o[0] == 'box':
                    # the fresh object now also holds v
                    self.hold(env, o, v)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            for o in self.ev(t.value, env):
                self.mutate(o, '[]', node)
                if o[0] == 'box':
                    self.hold(env, o, v)
            if isinstance(t.value, ast.Name) and not env.get(t.value.id):
                env[t.value.id] = box(v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node, ty)

    def hold(self, env, o, v):
        nv = frozenset(q for q in v if depth_of(q) < 3)
        if not nv - o[1]:
            return
        new = ('box', o[1] | nv, o[2])
        for k, val in list(env.items()):
            if o in val:
                env[k] = (val - {o}) | {new}

    def mutate(self, o, attr, node, via=(), func=None):
        if o[0] not in ('p', 'g', 'x'):
            return
        k = (o, attr, id(node))
        if k in self._ev_seen:
            return
        self._ev_seen.add(k)
        if not via and self.eff.pardon is not None and self.eff.pardon(self, o, attr, node):
            return
        self.events.append(Event(func or self.func, o, attr, node, via))

    # -- types -------------------------------------------------------------------------

    def expr_type(self, e, env) -> Optional[Class]:
        if isinstance(e, ast.Name):
            return self.types.get(e.id) or (self.find(self.eff.var_types[e.id])
                                            if e.id in self.eff.var_types else None)
        if isinstance(e, ast.Attribute):
            if e.attr in self.eff.attr_types:
                return self.find(self.eff.attr_types[e.attr])
            return None
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            return self.elem_type(e.value, env)
        if isinstance(e, ast.Call):
            d = (dotted(e.func) or '').split('.')[-1]
            if d == 'cast' and e.args:
                return self.ann_class(e.args[0])
            if d in self.ix.classes and d[:1].isupper():
                return self.find(d)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('with_pos', 'with_attr', 'freeze', 'thaw'):
                    return self.expr_type(e.func.value, env)
                t = self.expr_type(e.func.value, env)
                if t is not None:
                    for f in self.eff.virtual(t, e.func.attr):
                        r = self.ann_class(f.node.returns)
                        if r is not None:
                            return r
            elif isinstance(e.func, ast.Name):
                f = self.ix.resolve_func(self.func.module, e.func.id)
                if f is not None:
                    return self.ann_class(f.node.returns)
        if isinstance(e, ast.IfExp):
            return self.expr_type(e.body, env) or self.expr_type(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                t = self.expr_type(x, env)
                if t is not None:
                    return t
        if isinstance(e, ast.NamedExpr):
            return self.expr_type(e.value, env)
        return None

    def elem_type(self, e, env) -> Optional[Class]:
        n = None
        if isinstance(e, ast.Attribute):
            n = e.attr + '[]'
        elif isinstance(e, ast.Name):
            n = e.id + '[]'
        elif isinstance(e, ast.Call):
            d = (dotted(e.func) or '').split('.')[-1]
            if d in COPIERS or d in ('enumerate', 'zip') or d in ('select', 'select_if', 'pick_if'):
                if isinstance(e.func, ast.Name) and e.args:
                    return self.elem_type(e.args[-1], env)
            n = d + '()[]'
        if n and n in self.eff.attr_types:
            return self.find(self.eff.attr_types[n])
        return None

    # -- expressions ----------------------------------------------------------------------

    def ev(self, e, env) -> FrozenSet:
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return EMPTY

    def e_Constant(self, e, env):
        return EMPTY

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.nested:
            return frozenset([('f', id(self.nested[e.id]))])
        fn = self.ix.resolve_func(self.func.module, e.id)
        if fn is not None:
            return frozenset([('F', id(fn.node))])
        c = self.ix.find_class(self.func.module, e.id)
        if c is not None:
            return frozenset([('g', c.name)])
        g = self.ix.resolve_global(self.func.module, e.id)
        if g is not None:
            if isinstance(g[1], ast.Constant):
                return EMPTY
            return frozenset([('g', g[0].name + '.' + e.id)])
        return EMPTY

    def e_Attribute(self, e, env):
        base = self.ev(e.value, env)
        cls = self.expr_type(e.value, env)
        ps = self.eff.prop(cls, e.attr)
        if ps:
            res = EMPTY
            for f in ps:
                r = self.apply(f, e, [base], {}, e.attr)
                res |= r
            return res
        if cls is not None and self.ix.lookup(cls, e.attr) is not None:
            m = self.ix.lookup(cls, e.attr)
            if id(m.node) in self.eff.sum and not m.is_static and all(depth_of(b) == 0 for b in base):
                return frozenset([('B', id(m.node), frozenset(b for b in base if b[0] in ('p', 'g', 'x')))])
            return EMPTY        # bound method
        if e.attr in self.eff.values:
            return EMPTY
        if isinstance(e.value, ast.Name) and e.value.id + '.' + e.attr in env:
            # assigned earlier in this function (what a callee may have done to it since is added)
            v = env[e.value.id + '.' + e.attr]
            return v
        return steps(base, e.attr)

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            return copies(b)
        return steps(b, '[]')

    def e_Slice(self, e, env):
        for c in (e.lower, e.upper, e.step):
            if c is not None:
                self.ev(c, env)
        return EMPTY

    def e_BinOp(self, e, env):
        l, r = self.ev(e.left, env), self.ev(e.right, env)
        return copies(l | r)

    def e_BoolOp(self, e, env):
        res = EMPTY
        for x in e.values:
            res |= self.ev(x, env)
        return res

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_Compare(self, e, env):
        self.ev(e.left, env)
        for c in e.comparators:
            self.ev(c, env)
        return EMPTY

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e, self.expr_type(e.value, env))
        return v

    def e_Starred(self, e, env):
        return steps(self.ev(e.value, env), '[]')

    def e_Tuple(self, e, env):
        res = EMPTY
        for x in e.elts:
            res |= self.ev(x, env)
        return box(res)

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, env):
        res = EMPTY
        for k, v in zip(e.keys, e.values):
            if k is None:
                res |= steps(self.ev(v, env), '[]')
            else:
                res |= self.ev(k, env) | self.ev(v, env)
        return box(res)

    def comp(self, e, env, elts):
        c = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, c)
            self.assign(g.target, steps(it, '[]'), c, g, self.elem_type(g.iter, c))
            for i in g.ifs:
                self.ev(i, c)
        res = EMPTY
        for x in elts:
            res |= self.ev(x, c)
        return box(res)

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        # keys that are passed through from another dictionary are no containers themselves
        if isinstance(e.key, ast.Name):
            for g in e.generators:
                if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) \
                        and g.iter.func.attr == 'items' and isinstance(g.target, ast.Tuple) and g.target.elts \
                        and isinstance(g.target.elts[0], ast.Name) and g.target.elts[0].id == e.key.id:
                    return self.comp(e, env, [e.value])
        return self.comp(e, env, [e.key, e.value])

    def e_Lambda(self, e, env):
        c = dict(env)
        given = self.nested_args.get(id(e), {})
        for p in e.args.args:
            c[p.arg] = given.get(p.arg, EMPTY)
        r = self.ev(e.body, c)
        self.nested_ret[id(e)] = self.nested_ret.get(id(e), EMPTY) | r
        return frozenset([('f', id(e))])

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        if e.value is not None:
            v = box(self.ev(e.value, env))
            if self.analysing:
                k = self.analysing[-1]
                self.nested_ret[k] = self.nested_ret.get(k, EMPTY) | v
            else:
                self.ret = self.ret | v
        return EMPTY

    def e_YieldFrom(self, e, env):
        v = copies(self.ev(e.value, env))
        if self.analysing:
            k = self.analysing[-1]
            self.nested_ret[k] = self.nested_ret.get(k, EMPTY) | v
        else:
            self.ret = self.ret | v
        return EMPTY

    # -- calls ---------------------------------------------------------------------------

    def e_Call(self, e, env):
        f = e.func
        args = []
        star = EMPTY
        for a in e.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star |= v
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg:
                kw[k.arg] = v
            else:
                star |= steps(v, '[]')
        allv = star
        for a in args:
            allv |= a
        for a in kw.values():
            allv |= a
        if isinstance(f, ast.Name):
            return self.call_name(e, f, env, args, kw, star, allv)
        if isinstance(f, ast.Attribute):
            return self.call_attr(e, f, env, args, kw, star, allv)
        self.ev(f, env)
        return EMPTY

    def call_name(self, e, f, env, args, kw, star, allv):
        n = f.id
        if n in self.nested and n not in self.eff.fresh_names:
            return self.call_nested(self.nested[n], e, args, kw)
        if n in env and self.eff.opaque is not None:
            tag = self.eff.opaque(self.func, e, env.get(n, EMPTY), n)
            if tag:
                return frozenset([('x', tag)])
        if n in env and env[n]:
            return self.call_value(env[n], e, args, kw, star)
        if n == 'partial' and args:
            self.call_value(args[0], e, args[1:], kw, star)
            return args[0]
        if n in ('map', 'filter', 'reduce') and len(args) > 1:
            r = self.call_value(args[0], e, [steps(a, '[]') for a in args[1:]], {})
            return box(r) if n == 'map' else r if n == 'reduce' else copies(args[1])
        if n in ('sorted', 'max', 'min') and 'key' in kw and args:
            self.call_value(kw['key'], e, [steps(args[0], '[]')], {})
            allv = allv - kw['key']
        if n in ('setattr', 'delattr') and args:
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
            for o in args[0]:
                self.mutate(o, nm, e)
            return EMPTY
        if n == 'getattr' and args:
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
            return steps(args[0], nm) | (args[2] if len(args) > 2 else EMPTY)
        if n in EXT_MUTATORS and args:
            for o in args[0]:
                self.mutate(o, '[]', e)
            return EMPTY
        if n == 'cast':
            return args[-1] if args else EMPTY
        if n == 'next' and args:
            return steps(args[0], '[]') | (args[1] if len(args) > 1 else EMPTY)
        if n in ('enumerate', 'zip'):
            res = EMPTY
            for a in args:
                res |= steps(a, '[]')
            return box(box(res))
        if n == 'map':
            return EMPTY
        if n in ('max', 'min'):
            return allv | steps(allv, '[]')
        fn = self.ix.resolve_func(self.func.module, n) if n not in env else None
        if fn is not None and n not in self.eff.pure:
            return self.apply(fn, e, args, kw, n, star)
        if n in COPIERS:
            return copies(allv)
        c = self.ix.find_class(self.func.module, n) if n not in env else None
        if c is not None:
            init = self.ix.lookup(c, '__init__')
            if init is not None:
                self.apply(init, e, [EMPTY] + args, kw, n, star)
            if c.name in self.eff.tuple_like:
                return box(copies(allv), c.name)
            return box(allv, c.name)
        return EMPTY

    def call_value(self, fv, node, args, kw, star=EMPTY) -> FrozenSet:
        """calls whatever functions the value may denote"""
        res = EMPTY
        for q in fv:
            if q[0] == 'f' and q[1] in self.local_fns:
                res |= self.call_nested(self.local_fns[q[1]], node, args, kw)
            elif q[0] in ('F', 'B') and q[1] in self.eff.funcs:
                fn = self.eff.funcs[q[1]]
                res |= self.apply(fn, node, ([q[2]] if q[0] == 'B' else []) + args, kw, fn.name, star)
            elif q[0] == 'p' and len(q) == 2:
                for i, v in enumerate(args):
                    k = (q[1], i)
                    self.pcalls[k] = self.pcalls.get(k, EMPTY) | frozenset(
                        o for o in v if depth_of(o) <= 2)
        return res

    def call_nested(self, d, e, args, kw):
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        tgt = self.nested_args.setdefault(id(d), {})
        for n, v in zip(names, args):
            tgt[n] = tgt.get(n, EMPTY) | v
        if a.vararg and len(args) > len(names):
            tgt[a.vararg.arg] = tgt.get(a.vararg.arg, EMPTY) | box(frozenset().union(*args[len(names):]))
        for n, v in kw.items():
            tgt[n] = tgt.get(n, EMPTY) | v
        return self.nested_ret.get(id(d), EMPTY)

    def call_attr(self, e, f, env, args, kw, star, allv):
        n = f.attr
        # super().method()
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            if self.func.cls is not None:
                m = self.ix.lookup_super(self.func.cls, self.func.cls, n)
                if m is not None:
                    selfv = frozenset([('p', 0)])
                    return self.apply(m, e, ([] if m.is_static else [selfv]) + args, kw, n, star)
            return EMPTY
        base = self.ev(f.value, env)
        cls = self.expr_type(f.value, env)
        if self.eff.opaque is not None:
            tag = self.eff.opaque(self.func, e, base, n)
            if tag:
                return frozenset([('x', tag)])
        # module.function / Class.method
        if isinstance(f.value, ast.Name) and f.value.id not in env:
            if f.value.id == 'copy':
                return EMPTY if n == 'deepcopy' else copies(allv)
            k = self.ix.find_class(self.func.module, f.value.id)
            if k is not None:
                m = self.ix.lookup(k, n)
                if m is not None:
                    a2 = args
                    if m.is_classmethod:
                        a2 = [base] + args
                    return self.apply(m, e, a2, kw, n, star)
            imp = self.func.module.imports.get(f.value.id)
            if imp is not None and k is None and imp[1] is None:
                if not imp[0].startswith('DHParser'):
                    if n in EXT_MUTATORS and args:
                        for o in args[0]:
                            self.mutate(o, '[]', e)
                    return copies(allv) if n in COPIERS else EMPTY
        if n in self.eff.pure:
            return EMPTY
        if cls is not None:
            ms = self.eff.virtual(cls, n)
            if ms:
                res = EMPTY
                for m in ms:
                    if m.is_property:
                        continue
                    a2 = args if m.is_static else [base] + args
                    res |= self.apply(m, e, a2, kw, n, star)
                return res
        elif n not in BUILTIN_METHODS and n not in MUTATORS:
            ms = self.ix.methods_named(n)
            res = EMPTY
            hit = False
            if len(ms) > 4:
                ms = []
            for m in ms:
                if id(m.node) in self.eff.sum:
                    hit = True
                    a2 = args if m.is_static else [base] + args
                    res |= self.apply(m, e, a2, kw, n, star)
            if hit:
                return res
        if n == 'sort' and 'key' in kw:
            self.call_value(kw['key'], e, [steps(base, '[]')], {})
        if n in MUTATORS:
            for o in base:
                self.mutate(o, '[]' if not n.startswith('__set') else n, e)
                if o[0] == 'box':
                    self.hold(env, o, steps(allv, '[]') if n in ('extend', 'update', 'extendleft') else allv)
            if isinstance(f.value, ast.Name) and f.value.id in env and not base and allv:
                env[f.value.id] = box(steps(allv, '[]') if n in ('extend', 'update') else allv)
        if n in ('items',):
            return box(box(steps(base, '[]')))
        if n in ('values', 'keys', 'copy', 'union', 'difference', 'intersection', 'elements', 'queue'):
            return copies(base)
        if n in GETTERS:
            return steps(base, '[]') | (args[1] if len(args) > 1 else EMPTY)
        return EMPTY

    def apply(self, fn: Func, node, args, kw, name, star=EMPTY) -> FrozenSet:
        s = self.eff.summary(fn, self.func)
        if s is None:
            return EMPTY
        self.eff.calls_resolved += 1
        if fn.is_classmethod and fn.cls is not None and (not args or fn.name != name or True):
            pass
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        npos = len(a.posonlyargs + a.args)
        vals: Dict[int, FrozenSet] = {}
        for i, v in enumerate(args):
            if i < npos:
                vals[i] = v
            else:
                vals[len(names)] = vals.get(len(names), EMPTY) | v
        for k, v in kw.items():
            if k in names:
                vals[names.index(k)] = v
            else:
                vals[len(names) + 1] = vals.get(len(names) + 1, EMPTY) | v
        if star:
            for i in range(len(args), npos):
                vals.setdefault(i, star)
            if a.vararg:
                vals[len(names)] = vals.get(len(names), EMPTY) | star

        def subst(o):
            if o[0] == 'p':
                res = vals.get(o[1], EMPTY)
                for st_ in o[2:]:
                    res = steps(res, st_)
                return res
            if o[0] == 'copy':
                return copies(subst(o[1]))
            if o[0] == 'box':
                r = EMPTY
                for q in o[1]:
                    r |= subst(q)
                return box(r, o[2])
            return frozenset([o])
        for (i, j), v in list(s.pcalls.items()):
            fv = vals.get(i, EMPTY)
            if fv:
                av = EMPTY
                for o in v:
                    av |= subst(o)
                self.call_value(frozenset(q for q in fv if q[0] in ('f', 'F', 'B', 'p')), node,
                                [EMPTY] * j + [av], {})
        for (o, attr), via in list(s.mut.items()):
            for q in subst(o):
                self.mutate(q, attr, node, via)
        res = EMPTY
        for o in s.ret:
            res |= subst(o)
        return res
