"""Abstract execution of the functions that drive the processing stages.

The walker of sa.flow is run over the driver with a small store of abstract values: the stages, the cancel query,
trees and error lists (each with the level of its most severe error: 0 none, 1 notice or warning, 2 error, 3 fatal),
booleans, integers and functions; everything else is unknown.  A stage may raise the level of what it processes and
may crash; a poll may answer yes or no.  All combinations are followed through branches, loops, helpers, handlers
and finally-clauses; what may not happen is checked where a stage is called and where the driver is left."""
from __future__ import annotations
import ast
import builtins
from typing import Dict, Iterable, List, Optional, Set, Tuple

from .src import Func, FUNC, Index, dotted, unparse, AnalysisError
from .flow import Flow, Client

TOP = None
LEVELS = ((0, 0), (1, 999), (1000, 9999), (10000, 10 ** 9))
QUERY_ATTRS = ('cancel_query', 'cancel_query__')
RELEVANT = set(QUERY_ATTRS) | {'is_fatal', 'is_error', 'is_warning', 'has_errors', 'only_errors', 'error_flag',
                               'new_error', 'add_error', 'CANCELED', 'process_tree', 'CancelError', 'CancelRequest',
                               'cancel_proxy'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


class Need(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class St:
    """immutable dictionary"""
    __slots__ = ('d', 'h')

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.h == o.h and self.d == o.d

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __contains__(self, k):
        return k in self.d

    def set(self, *kv) -> 'St':
        d = dict(self.d)
        for i in range(0, len(kv), 2):
            if kv[i + 1] is None:
                d.pop(kv[i], None)
            else:
                d[kv[i]] = kv[i + 1]
        return St(d)

    def drop(self, pred) -> 'St':
        if not any(pred(k) for k in self.d):
            return self
        return St({k: v for k, v in self.d.items() if not pred(k)})


def interval_cmp(a: Tuple[int, int], op: str, b: Tuple[int, int]) -> Optional[bool]:
    if op == '<':
        return True if a[1] < b[0] else False if a[0] >= b[1] else None
    if op == '<=':
        return True if a[1] <= b[0] else False if a[0] > b[1] else None
    if op == '>':
        return interval_cmp(b, '<', a)
    if op == '>=':
        return interval_cmp(b, '<=', a)
    if op == '==':
        return True if a[0] == a[1] == b[0] == b[1] else False if a[1] < b[0] or b[1] < a[0] else None
    if op == '!=':
        r = interval_cmp(a, '==', b)
        return None if r is None else not r
    return None


def level_of(n: int) -> int:
    return 3 if n >= 10000 else 2 if n >= 1000 else 1 if n >= 1 else 0


class Driver(Client):
    """abstract execution; subclasses say what is a stage"""
    comp_targets = True
    unroll = True
    max_depth = 8
    #: attributes of objects that are followed by name
    tracked: Tuple[str, ...] = ()
    #: kinds of attributes a stage may have
    kinds: Dict[str, Tuple[str, ...]] = {}
    #: integers are computed (otherwise only constants are followed)
    arithmetic = False
    tree_stages: Set[str] = set()
    modules = ('compile', 'pipeline', 'error', 'dsl')

    def __init__(self, ix: Index, bad):
        self.ix = ix
        self.bad = bad                       # bad(aspect, rule, construct, where, message)
        self.funcs: Dict[int, Func] = {}
        self.stage_calls: Set[Tuple] = set()
        self.polls: Set[int] = set()
        self.rel: Dict[int, bool] = {}
        self.consts: Dict[Tuple[str, str], object] = {}
        self.breaks: Dict[int, ast.AST] = {}

    # -- helpers ------------------------------------------------------------------------

    def where(self, flow, node) -> str:
        f = flow.func
        return f'{f.module.rel}:{getattr(node, "lineno", f.node.lineno)} {f.qual}'

    def lookup(self, name: str, st: St, flow, func):
        depth = len(flow.stack)
        k = ('v', depth, name)
        if k in st:
            return st.get(k)
        if self.is_local(func, name):
            return TOP
        outer = func.outer
        d = depth - 1
        while outer is not None and d >= 1:
            if flow.stack[d - 1].node is outer.node:
                k = ('v', d, name)
                if k in st:
                    return st.get(k)
                if self.is_local(outer, name):
                    return TOP
                outer = outer.outer
            d -= 1
        return self.global_value(func.module, name)

    def home(self, name, flow, func) -> int:
        """depth of the frame an assignment to name concerns"""
        depth = len(flow.stack)
        non = getattr(func.node, '_nonlocals', None)
        if non is None:
            non = func.node._nonlocals = {x for n in ast.walk(func.node) if isinstance(n, ast.Nonlocal)
                                          for x in n.names}
        if name in non:
            outer = func.outer
            for d in range(depth - 1, 0, -1):
                if outer is not None and flow.stack[d - 1].node is outer.node:
                    if self.is_local(outer, name):
                        return d
                    outer = outer.outer
        return depth

    def is_local(self, func: Func, name: str) -> bool:
        if func.locals_ is None:
            s = set(func.all_params())
            stack = list(func.node.body)
            non = set()
            while stack:
                n = stack.pop()
                if isinstance(n, FUNC + (ast.ClassDef,)):
                    s.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    non.update(n.names)
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                stack.extend(ast.iter_child_nodes(n))
            func.locals_ = s - non
        return name in func.locals_

    def global_value(self, module, name):
        k = (module.name, name)
        if k in self.consts:
            return self.consts[k]
        self.consts[k] = TOP
        v = TOP
        f = self.ix.resolve_func(module, name)
        if f is not None:
            self.funcs[id(f.node)] = f
            v = ('func', id(f.node))
        else:
            r = self.ix.resolve_global(module, name)
            if r is not None:
                m, e = r
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 1 \
                        and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, int):
                    v = ('int', e.args[0].value, name)
                elif isinstance(e, ast.Constant):
                    v = self.const(e.value)
                elif isinstance(e, ast.Name) and e.id != name:
                    v = self.global_value(m, e.id)
        self.consts[k] = v
        return v

    @staticmethod
    def const(c):
        if c is None:
            return ('none',)
        if isinstance(c, bool):
            return ('bool', c)
        if isinstance(c, int):
            return ('int', c, '')
        if isinstance(c, str):
            return ('str', c)
        return TOP

    # -- values ---------------------------------------------------------------------------

    def level(self, oid, st: St) -> int:
        l = st.get(('sev', oid))
        if l is None:
            raise Need(('sev', oid), (0, 1, 2, 3))
        return l

    def truth(self, v, st: St) -> Optional[bool]:
        if v is TOP:
            return None
        k = v[0]
        if k == 'none':
            return False
        if k == 'bool':
            return v[1]
        if k == 'int':
            return v[1] != 0
        if k == 'str':
            return bool(v[1])
        if k == 'list':
            return v[1]
        if k in ('sev', 'errs', 'len'):
            return self.level(v[1], st) != 0
        if k == 'lvl':
            return v[1] != 0
        if k == 'tup':
            return len(v) > 1
        if k == 'flt':
            return self.at_least(self.level(v[1], st), v[2])
        if k in ('stage', 'query', 'func', 'tree', 'elem', 'errobj', 'exc'):
            return True
        return None

    @staticmethod
    def at_least(lvl: int, n: int) -> Optional[bool]:
        return interval_cmp(LEVELS[lvl], '>=', (n, n))

    def rng(self, v, st) -> Optional[Tuple[int, int]]:
        if v is TOP:
            return None
        if v[0] == 'int':
            return (v[1], v[1])
        if v[0] == 'sev':
            return LEVELS[self.level(v[1], st)]
        if v[0] == 'lvl':
            return LEVELS[v[1]]
        if v[0] == 'len':
            return (0, 0) if self.level(v[1], st) == 0 else (1, 10 ** 9)
        return None

    def compare(self, a, op, b, st) -> Optional[bool]:
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a is not TOP and b is not TOP:
                if ('none',) in (a, b):
                    o = b if a == ('none',) else a
                    if o == ('none',):
                        return not neg
                    if o[0] in ('query', 'stage', 'tree', 'errs', 'bool', 'int', 'str', 'sev', 'func', 'tup'):
                        return neg
                    return None
                if a[0] == b[0] == 'bool':
                    return (a[1] == b[1]) != neg
                if a[0] == b[0] == 'str':
                    return (a[1] == b[1]) != neg
                if a == b and a[0] in ('u', 'func', 'query', 'stage'):
                    return not neg
                if a[0] in ('func', 'query', 'stage') and b[0] in ('func', 'query', 'stage'):
                    return neg
        if type(op) in CMP:
            if a is not TOP and a == b and a[0] == 'u':
                return CMP[type(op)] in ('<=', '>=', '==')
            x, y = self.rng(a, st), self.rng(b, st)
            if x is not None and y is not None:
                return interval_cmp(x, CMP[type(op)], y)
        return None

    def val(self, e, st: St, flow, func):
        if isinstance(e, ast.Constant):
            return self.const(e.value)
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st, flow, func)
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value, st, flow, func)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return TOP
            return ('tup',) + tuple(self.val(x, st, flow, func) for x in e.elts)
        if isinstance(e, ast.Call):
            return st.get(('c', len(flow.stack), id(e)))
        if isinstance(e, ast.Await):
            return self.val(e.value, st, flow, func)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, st, flow, func)
        if isinstance(e, ast.Subscript):
            b = self.val(e.value, st, flow, func)
            if b is not TOP and b[0] == 'tup':
                i = self.val(e.slice, st, flow, func)
                if i is not TOP and i[0] == 'int' and -len(b) < i[1] < len(b) - 1:
                    return b[1 + i[1]] if i[1] >= 0 else b[i[1]]
            if b is not TOP and b[0] == 'errs':
                if isinstance(e.slice, ast.Slice):
                    return b if e.slice.lower is None and e.slice.upper is None else TOP
                return ('elem', b[1])
            return self.subscript(e, b, st, flow, func)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(self.val(e.operand, st, flow, func), st)
            return TOP if t is None else ('bool', not t)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.val(e.operand, st, flow, func)
            return ('int', -v[1], '') if v is not TOP and v[0] == 'int' else TOP
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            unknown = False
            v = TOP
            for x in e.values:
                v = self.val(x, st, flow, func)
                t = self.truth(v, st)
                if t is None:
                    unknown = True
                elif t != isand:
                    return v if not unknown else TOP
            return TOP if unknown else v
        if isinstance(e, ast.IfExp):
            t = self.truth(self.val(e.test, st, flow, func), st)
            if t is None:
                a, b = self.val(e.body, st, flow, func), self.val(e.orelse, st, flow, func)
                return a if a == b else TOP
            return self.val(e.body if t else e.orelse, st, flow, func)
        if isinstance(e, ast.Compare):
            left = self.val(e.left, st, flow, func)
            res = True
            for op, r in zip(e.ops, e.comparators):
                right = self.val(r, st, flow, func)
                c = self.compare(left, op, right, st)
                if c is None:
                    res = None
                elif not c:
                    return ('bool', False)
                left = right
            return TOP if res is None else ('bool', True)
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left, st, flow, func), self.val(e.right, st, flow, func)
            return self.binop(a, e.op, b, st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comprehension(e, st, flow, func)
        if isinstance(e, ast.Lambda):
            return ('func', id(self.lambda_func(e, flow, func).node))
        return TOP

    def comprehension(self, e, st, flow, func):
        """errors picked from a list of errors: is there any?"""
        if len(e.generators) != 1:
            return TOP
        g = e.generators[0]
        it = self.val(g.iter, st, flow, func)
        if it == ('tup',):
            return it
        if it is TOP or it[0] != 'errs':
            return TOP
        if self.level(it[1], st) == 0:
            return ('list', False)
        for c in g.ifs:
            t = self.truth(self.val(c, st, flow, func), st)
            if t is None:
                return TOP
            if not t:
                return ('list', False)
        return ('list', True)

    def binop(self, a, op, b, st):
        if a is not TOP and b is not TOP:
            if a[0] == b[0] == 'int' and self.arithmetic:
                if isinstance(op, ast.Add):
                    return ('int', a[1] + b[1], '')
                if isinstance(op, ast.Sub):
                    return ('int', a[1] - b[1], '')
            if a[0] == b[0] == 'bool' and isinstance(op, (ast.BitOr, ast.BitAnd)):
                return ('bool', (a[1] or b[1]) if isinstance(op, ast.BitOr) else (a[1] and b[1]))
        if isinstance(op, ast.BitOr):
            for x in (a, b):
                if x == ('bool', True):
                    return x
        if isinstance(op, ast.BitAnd):
            for x in (a, b):
                if x == ('bool', False):
                    return x
        return TOP

    def attribute(self, e: ast.Attribute, st, flow, func):
        b = self.val(e.value, st, flow, func)
        if b is not TOP:
            if b[0] in ('tree', 'u'):
                if e.attr == 'error_flag':
                    return ('sev', b[1])
                if e.attr in ('errors', 'errors_sorted'):
                    return ('errs', b[1])
            if b[0] == 'elem' and e.attr == 'code':
                return ('sev', b[1])
            if b[0] == 'errobj' and e.attr == 'code':
                return b[1]
            if b[0] == 'tup':
                names = {5: ('', '', '', 'errors'), 4: ('result', 'messages', 'AST')}.get(len(b), ())
                if e.attr in names and e.attr:
                    return b[1 + names.index(e.attr)]
            if b[0] == 'stage':
                return st.get(('arm', b[1], e.attr))
        if e.attr in self.tracked:
            return st.get(('at', e.attr))
        d = dotted(e)
        if d and '.' in d:
            head = d.split('.')[0]
            imp = func.module.imports.get(head)
            if imp is not None and d.count('.') == 1:
                name = imp[0].split('.')[-1] if imp[1] is None else imp[1]
                try:
                    return self.global_value(self.ix.module(name), e.attr)
                except AnalysisError:
                    pass
        return TOP

    def subscript(self, e, base, st, flow, func):
        return TOP

    def lambda_func(self, e: ast.Lambda, flow, func) -> Func:
        if not hasattr(e, '_func'):
            body = ast.Return(value=e.body)
            ast.copy_location(body, e)
            fd = ast.FunctionDef(name='<lambda>', args=e.args, body=[body], decorator_list=[], returns=None,
                                 type_comment=None)
            ast.copy_location(fd, e)
            fd.end_lineno = getattr(e, 'end_lineno', e.lineno)
            e._func = Func(fd, func.module, func.cls, func)
        self.funcs[id(e._func.node)] = e._func
        return e._func

    def evals(self, e, st, flow, func) -> List[Tuple[St, object]]:
        """all (state, value) pairs, splitting the state where a level has to be known"""
        try:
            return [(st, self.val(e, st, flow, func))]
        except Need as n:
            res = []
            for o in n.options:
                res += self.evals(e, self.learn(st, n.key, o), flow, func)
            return res

    def learn(self, st: St, key, o) -> St:
        st = st.set(key, o)
        if key[0] == 'sev' and o > st.get('W', 0):
            st = st.set('W', o)
        return st

    def force(self, fn, st: St) -> List[Tuple[St, object]]:
        try:
            return [(st, fn(st))]
        except Need as n:
            res = []
            for o in n.options:
                res += self.force(fn, self.learn(st, n.key, o))
            return res

    # -- walker interface -------------------------------------------------------------------

    def begin(self, stmt, st, flow, func):
        d = len(flow.stack)
        return st.drop(lambda k: isinstance(k, tuple) and k[0] == 'c' and k[1] == d)

    def nested(self, node, st, flow, func):
        if isinstance(node, FUNC):
            if not hasattr(node, '_func'):
                node._func = Func(node, func.module, func.cls, func)
            self.funcs[id(node)] = node._func
            return (st.set(('v', len(flow.stack), node.name), ('func', id(node))),)
        return (st,)

    def branch(self, test, st, truth, flow, func):
        res = []
        for s, t in self.force(lambda x: self.truth(self.val(test, x, flow, func), x), st):
            if t is None:
                res.append(self.assume(test, s, truth, flow, func))
            elif t == truth:
                res.append(s)
        return [r for r in res if r is not None]

    def assume(self, test, st, truth, flow, func) -> Optional[St]:
        """learn from a test of unknown outcome"""
        return st

    def may_raise(self, call, st, flow, func):
        return True

    def raised(self, call, st, flow, func):
        return ()

    def may_skip(self, loop, st, flow, func):
        it = loop.iter if isinstance(loop, (ast.For, ast.AsyncFor)) else loop.generators[0].iter
        try:
            v = self.val(it, st, flow, func)
            if v is not TOP and v[0] == 'errs':
                return self.level(v[1], st) == 0
        except Need:
            pass
        return True

    def mro_names(self, tag: str, module) -> List[str]:
        c = self.ix.find_class(module, tag)
        if c is None:
            c = next((x for x in self.ix.all_classes() if x.name == tag), None)
        if c is not None:
            res = []
            for x in self.ix.mro(c):
                res.append(x.name)
                for b in x.bases:
                    t = getattr(builtins, b, None)
                    if isinstance(t, type):
                        res += [y.__name__ for y in t.__mro__]
            return res
        t = getattr(builtins, tag, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return [y.__name__ for y in t.__mro__]
        return [tag, 'Exception', 'BaseException']

    def catches(self, handler, st, flow, func):
        if handler.type is None:
            return True, False
        tag = st.get('ex', 'Exception')
        names = self.mro_names(tag, func.module)
        hs = [(dotted(t) or '').split('.')[-1] for t in
              (handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type])]
        if any(h in names for h in hs):
            return True, False
        if tag == 'Exception':
            return True, True
        return False, True

    def catches_silent(self, handler, atom, flow, func):
        return False

    # -- calls --------------------------------------------------------------------------------

    def relevant(self, f: Func) -> bool:
        k = id(f.node)
        if k not in self.rel:
            self.rel[k] = False
            r = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id in RELEVANT or isinstance(n, ast.Attribute) and n.attr in RELEVANT:
                    r = True
                    break
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    g = self.ix.resolve_func(f.module, n.func.id)
                    if g is not None and g.module.name in self.modules and self.relevant(g):
                        r = True
                        break
            self.rel[k] = r
        return self.rel[k]

    opaque: Set[str] = {'has_errors', 'only_errors'}

    def callee(self, call, st, flow, func) -> Optional[Func]:
        try:
            v = self.val(call.func, st, flow, func)
        except Need:
            return None
        if v is not TOP and v[0] == 'func':
            return self.funcs[v[1]]
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and call.func.value.id in ('self', 'cls') and func.cls is not None:
            return self.ix.lookup(func.cls, call.func.attr)
        return None

    def target(self, call, st, flow, func):
        f = self.callee(call, st, flow, func)
        if f is None or f.name in self.opaque or any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                                     for n in ast.walk(f.node)):
            return None
        if any(f is x or f.node is x.node for x in flow.stack):
            return None
        nested = f.outer is not None
        if not nested and f.module.name not in self.modules:
            return None
        if self.relevant(f):
            return f
        for a in list(call.args) + [k.value for k in call.keywords]:
            try:
                v = self.val(a, st, flow, func)
            except Need:
                continue
            if v is not TOP and v[0] in ('stage', 'query', 'sev', 'errs', 'elem', 'lvl', 'flt'):
                return f
        return None

    def args(self, callee: Func, call: ast.Call):
        """parameter name -> expression | default"""
        a = callee.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if callee.is_method and names and isinstance(call.func, ast.Attribute):
            names = names[1:]
        res: Dict[str, ast.expr] = {}
        for n, x in zip(names, call.args):
            if isinstance(x, ast.Starred):
                break
            res[n] = x
        for k in call.keywords:
            if k.arg:
                res[k.arg] = k.value
        return res

    def bind(self, callee, call, st, flow, func):
        d = len(flow.stack) + 1
        got = self.args(callee, call)
        a = callee.node.args
        pos = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: dv for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None})
        kv = []
        for x in pos + a.kwonlyargs:
            v = TOP
            if x.arg in got:
                try:
                    v = self.val(got[x.arg], st, flow, func)
                except Need:
                    v = TOP
            elif x.arg in defaults:
                dv = defaults[x.arg]
                v = self.const(dv.value) if isinstance(dv, ast.Constant) else \
                    self.global_value(callee.module, dv.id) if isinstance(dv, ast.Name) else TOP
            if v is TOP:
                v = ('u', ('p', id(x)))
                kv += [('sev', v[1]), None]
            kv += [('v', d, x.arg), v]
        return st.set(*kv, 'ret', None) if kv else st.set('ret', None)

    def unbind(self, callee, call, x, before, flow, func):
        d = len(flow.stack)
        v = x.get('ret')
        x = x.drop(lambda k: k == 'ret' or isinstance(k, tuple) and k[0] in ('v', 'c') and k[1] > d)
        return x.set(('c', d, id(call)), v)

    # -- events -------------------------------------------------------------------------------

    def event(self, kind, node, st, flow, func):
        if kind == 'call':
            res = []
            for s, v in self.call(node, st, flow, func):
                res.append(s.set(('c', len(flow.stack), id(node)), v))
            return res
        if kind == 'store':
            return self.on_store(node, st, flow, func)
        if kind == 'return':
            if node.value is None:
                return (st.set('ret', ('none',)),)
            return [s.set('ret', v) for s, v in self.evals(node.value, st, flow, func)]
        if kind == 'raise':
            return (st.set('ex', self.raise_tag(node, st, flow, func)),)
        if kind == 'except':
            tag = st.get('ex', 'Exception')
            st = st.set('ex', None, 'hand', tag)
            if node.name:
                st = st.set(('v', len(flow.stack), node.name), ('exc', tag))
            return (st,)
        if kind == 'load':
            return self.on_load(node, st, flow, func)
        if kind == 'break':
            self.on_break(node, st, flow, func)
        return (st,)

    def raise_tag(self, node, st, flow, func) -> str:
        if isinstance(node, ast.Assert):
            return 'AssertionError'
        if node.exc is None:
            return st.get('hand', 'Exception')
        e = node.exc
        v = None
        try:
            v = self.val(e, st, flow, func)
        except Need:
            pass
        if v is not TOP and v[0] == 'exc':
            return v[1]
        if isinstance(e, ast.Call):
            e = e.func
        return (dotted(e) or 'Exception').split('.')[-1]

    def on_break(self, node, st, flow, func):
        pass

    def on_load(self, node, st, flow, func):
        if isinstance(node, ast.Attribute) and node.attr in ('errors', 'errors_sorted') and 'rd' in st:
            v = self.val(node.value, st, flow, func)
            if v is not TOP and v[0] in ('tree', 'u') and v[1] == st.get('rd'):
                return (st.set('rd', None),)
        return (st,)

    def stored_value(self, t, st, flow, func) -> List[Tuple[St, object]]:
        s = t._stmt
        if isinstance(s, ast.AugAssign):
            return self.force(lambda x: self.binop(self.val(t, x, flow, func), s.op,
                                                   self.val(s.value, x, flow, func), x), st)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.comprehension)):
            v = self.val(s.iter, st, flow, func)
            if s.target is t:
                if v is not TOP and v[0] == 'errs':
                    return [(st, ('elem', v[1]))]
                return [(st, TOP)]
            return [(st, TOP)]
        if isinstance(s, (ast.With, ast.AsyncWith)) or getattr(s, 'value', None) is None:
            return [(st, TOP)]
        targets = s.targets if isinstance(s, ast.Assign) else [s.target]
        if any(x is t for x in targets):
            return self.evals(s.value, st, flow, func)

        def pick(target, v):
            if target is t:
                return True, v
            if isinstance(target, (ast.Tuple, ast.List)):
                for i, x in enumerate(target.elts):
                    w = v[1 + i] if v is not TOP and v[0] == 'tup' and len(v) == 1 + len(target.elts) else TOP
                    ok, r = pick(x, w)
                    if ok:
                        return True, r
            return False, TOP
        res = []
        for st1, v in self.evals(s.value, st, flow, func):
            for x in targets:
                ok, r = pick(x, v)
                if ok:
                    res.append((st1, r))
                    break
            else:
                res.append((st1, TOP))
        return res

    def on_store(self, t, st, flow, func):
        res = []
        if isinstance(t._stmt, (ast.For, ast.comprehension)) and t._stmt.target is t \
                and self.val(t._stmt.iter, st, flow, func) == ('tup',):
            return ()
        for s, v in self.stored_value(t, st, flow, func):
            if isinstance(t, ast.Name):
                if v is TOP:
                    v = ('u', id(t))
                    s = s.drop(lambda k: k == ('sev', id(t)))
                    for k, x in list(s.d.items()):
                        if x == v:
                            s = s.set(k, None)
                s = s.set(('v', self.home(t.id, flow, func), t.id), v)
            elif isinstance(t, ast.Attribute):
                s = self.store_attr(t, s, v, flow, func)
            res.append(s)
        return res

    def store_attr(self, t, st, v, flow, func):
        try:
            b = self.val(t.value, st, flow, func)
        except Need:
            b = TOP
        if b is not TOP and b[0] == 'stage':
            return st.set(('arm', b[1], t.attr), v if v is not TOP else ('other',))
        if t.attr in self.tracked:
            return st.set(('at', t.attr), v if v is not TOP else ('other',))
        return st

    # -- calls of known functions ---------------------------------------------------------------

    def arg(self, call, i, name, default=None):
        for k in call.keywords:
            if k.arg == name:
                return k.value
        if i is not None and i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
            return call.args[i]
        return default

    def call(self, call, st, flow, func) -> List[Tuple[St, object]]:
        fv = self.val(call.func, st, flow, func)
        if fv is not TOP and fv[0] == 'query':
            return self.poll(call, st, flow, func)
        if fv is not TOP and fv[0] == 'stage':
            return self.stage(fv[1], call, st, flow, func)
        if isinstance(call.func, ast.Attribute) and call.func.attr == '__call__':
            b = self.val(call.func.value, st, flow, func)
            if b is not TOP and b[0] == 'stage':
                return self.stage(b[1], call, st, flow, func)
        name = call.func.attr if isinstance(call.func, ast.Attribute) else \
            call.func.id if isinstance(call.func, ast.Name) else ''
        v = lambda e: self.val(e, st, flow, func)
        if isinstance(call.func, ast.Name):
            if name == 'isinstance' and len(call.args) == 2:
                x = v(call.args[0])
                c = (dotted(call.args[1]) or '').split('.')[-1]
                if x is not TOP:
                    if c == 'Error':
                        if x[0] in ('elem', 'errobj'):
                            return [(st, ('bool', True))]
                        if x[0] in ('sev', 'lvl', 'int'):
                            return [(st, ('bool', False))]
                    if c in ('RootNode', 'Node') and x[0] == 'tree':
                        return [(st, ('bool', True))]
                return [(st, self.isinstance_value(x, c))]
            if name == 'callable' and len(call.args) == 1:
                x = v(call.args[0])
                if x is not TOP and x[0] in ('query', 'func', 'stage', 'none'):
                    return [(st, ('bool', x[0] != 'none'))]
                return [(st, TOP)]
            if name == 'bool' and len(call.args) == 1:
                return [(s, TOP if t is None else ('bool', t)) for s, t in
                        self.force(lambda x: self.truth(self.val(call.args[0], x, flow, func), x), st)]
            if name in ('list', 'tuple', 'sorted') and len(call.args) >= 1:
                x = v(call.args[0])
                if x is not TOP and x[0] in ('errs', 'flt'):
                    return [(st, x)]
                return [(st, TOP)]
            if name == 'cast' and len(call.args) == 2:
                return [(st, v(call.args[1]))]
            if name == 'max' and len(call.args) >= 2:
                def f(x):
                    r = [self.rng(self.val(a, x, flow, func), x) for a in call.args]
                    if any(y is None for y in r):
                        return TOP
                    return ('lvl', level_of(max(y[0] for y in r)))
                return self.force(f, st)
            if name in ('any', 'all') and len(call.args) == 1:
                x = self.literal_test(name, call.args[0], st, flow, func)
                if x is not None:
                    return [(st, ('bool', x))]
            if name in ('any', 'max', 'sum') and len(call.args) == 1 \
                    and isinstance(call.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = call.args[0]

                def f(x):
                    it = self.val(g.generators[0].iter, x, flow, func)
                    c = self.truth(self.comprehension(g, x, flow, func), x)
                    if it is TOP or it[0] not in ('errs', 'tup') or c is None:
                        return TOP
                    if not c:
                        if name == 'any':
                            return ('bool', False)
                        d = self.arg(call, None, 'default')
                        return self.val(d, x, flow, func) if d is not None else TOP
                    w = self.val(g.elt, x, flow, func)
                    if name == 'any':
                        t = self.truth(w, x)
                        return TOP if t is None else ('bool', t)
                    return w if name == 'max' else TOP
                return self.force(f, st)
            if name == 'len' and len(call.args) == 1:
                x = v(call.args[0])
                if x is not TOP and x[0] == 'errs':
                    return [(st, ('len', x[1]))]
                return [(st, ('int', len(x) - 1, '') if x is not TOP and x[0] == 'tup' else TOP)]
            if name in ('hasattr', 'getattr', 'setattr') and len(call.args) >= 2:
                return self.attr_call(name, call, st, flow, func)
        if name in ('copy', 'deepcopy') and len(call.args) >= 1:
            x = v(call.args[0])
            return [(st, x if x is not TOP and x[0] in ('errs', 'tree', 'flt', 'u') else TOP)]
        if name == 'copy' and isinstance(call.func, ast.Attribute):
            x = v(call.func.value)
            return [(st, x if x is not TOP and x[0] == 'errs' else TOP)]
        if name == 'has_errors':
            lv = self.arg(call, 1, 'level')
            ms = self.arg(call, 0, 'messages')

            def f(x):
                m = self.val(ms, x, flow, func) if ms is not None else TOP
                n = self.val(lv, x, flow, func) if lv is not None else ('int', self.error_level(), '')
                if m == ('tup',):
                    return ('bool', False)
                if m is TOP or n is TOP or n[0] != 'int' or m[0] != 'errs':
                    return TOP
                t = self.at_least(self.level(m[1], x), n[1])
                return TOP if t is None else ('bool', t)
            return self.force(f, st)
        if name == 'only_errors':
            lv = self.arg(call, 1, 'level')
            ms = self.arg(call, 0, 'messages')
            m = v(ms) if ms is not None else TOP
            n = v(lv) if lv is not None else ('int', self.error_level(), '')
            if m is not TOP and m[0] == 'errs' and n is not TOP and n[0] == 'int':
                return [(st, ('flt', m[1], n[1]))]
            return [(st, TOP)]
        if name == 'Error':
            c = self.arg(call, 2, 'code')
            return [(st, ('errobj', v(c) if c is not None else ('int', self.error_level(), '')))]
        if name == 'new_error' and isinstance(call.func, ast.Attribute):
            c = self.arg(call, 2, 'code')
            code = v(c) if c is not None else ('int', self.error_level(), '')
            return self.add(call, call.func.value, code, st, flow, func)
        if name == 'add_error' and isinstance(call.func, ast.Attribute):
            x = self.arg(call, 1, 'error')
            xv = v(x) if x is not None else TOP
            code = TOP
            if xv is not TOP and xv[0] == 'errobj':
                code = xv[1]
            elif xv is not TOP and xv[0] == 'elem':
                code = ('sev', xv[1])
                if xv[1] == st.get('curlist'):
                    st = st.set('cur', 'ok')
            return self.add(call, call.func.value, code, st, flow, func)
        if name in ('append', 'extend', 'insert', 'add') and isinstance(call.func, ast.Attribute) \
                and isinstance(call.func.value, ast.Name):
            x = v(call.func.value)
            if x is not TOP and x[0] == 'tup':
                st = st.set(('v', self.home(call.func.value.id, flow, func), call.func.value.id),
                            ('u', ('l', id(call))), ('sev', ('l', id(call))), None)
                return [(st, ('none',))]
        return self.other_call(name, call, st, flow, func)

    def literal_test(self, name, e, st, flow, func) -> Optional[bool]:
        """any(...) or all(...) over a literal tuple"""
        ts = None
        if isinstance(e, (ast.Tuple, ast.List)):
            v = self.val(e, st, flow, func)
            ts = None if v is TOP else [self.truth(x, st) for x in v[1:]]
        elif isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1 \
                and isinstance(e.generators[0].target, ast.Name) \
                and not any(isinstance(n, ast.Call) for n in ast.walk(e.elt)):
            g = e.generators[0]
            v = self.val(g.iter, st, flow, func)
            if v is TOP or v[0] != 'tup' or g.ifs:
                return None
            k = ('v', self.home(g.target.id, flow, func), g.target.id)
            ts = [self.truth(self.val(e.elt, st.set(k, x if x is not TOP else ('u', id(e))), flow, func), st)
                  for x in v[1:]]
        if ts is None:
            return None
        if name == 'any':
            return True if True in ts else None if None in ts else False
        return False if False in ts else None if None in ts else True

    def isinstance_value(self, v, cls):
        return TOP

    def error_level(self) -> int:
        v = self.global_value(self.ix.module('error'), 'ERROR')
        return v[1] if v is not TOP and v[0] == 'int' else 1000

    def other_call(self, name, call, st, flow, func):
        return [(st, TOP)]

    def add(self, call, receiver, code, st, flow, func):
        """an error is added to a tree"""
        b = self.val(receiver, st, flow, func)
        oid = b[1] if b is not TOP and b[0] in ('tree', 'u') else None
        res = []
        for s, r in self.force(lambda x: self.rng(code, x), st):
            lvls = range(0, 4) if r is None else range(level_of(r[0]), level_of(r[1]) + 1)
            for l in lvls:
                for s1, old in (self.force(lambda x: self.level(oid, x), s) if oid is not None else [(s, 0)]):
                    s2 = s1
                    if oid is not None:
                        s2 = s2.set(('sev', oid), max(old, l))
                    s2 = s2.set('W', max(s2.get('W', 0), l))
                    if s2.get('track_rd'):
                        s2 = s2.set('rd', oid if oid is not None else 'unknown')
                    if s2.get('C', 0) == 1 and code is not TOP and code[0] == 'int' and code[2] == 'CANCELED':
                        s2 = s2.set('C', 2)
                    res.append((s2, b))
        return res

    def attr_call(self, name, call, st, flow, func):
        a = call.args
        x = self.val(a[0], st, flow, func)
        n = self.val(a[1], st, flow, func)
        if n is TOP or n[0] != 'str':
            return [(st, TOP)]
        n = n[1]
        if name == 'setattr' and len(a) == 3:
            res = []
            for s, v in self.evals(a[2], st, flow, func):
                if x is not TOP and x[0] == 'stage':
                    s = s.set(('arm', x[1], n), v if v is not TOP else ('other',))
                elif n in self.tracked:
                    s = s.set(('at', n), v if v is not TOP else ('other',))
                res.append((s, ('none',)))
            return res
        if x is not TOP and x[0] == 'stage' and n in QUERY_ATTRS:
            kinds = self.kinds.get(x[1], ('plain',))
            k = st.get(('cap', x[1]))
            opts = [k] if k is not None else kinds
            res = []
            for o in opts:
                s = st.set(('cap', x[1]), o)
                if name == 'hasattr':
                    res.append((s, ('bool', o == n)))
                elif o == n:
                    res.append((s, s.get(('arm', x[1], n))))
                else:
                    d = self.val(a[2], s, flow, func) if len(a) > 2 else TOP
                    res.append((s, d))
            return res
        if name == 'getattr' and n in self.tracked:
            return [(st, st.get(('at', n)))]
        return [(st, TOP)]

    # -- polls and stages -------------------------------------------------------------------------

    def poll(self, call, st, flow, func):
        self.polls.add(id(call))
        yes = st.set('pol', 1, 'C', max(1, st.get('C', 0)))
        no = st.set('pol', 1)
        return [(yes, ('bool', True)), (no, ('bool', False))]

    def stage(self, name, call, st, flow, func):
        raise NotImplementedError

    def run(self, f: Func, states: Iterable[St]):
        flow = Flow(self)
        return flow.run(f, states)


class PipelineDriver(Driver):
    """compile_source, process_tree, run_pipeline, full_pipeline"""
    kinds = {'preprocessor': ('plain', 'cancel_query'), 'parser': ('plain', 'cancel_query__'),
             'transformer': ('plain', 'cancel_query'), 'compiler': ('plain', 'cancel_query'),
             'junction': ('plain', 'cancel_query', 'cancel_query__'), 'tp': ('plain',)}
    tree_stages = {'transformer', 'compiler', 'junction', 'tp'}
    drivers = {'compile_source', 'run_pipeline', 'full_pipeline'}
    opaque = Driver.opaque | drivers

    def __init__(self, ix, bad, driver: Func):
        super().__init__(ix, bad)
        self.driver = driver
        self.arming = driver.name in ('compile_source', 'run_pipeline')
        self.loops: Dict[int, bool] = {}

    def subscript(self, e, base, st, flow, func):
        if self.driver.name == 'run_pipeline' and isinstance(e.slice, ast.Constant) and e.slice.value == 1 \
                and base is not TOP and base[0] == 'u':
            return ('factory',)
        return TOP

    def attribute(self, e, st, flow, func):
        if self.driver.name == 'run_pipeline' and e.attr == 'factory':
            return ('factory',)
        return super().attribute(e, st, flow, func)

    def stored_value(self, t, st, flow, func):
        s = t._stmt
        res = super().stored_value(t, st, flow, func)
        if self.driver.name == 'run_pipeline' and isinstance(s, (ast.Assign, ast.For)):
            # src, factory, dst = junction
            tt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, 'target', None)
            if isinstance(tt, ast.Tuple) and len(tt.elts) == 3 and tt.elts[1] is t:
                return [(x, ('factory',) if v is TOP else v) for x, v in res]
        return res

    def call(self, call, st, flow, func):
        fv = self.val(call.func, st, flow, func)
        if fv == ('factory',) and not call.args:
            # a new stage: nothing is known about its attributes
            st = st.set(('cap', 'junction'), None)
            for a in QUERY_ATTRS:
                st = st.set(('arm', 'junction', a), None)
            return [(st, ('stage', 'junction'))]
        return super().call(call, st, flow, func)

    # -- rules -------------------------------------------------------------------------------

    def stage(self, name, call, st, flow, func):
        res = []
        tree = None
        for a in list(call.args) + [k.value for k in call.keywords]:
            v = self.val(a, st, flow, func)
            if v is not TOP and v[0] in ('tree', 'u') and tree is None \
                    and name not in ('parser', 'preprocessor') and name not in self.drivers:
                tree = v[1]
        states = self.force(lambda x: self.level(tree, x), st) if tree is not None else [(st, None)]
        for s, l in states:
            self.enter_stage(name, call, s, l, flow, func)
            s = s.set('ran', s.get('ran', frozenset()) | {name}, 'pol', None)
            if s.get('track_rd') and name in ('parser', 'transformer', 'compiler', 'junction'):
                s = s.set('rd', 'tree' if name == 'parser' else tree if tree is not None else 'unknown')
            # the facts about the attributes of the stage are needed no longer
            s = s.drop(lambda k: isinstance(k, tuple) and k[0] in ('cap', 'arm') and k[1] == name)
            if name == 'preprocessor':
                for n in range(4):
                    s1 = self.learn(s, ('sev', 'pp'), n)
                    res.append((s1, ('tup', TOP, TOP, TOP, ('errs', 'pp'))))
            elif name == 'parser':
                for n in range(4):
                    res.append((self.learn(s, ('sev', 'tree'), n), ('tree', 'tree')))
            elif name in self.drivers:
                for n in range(4):
                    res.append((self.learn(s, ('sev', 'msgs'), n), ('tup', TOP, ('errs', 'msgs'), TOP)))
            elif tree is None:
                for n in range(s.get('W', 0), 4):
                    res.append((s.set('W', n), TOP))
            else:
                for n in range(l, 4):
                    res.append((self.learn(s, ('sev', tree), n),
                                ('tree', tree) if name == 'transformer' else TOP))
        return res

    def enter_stage(self, name, call, s, l, flow, func):
        self.stage_calls.add((self.driver.name, name, id(call)))
        what = f'{func.qual}: {unparse(call, 60)}'
        if s.get('W', 0) >= 3 or l == 3:
            self.bad('fatal', 'stage-after-fatal-error', f'{self.driver.name}|{name}', self.where(flow, call),
                     f'{self.driver.name} may call the {name} ({what}) although a fatal error has been reported before')
        if s.get('C', 0) >= 1:
            self.bad('cancel', 'stage-after-cancellation', f'{self.driver.name}|{name}', self.where(flow, call),
                     f'{self.driver.name} may call the {name} ({what}) although the cancel query has answered yes')
        if not self.arming:
            return
        q = s.get('q')
        kinds = self.kinds.get(name, ('plain',))
        k = s.get(('cap', name))
        passed = self.arg(call, None, 'cancel_query')
        for o in ([k] if k is not None else kinds):
            if o == 'plain':
                continue
            v = s.get(('arm', name, o))
            if passed is not None:
                v = self.val(passed, s, flow, func)
            if v != q:
                txt = 'the cancel query it was given' if q[0] == 'query' else 'None (a query of an earlier run may be left)'
                self.bad('cancel', 'stage-without-query', f'{self.driver.name}|{name}', self.where(flow, call),
                         f'{self.driver.name} may call the {name} ({what}) without having set its attribute {o} to {txt}')
        if q[0] == 'query' and s.get('ran', frozenset()) - {'preprocessor'} and s.get('pol') is None:
            self.bad('cancel', 'no-poll-between-stages', f'{self.driver.name}|{name}', self.where(flow, call),
                     f'{self.driver.name} may go on to the {name} ({what}) without having polled the cancel query '
                     'after the stage before')

    def may_raise(self, call, st, flow, func):
        return True

    def raised(self, call, st, flow, func):
        try:
            fv = self.val(call.func, st, flow, func)
        except Need:
            return ()
        if fv is TOP or fv[0] != 'stage':
            return ()
        name = fv[1]
        if name not in self.tree_stages:
            return (st.set('ex', 'Exception'),)
        tree = None
        for a in call.args:
            v = self.val(a, st, flow, func)
            if v is not TOP and v[0] in ('tree', 'u'):
                tree = v[1]
                break
        res = []
        for s, l in (self.force(lambda x: self.level(tree, x), st) if tree is not None else [(st, st.get('W', 0))]):
            base = s.get('W', 0) if self.driver.name == 'compile_source' else l
            if base >= 3:
                continue
            res.append(s.set('ex', 'Exception', 'crash', (base, name), 'ran', s.get('ran', frozenset()) | {name},
                             'pol', None))
        return res

    def on_store(self, t, st, flow, func):
        res = super().on_store(t, st, flow, func)
        s = t._stmt
        if isinstance(s, (ast.For, ast.comprehension)) and s.target is t \
                and self.val(s.iter, st, flow, func) == ('errs', 'pp'):
            res = [x.set('cur', 'un', 'curlist', 'pp', 'ppmiss', 1 if st.get('cur') == 'un' else st.get('ppmiss'))
                   for x in res]
        return res

    def other_call(self, name, call, st, flow, func):
        if isinstance(call.func, ast.Name) and name in self.drivers and name != self.driver.name:
            return self.stage(name, call, st, flow, func)
        if name == 'CompilationResult' and self.driver.name == 'compile_source':
            vs = [self.arg(call, i, n) for i, n in enumerate(('result', 'messages', 'AST'))]
            if all(x is not None for x in vs):
                return [(st, ('tup',) + tuple(self.val(x, st, flow, func) for x in vs))]
        return [(st, TOP)]

    def on_break(self, node, st, flow, func):
        if st.get('W', 0) < 3 and st.get('C', 0) == 0:
            loop = self.loop_of(node, func)
            if loop is not None and self.has_stage_call(loop, func):
                self.bad('fatal', 'stages-left-out', f'{self.driver.name}|break', self.where(flow, node),
                         f'{self.driver.name} may leave the loop over the processing steps although no fatal error '
                         'has occurred: the remaining stages would be left out')

    def loop_of(self, node, func):
        m = getattr(func.node, '_breaks', None)
        if m is None:
            m = {}

            def rec(n, loop):
                if isinstance(n, FUNC + (ast.ClassDef, ast.Lambda)):
                    return
                if isinstance(n, ast.Break):
                    m[id(n)] = loop
                if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                    for c in n.body:
                        rec(c, n)
                    for c in n.orelse:
                        rec(c, loop)
                    return
                for c in ast.iter_child_nodes(n):
                    rec(c, loop)
            for c in func.node.body:
                rec(c, None)
            func.node._breaks = m
        return m.get(id(node))

    def has_stage_call(self, loop, func) -> bool:
        k = id(loop)
        if k not in self.loops:
            r = False
            for n in ast.walk(loop):
                if isinstance(n, ast.Call):
                    d = (dotted(n.func) or '').split('.')[-1]
                    if d == 'process_tree':
                        r = True
                    g = self.ix.resolve_func(func.module, d) if d else None
                    if g is not None and g.module.name in self.modules and any(
                            isinstance(x, ast.Name) and x.id == 'process_tree' for x in ast.walk(g.node)):
                        r = True
                    if d and any(isinstance(x, FUNC) and x.name == d and any(
                            isinstance(y, ast.Name) and y.id == 'process_tree' for y in ast.walk(x))
                            for x in ast.walk(self.driver.node)):
                        r = True
            self.loops[k] = r
        return self.loops[k]

    # -- entry and exit -------------------------------------------------------------------------

    def starts(self) -> List[St]:
        f = self.driver
        ps = f.all_params()
        res = []
        for q in (('none',), ('query', 'q')):
            if f.name == 'process_tree' and q[0] == 'query':
                continue
            d = {'W': 0, 'q': q}
            if f.name in ('compile_source', 'run_pipeline'):
                d['track_rd'] = True
            for p in ps:
                d[('v', 1, p)] = ('u', ('p', f.name, p))
                a = next((x for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs
                          if x.arg == p), None)
                ann = unparse(a.annotation, 200) if a is not None and a.annotation is not None else ''
                if p == 'cancel_query' or 'CancelQuery' in ann:
                    d[('v', 1, p)] = q
            if f.name == 'compile_source':
                names = f.params()
                if len(names) < 5:
                    raise AnalysisError('compile_source: parameters have vanished')
                for n, stg in zip(names[1:5], ('preprocessor', 'parser', 'transformer', 'compiler')):
                    d[('v', 1, n)] = ('stage', stg)
                res.append(St({**d, ('v', 1, names[1]): ('none',), 'nopp': True}))
            elif f.name == 'process_tree':
                names = f.params()
                d[('v', 1, names[0])] = ('stage', 'tp')
                for l in range(4):
                    res.append(St({**d, ('v', 1, names[1]): ('tree', 'T'), ('sev', 'T'): l, 'W': l, 'start': l}))
                continue
            res.append(St(d))
        return res

    def check(self) -> int:
        f = self.driver
        name = f.name
        ret, exc = set(), set()
        for start in self.starts():
            flow = Flow(self)
            o = flow.run(f, [start])
            ret |= o.ret
            exc |= o.exc
        for s in ret:
            W, ran = s.get('W', 0), s.get('ran', frozenset())
            if s.get('C', 0) == 1:
                self.bad('cancel', 'cancellation-not-reported', name, f.where,
                         f'{name} may return after the cancel query has answered yes without having added the error '
                         'CANCELED')
            crash = s.get('crash')
            if crash is not None:
                if crash[0] < 2:
                    self.bad('fatal', 'crash-hidden', f'{name}|{crash[1]}', f.where,
                             f'{name} may swallow the exception of the {crash[1]} although no error has occurred before')
                elif W < 3:
                    self.bad('fatal', 'crash-not-reported', f'{name}|{crash[1]}', f.where,
                             f'{name} may swallow the exception of the {crash[1]} without reporting a fatal error')
            if s.get('rd') is not None:
                for asp in ('fatal', 'cancel'):
                    self.bad(asp, 'error-missing-in-result', name, f.where,
                             f'{name} may add an error to the tree after the errors that it returns have been read')
            if name == 'compile_source' and (s.d.get(('sev', 'pp')) or 0) > 0:
                r = s.get('ret')
                m = r[2] if r is not TOP and r[0] == 'tup' and len(r) == 4 else TOP
                lost = m in (('none',), ('tup',)) or 'parser' in ran and m is not TOP and m != ('errs', 'pp') and \
                    (s.get('cur') != 'ok' or s.get('ppmiss'))
                if lost:
                    self.bad('fatal', 'error-missing-in-result', f'{name}|preprocessor', f.where,
                             f'{name} may return without the errors of the preprocessor')
            if crash is None and W < 3 and s.get('C', 0) == 0:
                want = {'compile_source': {'parser', 'transformer', 'compiler'} | (set() if s.get('nopp') else
                                                                                   {'preprocessor'}),
                        'process_tree': {'tp'}, 'full_pipeline': {'compile_source', 'run_pipeline'}}.get(name, set())
                if not want <= ran:
                    self.bad('fatal', 'stages-left-out', f'{name}|{"/".join(sorted(want - ran))}', f.where,
                             f'{name} may return without having run {", ".join(sorted(want - ran))} although no '
                             'fatal error has occurred')
        for s in exc:
            crash = s.get('crash')
            if crash is not None and crash[0] >= 2:
                self.bad('fatal', 'crash-escapes', f'{name}|{crash[1]}', f.where,
                         f'{name} may let an exception of the {crash[1]} pass although an error has occurred before '
                         '(it should be turned into a fatal error)')
            if s.get('C', 0) >= 1:
                self.bad('cancel', 'cancellation-escapes', name, f.where,
                         f'{name} may be left by an exception after the cancel query has answered yes')
        return len(ret) + len(exc)
